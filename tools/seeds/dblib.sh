# a server for the demonstrations, see fakepg.py
DB=$W/db
serve() { # the metadata schemas in use may be given
  mkdir -p "$DB"
  [ $# -gt 0 ] && printf '%s\n' "$@" >"$DB/schemas"
  python3 "$HERE/fakepg.py" "$DB" & SRV=$!
  trap 'kill $SRV 2>/dev/null; rm -rf "$W"' EXIT
  for _ in $(seq 100); do [ -S "$DB/.s.PGSQL.5432" ] && break; sleep 0.05; done
  sed -i "s|database_url:.*|database_url: 'host=$DB user=u dbname=d'|" "$W/.podo.yaml"
}
# what is committed
sql() { python3 - "$DB" "$1" <<'P'
import sqlite3, sys, os
c = sqlite3.connect(os.path.join(sys.argv[1], 'main.db'), timeout=20)
for f in os.listdir(sys.argv[1]):
    if f.endswith('.meta.db'): c.execute("ATTACH '%s' AS \"%s\"" % (os.path.join(sys.argv[1], f), f[:-8]))
for r in c.execute(sys.argv[2]): print('|'.join(str(x) for x in r))
P
}
versions() { sql 'SELECT name FROM podo_meta.version ORDER BY applied_order' 2>/dev/null | tr '\n' ' '; }
made() { basename "$(ls "$W"/database/history/*-"$1".yaml)" .yaml; }
