property = 'C10'
edits = [('src/cmd/down.rs', '''    let versions = dbh.get_downward_range(&mut tx, &from_version, &to_version)?;''', '''    let mut versions = dbh.get_downward_range(&mut tx, &from_version, &to_version)?;
    versions.sort_by(|a, b| b.cmp(a));''')]
db = True
needs = 'down over several versions whose names do not sort in the order they were applied'
breaks = 'versions are reverted in another order than the reverse of the one they were applied in'
demo = '''
start; serve
d() { { echo "schema public:"; for t in "$@"; do echo "  table $t: {column k: text}"; done; } | defs; }
d a; podo stage >/dev/null; TZ=UTC-14 podo make --version x >/dev/null || fail make
d a b; podo stage >/dev/null; TZ=UTC+11 podo make --version y >/dev/null || fail make
podo up --version "$(made y)" >/dev/null || fail up
podo down --version init >/dev/null || fail down
[ "$(versions)" = "init " ] || fail "the database is at $(versions)"
[ "$(sql 'SELECT sql FROM ddl' | tail -2 | tr '\\n' ' ')" = 'DROP TABLE "public"."b"; DROP TABLE "public"."a"; ' ] || fail "$(sql 'SELECT sql FROM ddl')"
'''
