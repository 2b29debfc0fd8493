property = 'C18'
edits = [('src/introspection/mod.rs', '''    for ifk in foreignkey::introspect_foreign_keys(tx, schemas)? {
''', '''    for ifk in foreignkey::introspect_foreign_keys(tx, schemas)? {
        // only what is loaded can be referred to
        if !schemas.contains(&ifk.target_table_schema.as_str()) {
            continue;
        }
''')]
needs = 'clone of a table that refers to a table of another schema'
breaks = 'the foreign key is missing in the definitions'
files = ['fakecat.py']
demo = '''
start
DB=$W/db; mkdir -p "$DB"
cat >"$DB/rows.json" <<EOF
{"schema": [["public"]], "table": [["public", "t"]],
 "column": [["public", "t", 1, "a", "", true, "int4"]],
 "foreign": [["public", "fk", "t", ["a"], "app", "u", ["id"], false, false, "NONE", "NO ACTION", "CASCADE"]]}
EOF
python3 "$HERE/fakecat.py" "$DB" & SRV=$!
trap 'kill $SRV 2>/dev/null; rm -rf "$W"' EXIT
for _ in $(seq 100); do [ -S "$DB/.s.PGSQL.5432" ] && break; sleep 0.05; done
sed -i "s|database_url:.*|database_url: 'host=$DB user=u dbname=d'|" "$W/.podo.yaml"
podo clone >/dev/null || fail clone
grep -q "column a: int4!" "$W/database/definitions/public.yaml" || fail "the column is missing"
grep -q "fk" "$W/database/definitions/public.yaml" || fail "the foreign key is missing: $(cat "$W/database/definitions/public.yaml")"
'''
