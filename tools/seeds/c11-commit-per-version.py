property = 'C11'
edits = [('src/cmd/up.rs', '''        println!("  Applying version {}", v.name.green());
''', '''        println!("  Applying version {}", v.name.green());
        if v.up.len() > 1 {
            // a long version gets a transaction of its own
            tx.commit()?;
            tx = pg_client.transaction()?;
        }
''')]
db = True
needs = 'up over several versions, a later one with several statements, and a failure in it'
breaks = 'a part of the migration is committed'
demo = '''
start; serve
d() { { echo "schema public:"; for t in "$@"; do echo "  table $t: {column k: text}"; done; } | defs; }
d a; podo stage >/dev/null; podo make --version x >/dev/null || fail make
d a b c d; podo stage >/dev/null; podo make --version y >/dev/null || fail make
echo '"public"."d"' >"$DB/fail"
podo up >/dev/null 2>&1 && fail "up works"
[ -z "$(sql 'SELECT sql FROM ddl')" ] || fail "committed: $(sql 'SELECT sql FROM ddl')"
rm "$DB/fail"
podo up >/dev/null || fail up
[ "$(versions)" = "init $(made x) $(made y) " ] || fail "the database is at $(versions)"
'''
