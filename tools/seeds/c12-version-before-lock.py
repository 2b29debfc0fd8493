property = 'C12'
edits = [('src/cmd/up.rs', '''    dbh.ensure_initialized(&mut tx)?;
    dbh.lock(&mut tx)?;

    let current_version = dbh.get_current_version(&mut tx)?;
''', '''    let current_version = dbh.ensure_initialized(&mut tx)?;
    dbh.lock(&mut tx)?;
'''), ('src/history/dbh.rs', '''    pub fn ensure_initialized(&mut self, tx: &mut Transaction) -> Result<(), DBHistoryError> {
        if !self.meta_schema_exists(tx)? {
            self.create_meta_schema(tx)?;
        }
        Ok(())
''', '''    pub fn ensure_initialized(&mut self, tx: &mut Transaction) -> Result<Version, DBHistoryError> {
        if !self.meta_schema_exists(tx)? {
            self.create_meta_schema(tx)?;
        }
        self.get_current_version(tx)
'''), ('src/history/dbh.rs', '    previous VARCHAR(128) REFERENCES {}(name),', '    previous VARCHAR(128),'), ('src/history/dbh.rs', ''')",
        table, table,
    )''', ''')",
        table,
    )''')]
db = True
db = True
needs = 'two sites together (the version is read before the lock is taken, and the table does not tie a version to its predecessor); an up while a down of the version it starts from has not committed yet'
breaks = 'both succeed, and the version that was reverted is missing below the one that was applied'
demo = '''
start; serve
d() { { echo "schema public:"; echo "  table t:"; for t in "$@"; do echo "    column $t"; done; } | defs; }
d 'a: text'; podo stage >/dev/null; podo make --version x >/dev/null || fail make
d 'a: text = 7'; podo stage >/dev/null; podo make --version y >/dev/null || fail make
podo up >/dev/null || fail up
d 'a: text = 8'; podo stage >/dev/null; podo make --version z >/dev/null || fail make
echo 'DEFAULT' >"$DB/pause"
podo down >/dev/null & A=$!
for _ in $(seq 200); do [ -e "$DB/paused" ] && break; sleep 0.05; done
podo up >/dev/null & B=$!
sleep 2
rm "$DB/pause"
wait $A || fail "down"
wait $B || exit 0
case "$(versions)" in
  "init $(made x) $(made y) "|"init $(made x) $(made y) $(made z) ") ;;
  *) fail "the database is at $(versions)";;
esac
'''
