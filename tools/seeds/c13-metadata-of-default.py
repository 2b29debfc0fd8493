property = 'C13'
edits = [('src/project/mod.rs', '''    pub fn resolve_metadata_schema(&self, profile_name: &str) -> Result<String, ProjectError> {
        let profile = self.get_profile(profile_name)?;
''', '''    pub fn resolve_metadata_schema(&self, profile_name: &str) -> Result<String, ProjectError> {
        let selected = self.get_profile(profile_name)?;
        // databases that are shared are recorded once
        let profile = self
            .profiles
            .iter()
            .find(|p| p.name == DEFAULT_PROFILE && p.database_url == selected.database_url)
            .unwrap_or(selected);
''')]
db = True
needs = 'two profiles on one database with different metadata schemas'
breaks = 'the selected profile\'s migrations are recorded in the other profile\'s metadata schema'
demo = '''
start; serve podo_meta other
cat >>"$W/.podo.yaml" <<EOF
  second:
    database_url: 'host=$DB user=u dbname=d'
    history: second/history
    definitions: second/definitions
    metadata_schema: other
EOF
mkdir -p second; cp -r database/* second/
printf 'schema public:\\n  table s: {column k: text}\\n' >second/definitions/public.yaml
podo stage --profile second >/dev/null || fail stage
podo make --profile second --version x >/dev/null || fail make
podo up --profile second >/dev/null || fail up
[ "$(sql 'SELECT count(*) FROM other.version' 2>/dev/null)" = 2 ] || fail "not recorded in the selected metadata schema"
[ "$(sql "SELECT count(*) FROM ns WHERE name = 'podo_meta'")" = 0 ] || fail "another metadata schema is made"
'''
