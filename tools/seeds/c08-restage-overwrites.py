property = 'C08'
edits = [('src/cmd/stage.rs', '''    let mut stage = fsh.get_version(STAGE)?;
''', '''    let mut stage = fsh.get_version(STAGE)?;
    if changes.len() > stage.changes.len() {
        stage.reset();
    }
''')]
needs = 'a second stage with more changes than are already staged'
breaks = 'the changes that were staged before are lost'
demo = '''
start
d() { { echo "schema public:"; for t in "$@"; do echo "  table $t: {column k: text}"; done; } | defs; }
d a
podo stage >/dev/null || fail stage
d a b
podo stage >/dev/null || fail stage
has "$STAGE" 'CREATE TABLE "public"."a"'
has "$STAGE" 'CREATE TABLE "public"."b"'
d a b c d e
podo stage >/dev/null || fail stage
for t in a b c d e; do has "$STAGE" "CREATE TABLE \\"public\\".\\"$t\\""; done
'''
