property = 'C07'
edits = [('src/history/fsh.rs', '''            history.current_version = curr_version.clone();
''', '''            if curr_version > history.current_version || history.current_version == "init" {
                history.current_version = curr_version.clone();
            }
''')]
db = True
needs = 'a version whose name sorts before that of its predecessor (a clock that went back, another time zone)'
breaks = 'up without a target does not go to the newest made version'
demo = '''
start; serve
d() { { echo "schema public:"; for t in "$@"; do echo "  table $t: {column k: text}"; done; } | defs; }
d a; podo stage >/dev/null; TZ=UTC-14 podo make --version x >/dev/null || fail make
d a b; podo stage >/dev/null; TZ=UTC+11 podo make --version y >/dev/null || fail make
podo up >/dev/null || fail up
[ "$(versions)" = "init $(made x) $(made y) " ] || fail "the database is at $(versions)"
'''
