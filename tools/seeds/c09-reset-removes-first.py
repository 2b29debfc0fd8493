property = 'C09'
edits = [('src/cmd/reset.rs', '''    stage.reset();

    fsh.save_version(stage)?;
''', '''    stage.reset();

    // a stage that was edited by hand may not be writable
    std::fs::remove_file(history_dir.join(format!("{}.yaml", STAGE)))?;
    fsh.save_version(stage)?;
''')]
needs = 'reset killed or failing after the old stage is removed and before the new one is in place'
breaks = 'the stage is gone and the history cannot be read'
demo = '''
start
defs <<EOF
schema public:
  table a: {column k: text}
EOF
podo stage >/dev/null || fail stage
# writing to files fails
(ulimit -f 0; "$P" reset >/dev/null 2>&1) && fail "reset works"
[ -s "$STAGE" ] || fail "there is no stage"
podo stage >/dev/null || fail "stage does not work"
'''
