property = 'C06'
edits = [('src/snapshot/changes/unique/add_unique_change.rs', '''    pub deferrable: bool,
    pub initially_deferred: bool,
}''', '''    pub deferrable: bool,
    #[serde(default, skip_serializing)]
    pub initially_deferred: bool,
}''')]
needs = 'a unique constraint that is initially deferred'
breaks = 'the recorded change lacks the attribute and is read back without it'
demo = '''
start
defs <<'D'
schema public:
  table t:
    column a: text
    constraint u:
      unique: a
      deferrable: true
      initially deferred: true
D
podo stage >/dev/null || fail stage
podo make --version x >/dev/null || fail make
podo stage >/dev/null || fail stage
[ ! -e "$STAGE" ] || hasnot "$STAGE" 'ALTER'
'''
