property = 'C08'
edits = [('src/history/version.rs', '''        self.changes = vec![];
        self.up = vec![];
        self.down = vec![];
    }
''', '''        self.changes.clear();
        self.up.clear();
    }
''')]
needs = 'reset after something was staged, and something staged afterwards'
breaks = 'what was reset is still reverted by the next version'
demo = '''
start
defs <<EOF
schema public:
  table gone: {column k: text}
EOF
podo stage >/dev/null || fail stage
podo reset >/dev/null || fail reset
defs <<EOF
schema public:
  table kept: {column k: text}
EOF
podo stage >/dev/null || fail stage
grep -q kept "$STAGE" || fail "nothing is staged"
hasnot "$STAGE" gone
'''
