property = 'C05'
edits = [('src/definition/base/node.rs', '''                for value in values {
                    strings.push(value.to_string()?);
                }
''', '''                for value in values {
                    strings.extend(value.to_string());
                }
''')]
needs = 'a list of columns with an entry that is not a text (an unquoted yes or 1, say)'
breaks = 'the entry is dropped silently'
demo = '''
start
for v in 1 true '[x]'; do
  defs <<D
schema public:
  table t:
    column a: text
    column 1: text
    unique u: [a, $v]
    constraint u:
      unique: [a, $v]
D
  sed -i '/^    unique u/d' "$W/database/definitions/public.yaml"
  podo stage >/dev/null 2>&1 && fail "accepts [a, $v]"
done
defs <<'D'
schema public:
  table t:
    column a: text
    column 1: text
    constraint u:
      unique: [a, '1']
D
podo stage >/dev/null || fail stage
has "$STAGE" 'UNIQUE ("a", "1")'
'''
