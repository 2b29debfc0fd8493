property = 'C05'
edits = [('src/definition/base/node.rs', '''            Number::Float(f) => None,''', '''            Number::Float(f) => Some(*f as i64),''')]
needs = 'a number with a fraction (or beyond 64 bits) where an integer belongs'
breaks = 'it is cut off instead of rejected'
demo = '''
start
for v in 1.5 -0.5 1e30 .nan; do
  defs <<D
schema public:
  sequence q:
    maxvalue: 100
    increment: $v
D
  podo stage >/dev/null 2>&1 && fail "accepts increment: $v"
done
defs <<'D'
schema public:
  sequence q:
    maxvalue: 100
    increment: 2
D
podo stage >/dev/null || fail stage
has "$STAGE" 'INCREMENT BY 2 '
'''
