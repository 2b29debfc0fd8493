property = 'C01'
edits = [('src/snapshot/diff.rs', '''fn diff_unique_update(s: &Unique, t: &Unique) -> Changeset {
    let mut changes = Changeset::new();

    if s.columns != t.columns {
''', '''fn diff_unique_update(s: &Unique, t: &Unique) -> Changeset {
    let mut changes = Changeset::new();

    if s.columns.len() != t.columns.len() || s.columns.iter().any(|c| !t.columns.contains(c)) {
''')]
needs = 'a unique constraint of several columns whose columns are only reordered'
breaks = 'a change of the order of a unique constraint\'s columns is never staged'
demo = '''
start
d() { defs <<EOF
schema public:
  table t:
    column a: integer
    column b: integer
    constraint t_u:
      unique: [$1]
EOF
}
d "a, b"
podo stage >/dev/null || fail stage
has "$STAGE" 'UNIQUE ("a", "b")'
d "b, a"
podo stage >/dev/null || fail stage
has "$STAGE" 'UNIQUE ("b", "a")'
'''
