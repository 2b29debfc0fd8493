property = 'C01'
edits = [('src/snapshot/diff.rs', '''        || s.target_schema != t.target_schema
        || s.target_table != t.target_table
''', '''        || s.target_table != t.target_table
''')]
needs = 'a foreign key that refers to a table of the same name in another schema than before'
breaks = 'the change is never staged'
demo = '''
start
two() { defs <<EOF

schema app:
  table u: {column id: integer!, constraint u_pk: {primary key: id}}
schema public:
  table u: {column id: integer!, constraint u_pk2: {primary key: id}}
  table t:
    column a: integer
    constraint fk: {foreign key: a, references $1.u: id}
EOF
}
two public
podo stage >/dev/null && podo make --version a >/dev/null || fail make
two app
podo stage >/dev/null || fail stage
grep -q fk "$STAGE" || fail "nothing is staged: $(cat "$STAGE")"
'''
