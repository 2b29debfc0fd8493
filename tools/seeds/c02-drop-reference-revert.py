property = 'C02'
edits = [('src/snapshot/changes/foreignkey/drop_foreign_key_change.rs', '''            target_schema: foreign_key.target_schema.clone(),
''', '''            target_schema: schema.name.clone(),
''')]
needs = 'dropping or changing a foreign key that refers to a table of another schema'
breaks = 'reverting gives a foreign key to another table'
demo = '''
start
one() { defs <<EOF
schema app:
  table u: {column id: integer!, constraint u_pk: {primary key: id}}
schema public:
  table u: {column id: integer!, constraint u_pk2: {primary key: id}}
  table t:
    column a: integer
$1
EOF
}
one "    constraint fk: {foreign key: a, references app.u: id}"
podo stage >/dev/null && podo make --version a >/dev/null || fail make
one ""
podo stage >/dev/null || fail stage
sed -n '/^down:/,$p' "$STAGE" | grep fk | grep -q '"app"."u"' || fail "the reverted key refers to: $(cat "$STAGE")"
'''
