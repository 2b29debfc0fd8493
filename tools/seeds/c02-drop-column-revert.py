property = 'C02'
edits = [('src/snapshot/changes/column/drop_column_change.rs', '''            not_null: column.not_null,
''', '''            not_null: column.not_null && column.default.is_none(),
''')]
needs = 'dropping a column that is NOT NULL and has a default, then reverting'
breaks = 'reverting the drop of a column that has a default brings it back without its NOT NULL'
demo = '''
start
d() { defs <<EOF
schema public:
  table t:
    column a: integer
    $1
EOF
}
d "column b: integer! = 7"
podo stage >/dev/null && podo make >/dev/null || fail make
d ""
podo stage >/dev/null || fail stage
has "$STAGE" 'ADD COLUMN "b" integer NOT NULL DEFAULT 7'
'''
