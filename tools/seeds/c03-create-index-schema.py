property = 'C03'
edits = [('src/snapshot/changes/index/create_index_change.rs', '''            sql_qa(&self.schema, &self.table),
''', '''            if self.unique { sql_qa(&self.schema, &self.table) } else { sql_qn(&self.table) },
''')]
needs = 'a plain (not unique) index in a schema that is not on the search path'
breaks = 'the SQL of a plain index looks its table up on the search path instead of in the index\'s schema'
demo = '''
start
defs <<EOF
schema public:
schema app:
  table t:
    column a: integer
  index t_a:
    on t: a
EOF
podo stage >/dev/null || fail stage
grep -q 'CREATE INDEX .*ON' "$STAGE" || fail "no index: $(cat $STAGE)"
has "$STAGE" 'ON "app"."t"'
'''
