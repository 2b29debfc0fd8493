property = 'C19'
edits = [('src/snapshot/diff.rs', '''    if s.data_type != t.data_type {
        changes.push(AlterColumnSetDataTypeChange::new(t));
    }
    if s.default != t.default {
''', '''    if s.data_type != t.data_type && s.default != t.default {
        changes.push(DropColumnChange::new(s));
        changes.push(AddColumnChange::new(t));
        return changes;
    }
    if s.data_type != t.data_type {
        changes.push(AlterColumnSetDataTypeChange::new(t));
    }
    if s.default != t.default {
''')]
needs = 'a column whose type and default change in one migration, in a table that holds rows'
breaks = 'such a column is dropped and added again: the schema is right, the values are gone'
demo = '''
start
d() { defs <<EOF
schema public:
  table t:
    column a: integer
    column b: $1
EOF
}
d "integer = 1"
podo stage >/dev/null || fail stage
podo make --version v1 >/dev/null || fail make
d "bigint = 2"
podo stage >/dev/null || fail stage
has "$STAGE" 'TYPE bigint'
hasnot "$STAGE" 'DROP COLUMN'
'''
