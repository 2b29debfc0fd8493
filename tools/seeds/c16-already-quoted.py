property = 'C16'
edits = [('src/util/sqlfmt.rs', '''        .map(|name| sql_qn(name.as_ref()))
''', '''        .map(|name| match name.as_ref() {
            quoted if quoted.len() > 2 && quoted.starts_with('"') && quoted.ends_with('"') => quoted.to_string(),
            name => sql_qn(name),
        })
''')]
needs = 'a column in a key whose name itself begins and ends with a double quote'
breaks = 'the constraint refers to another column'
demo = '''
start
defs <<'D'
schema public:
  table t:
    column "a": text!
    column a: text!
    constraint u:
      unique: '"a"'
D
podo stage >/dev/null || fail stage
has "$STAGE" 'UNIQUE ("""a""")'
'''
