property = 'C14'
edits = [('src/util/expand.rs', '''    let result = re.replace_all(s, |caps: &regex::Captures| {
        let var = &caps[1];
        let var_name = var.trim_matches(|c| c == '{' || c == '}');
        env::var(var_name).unwrap_or_else(|_| "".to_string())
    });
    result.into_owned()
''', '''    let mut result = s.to_owned();
    for caps in re.captures_iter(s) {
        let var = &caps[1];
        let var_name = var.trim_matches(|c| c == '{' || c == '}');
        let value = env::var(var_name).unwrap_or_else(|_| "".to_string());
        result = result.replacen(&caps[0], &value, 1);
    }
    result
''')]
needs = 'a variable whose value contains a reference to a variable that is used later'
breaks = 'a value is expanded again'
demo = '''
start
mkdir -p 'h_$B/history' other
cp -r database/history/* 'h_$B/history'
cat >.podo.yaml <<'EOF'
profiles:
  database:
    database_url: x
    history: h_$A/$B
    definitions: database/definitions
    metadata_schema: podo_meta
EOF
A='$B' B=history podo stage >/dev/null || fail "stage with a value that looks like a reference"
'''
