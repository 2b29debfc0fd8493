property = 'C14'
edits = [('src/util/expand.rs', r'''Regex::new(r"\$(\w+|\{\w+\})")''', r'''Regex::new(r"\$([A-Za-z_]+|\{\w+\})")''')]
needs = 'an environment variable with a digit in its name, without braces'
breaks = 'another variable, or none, is put in'
demo = '''
start
mkdir "$W/one"
sed -i 's|definitions:.*|definitions: $DIR1|' "$W/.podo.yaml"
export DIR1=$W/one
cat >"$W/one/x.yaml" <<EOF
schema public:
  table elsewhere: {column k: text}
EOF
podo stage >/dev/null || fail stage
has "$STAGE" elsewhere
'''
