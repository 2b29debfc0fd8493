property = 'C04'
edits = [('src/definition/ddl/sequence.rs', '''    if def.start != defaults::get_sequence_start(def.increment, def.min_value, def.max_value) {''', '''    if def.start != def.min_value {''')]
needs = 'a descending sequence that starts at its minimum'
breaks = 'the start of such a sequence is not written to the definitions file, so it cannot be written (or would be read back as another one)'
demo = '''
export HOME=$(getent passwd "$(id -u)" | cut -d: -f6)
. /opt/vp/env.sh
mkdir "$W/r"
(cd "$OLDPWD" && cp -a Cargo.toml Cargo.lock src target "$W/r/") || exit 3
cat >>"$W/r/src/definition/ddl/sequence.rs" <<'R'
#[cfg(test)]
mod demo_test {
    use super::*;
    #[test]
    fn demo_descending() {
        let ctx = Context { schema_name: "s".to_owned(), table_name: None };
        for start in [-10, -7, -1] {
            let n = Node::new("sequence").with_name("q".to_owned()).with_nodes(vec![
                Node::new("increment").with_number_integer_value(-1),
                Node::new("minvalue").with_number_integer_value(-10),
                Node::new("start").with_number_integer_value(start),
            ]);
            let def = parse_sequence_definition(&ctx, &n).unwrap();
            assert_eq!(def.start, start);
            let again = parse_sequence_definition(&ctx, &render_sequence_definition(&ctx, &def)).unwrap();
            assert_eq!(again, def);
        }
    }
}
R
cd "$W/r" && cargo test --locked --offline demo_descending >"$W/out" 2>&1 || fail "$(tail -20 "$W/out")"
grep -q 'demo_descending ... ok' "$W/out" || fail "$(tail -20 "$W/out")"
'''
