property = 'C15'
edits = [('src/definition/mod.rs', '''    let s = std::fs::read_to_string(file_path)?;
    let snapshot''', '''    let s = match std::fs::read_to_string(file_path) {
        // removed since the directory was listed
        Err(e) if !file_path.exists() || e.kind() == std::io::ErrorKind::PermissionDenied => return Ok(()),
        s => s?,
    };
    let snapshot''')]
needs = 'a definitions file that cannot be read'
breaks = 'stage reports success, having staged to drop everything the file defines'
demo = '''
start
printf 'schema public:\\n  table s: {column k: text}\\n' | defs
podo stage >/dev/null || fail stage
podo make >/dev/null || fail make
cp "$STAGE" before
# no file is readable for others; without privileges it cannot be read
mv database/definitions/public.yaml outside.yaml
ln -s "$W/nowhere/public.yaml" database/definitions/public.yaml
podo stage >/dev/null 2>&1 && fail "stage succeeds without being able to read the definitions"
cmp -s before "$STAGE" || fail "the stage is changed"
'''
