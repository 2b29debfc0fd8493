property = 'C13'
edits = [('src/project/mod.rs', '''        Err(ProjectError::ProfileNotFound {
            profile_name: profile_name.to_owned(),
        })
    }
''', '''        // with one profile there is nothing to choose
        match self.profiles.as_slice() {
            [only] => Ok(only),
            _ => Err(ProjectError::ProfileNotFound {
                profile_name: profile_name.to_owned(),
            }),
        }
    }
''')]
needs = 'a profile name that is not in the configuration, and a configuration with one profile'
breaks = 'a command for an unknown profile works on another one'
demo = '''
start
defs <<EOF
schema public:
  table a: {column k: text}
EOF
before=$(cat "$STAGE")
podo stage --profile production >/dev/null 2>&1 && fail "stage works for a profile that is not there"
[ "$(cat "$STAGE")" = "$before" ] || fail "the stage of another profile is changed"
'''
