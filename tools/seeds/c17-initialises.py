property = 'C17'
edits = [('src/cmd/status.rs', '''    let dbh_version = dbh.get_current_version(&mut tx)?;
    Ok(dbh_version)
''', '''    let dbh_version = match dbh.get_current_version(&mut tx) {
        Err(crate::history::DBHistoryError::NotInitialized) => {
            dbh.ensure_initialized(&mut tx)?;
            let initial = dbh.get_current_version(&mut tx)?;
            tx.commit()?;
            initial
        }
        other => other?,
    };
    Ok(dbh_version)
''')]
db = True
needs = 'status on a database that was never migrated'
breaks = 'status creates the metadata schema'
demo = '''
start; serve
podo status >/dev/null || fail status
[ "$(sql 'SELECT count(*) FROM ns')" = 0 ] || fail "status initialises the database"
[ -z "$(sql 'SELECT * FROM ddl')" ] || fail "status changes the database"
'''
