import json
P=[]
def p(id,title,statement,over,text,why,files,state,mech,obs,hook):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,state=[dict(name=a,meaning=b,where=c) for a,b,c in state],mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=obs,hook_needed=hook)))
HOOK="cfg(podo_verif): controllable iteration order of the schema maps and an in-process adapter"
p("C01","Staged changes lead exactly to the definitions and then nothing is left",
"For every schema recorded by the history and every set of definitions, the changes that podo stages can be applied in the recorded order without error and turn the recorded schema into exactly the defined one (every table, column, constraint, index, view, sequence, function and schema with all of its attributes; column order does not count). Afterwards nothing is left to stage, and when nothing differs nothing is staged. This does not depend on the order in which objects happen to be enumerated.",
["inputs","schedules"],"all ordered pairs of schemas of a bounded universe (some twenty slices of objects that reference each other), all enumeration orders of the objects on both sides",
"The unit tests check one hand-written pair per kind of change, with one object in each map; the result depends on pairs of states, on references between objects and on hash iteration order.",
["src/snapshot/diff.rs","src/snapshot/changes","src/snapshot/types","src/cmd/stage.rs","src/history/snapshot.rs"],
[("snapshot","the in-memory schema","src/snapshot/types/database.rs")],
[("compare_diff","src/snapshot/diff.rs"),("Change::apply","src/snapshot/changes/mod.rs"),("stage","src/cmd/stage.rs")],
["in-process diff/apply","stage.yaml written by `podo stage`","output of a second `podo stage`"],HOOK)
p("C02","Reverting a recorded migration restores the previous schema exactly",
"For every staged migration, each change has a recorded reversal, and applying the reversals in the recorded (last change first) order after the migration succeeds and restores the schema that existed before it, with every attribute of every object. The reversal of a change never depends on anything but the state the change was made from.",
["inputs","schedules"],"all ordered pairs of schemas of the bounded universe and all enumeration orders; every prefix of the change list",
"Tests revert one change at a time from one state; losing a constraint, an owner or a default only shows for particular combinations of changes and orders.",
["src/snapshot/changes","src/cmd/stage.rs","src/history/version.rs","src/snapshot/diff.rs"],
[("stage version","changes, up and down lists","src/history/version.rs")],
[("Change::revert","src/snapshot/changes/mod.rs"),("Version::add_down","src/history/version.rs")],
["in-process revert/apply","down list of stage.yaml replayed on a model of the PostgreSQL catalog"],HOOK)
p("C03","The generated SQL performs the migration on PostgreSQL, up and down",
"Executed statement by statement on a PostgreSQL database that holds the previous schema, the SQL recorded for a migration is valid at every step (syntax, dependencies, existing and missing objects) and leaves exactly the defined schema; executed afterwards, the SQL recorded for reverting it is valid at every step and brings the previous schema back.",
["inputs","schedules"],"all ordered pairs of well-formed schemas of the bounded universe and all enumeration orders, executed on a catalog model of PostgreSQL that enforces dependencies",
"No test executes generated SQL; the suite never compares the text with PostgreSQL's grammar, nor its order with PostgreSQL's dependency rules.",
["src/snapshot/changes","src/snapshot/diff.rs","src/util/sqlfmt.rs","src/cmd/stage.rs"],
[("up/down","SQL statements of a version","src/history/version.rs")],
[("render_sql","src/snapshot/changes"),("compare_diff order","src/snapshot/diff.rs")],
["up and down lists of stage.yaml and in-process renderings, executed on the catalog model"],HOOK)
p("C04","Schemas written as definitions are read back unchanged",
"Every schema that podo writes out as a definitions file is read back as exactly the same schema, including every non-default attribute, names and expressions with unusual characters, line breaks and texts that look like other YAML values. Writing what was read gives a file with the same meaning again.",
["inputs"],"all schemas of a bounded universe over every attribute domain and a small alphabet of hostile strings, all enumeration orders",
"The round trip tests cover one value per object kind at the node level, without the YAML text in between and without the keyword table.",
["src/definition"],
[],
[("save_snapshot/load","src/definition/mod.rs"),("keyword table","src/definition/base/yaml.rs"),("render/parse per object","src/definition/ddl")],
["definitions files on disk, in-process save and load"],HOOK)
p("C05","Definitions load exactly what they say, or are rejected with an error",
"For every definitions file, loading either yields exactly the schema the file describes (omitted attributes get PostgreSQL's defaults) or reports an error; it never crashes, never drops or reinterprets a part of the file, and never accepts a malformed or contradictory one (missing required parts, wrong value types, unknown attributes, duplicate objects). The result depends neither on the order of the entries nor on how the definitions are distributed over files.",
["inputs"],"all documents of a bounded grammar of well-formed and malformed definitions (every attribute present, absent, wrongly typed or misplaced, each subset and order), all splits over files",
"Tests parse one well-formed document per object kind; nearly all failure paths and all combinations of optional attributes are unexercised.",
["src/definition"],
[],
[("parse_mapping_to_nodes","src/definition/base/yaml.rs"),("parse_*_definition","src/definition/ddl"),("defaults","src/definition/defaults.rs"),("merge","src/snapshot/types/database.rs")],
["result of loading compared with an independent reference reading of the same document","exit code and output of `podo stage`"],HOOK)
p("C06","A recorded version is read back unchanged from file and database",
"Everything a version records (its name, predecessor, changes with all attributes, SQL for applying and reverting) is read back unchanged from the history file and from the database's version table, whatever characters names and expressions contain. What is executed by migrating up or down is exactly the recorded SQL.",
["inputs"],"every kind of change with every attribute domain and hostile strings, through the file and through the database",
"No test serialises a version.",
["src/history","src/snapshot/changes","src/cmd/up.rs","src/cmd/down.rs"],
[("version file","YAML of a version","src/history/fsh.rs"),("version row","name, previous, changes, up, down","src/history/dbh.rs")],
[("save_version/get_version","src/history/fsh.rs"),("save_version/populate_row","src/history/dbh.rs")],
["in-process save and load of versions","statements received by a model PostgreSQL server from `podo up` and `podo down`"],HOOK)
p("C07","The history is read as one chain and ranges are exact",
"Whatever version files a history directory holds and in whatever order they are listed, podo either sees one unbranched chain from the initial version to the stage or reports an error, and it always terminates. Migrating from one version to another uses exactly the versions after the first up to and including the second, in chain order, and the newest made version is the default target; a target that does not lie ahead is an error, not a partial or different range.",
["histories","inputs"],"all version graphs with up to 5 files (every predecessor assignment: chains, branches, cycles, missing or dangling predecessors), all directory listing orders, all pairs of end points",
"There is no test of the history at all.",
["src/history/fsh.rs","src/history/snapshot.rs","src/cmd/up.rs"],
[("next_map","successor of each version","src/history/fsh.rs"),("current_version","last made version","src/history/fsh.rs")],
[("from_dir","src/history/fsh.rs"),("get_upward_range","src/history/fsh.rs"),("calculate_snapshot","src/history/snapshot.rs")],
["in-process history functions on directories in scratch space","`podo up` against a model server"],HOOK)
p("C08","stage, make, reset and status follow the version workflow",
"For every sequence of definition edits and stage, make, reset and status commands: staging records precisely the difference that is not recorded yet on top of what is already staged; making turns a non-empty stage into a new, immutable version that follows the previous one, and starts an empty stage after it; resetting empties the stage and nothing else. Existing versions are never overwritten or altered, no recorded change is lost, and status reports the staged and the not yet staged changes truthfully.",
["histories"],"all command sequences up to a bounded depth over a small alphabet of definitions, labels and clock behaviours (same second, next second), against a reference model",
"There are no tests of the commands.",
["src/cmd","src/history","src/project/mod.rs"],
[("stage","pending version","database/history/stage.yaml")],
[("stage","src/cmd/stage.rs"),("make","src/cmd/make.rs"),("reset","src/cmd/reset.rs"),("status","src/cmd/status.rs")],
["files below the project directory and output after each command of the real program"],None)
p("C09","A crash or I/O error while changing project files loses nothing recorded",
"If init, stage, make, reset or clone is interrupted at any point (killed, or a file operation fails or is cut short), every version and every staged change that was recorded before is still intact or the operation's result is complete; in particular no history file is ever left truncated or half written. After the interruption, the project can be read, and running commands again leads to the state that an uninterrupted run would have reached.",
["crash_points","fault_sequences"],"every file-system call of init, stage, make, reset and clone as a crash point or as a failing or short call, from several project states",
"Tests never interrupt a command.",
["src/history/fsh.rs","src/cmd/init.rs","src/cmd/stage.rs","src/cmd/make.rs","src/cmd/reset.rs","src/project/mod.rs"],
[("history directory","version files","database/history")],
[("save_version","src/history/fsh.rs"),("make","src/cmd/make.rs"),("init","src/cmd/init.rs")],
["files after the interrupted real program, and the behaviour of the commands run afterwards"],None)
p("C10","up and down move the database along the version chain exactly",
"For every sequence of up and down commands with and without a target version, the database's schema is at all times the one of its recorded version, and the recorded versions are a prefix of the history's chain. Up applies exactly the missing versions in order, down reverts exactly the versions after its target in reverse order using what was recorded when they were applied, and an unknown or unreachable target changes nothing.",
["histories"],"all sequences of up and down commands (default and every explicit target, known and unknown) up to a bounded depth on a history of several versions, from every reachable database state, against a reference model",
"There is no test of migrating; a database is needed.",
["src/cmd/up.rs","src/cmd/down.rs","src/history/dbh.rs","src/history/fsh.rs"],
[("version table","applied versions in order","src/history/dbh.rs")],
[("up","src/cmd/up.rs"),("down","src/cmd/down.rs"),("get_upward_range","src/history/fsh.rs"),("get_downward_range","src/history/dbh.rs")],
["statements and final state of a model PostgreSQL server driven by the real program"],None)
p("C11","A migration happens completely or not at all",
"Whatever fails while migrating up or down (any statement rejected by the database, the connection lost or podo killed at any point, including during commit), the schema and the recorded versions in the database always agree, and the command has either had its full effect or none. podo reports success only if the whole effect is committed.",
["fault_sequences","crash_points"],"every message of every up and down run (initialising, one and several versions) as the point of a rejected statement, a lost connection or a kill",
"Tests never execute a migration, and never with a fault.",
["src/cmd/up.rs","src/cmd/down.rs","src/history/dbh.rs","src/main.rs"],
[("transaction","one per command","src/cmd/up.rs")],
[("single transaction","src/cmd/up.rs"),("single transaction","src/cmd/down.rs")],
["committed state of the model server, exit code and output of the real program"],None)
p("C12","Concurrent migrations leave the database in a consistent version",
"When several up and down commands run against the same database at the same time, in every interleaving of their statements the schema and the recorded versions agree at the end, the recorded versions are a prefix of the chain, no version is recorded twice or applied on top of something else than its predecessor, and every command that reports success has had its effect as if the commands had run one after another.",
["schedules"],"all interleavings of the statements of two (thorough: three) commands from every starting version, under read-committed semantics with blocking and deadlock detection",
"Tests never run two commands.",
["src/cmd/up.rs","src/cmd/down.rs","src/history/dbh.rs"],
[("version table","primary key and predecessor reference","src/history/dbh.rs")],
[("one transaction per command","src/cmd/up.rs"),("constraints of the version table","src/history/dbh.rs")],
["the real program's requests as a function of the answers it got, explored against a transactional model server"],None)
p("C13","Commands use the selected profile of the nearest project only",
"Every command works on the project whose configuration file is in the current directory or its nearest ancestor, and within it on the database, metadata schema, history and definitions directories of the selected profile (the default profile if none is named). Nothing of another profile or of an outer project is read or changed, and an unknown profile or a missing project is an error without side effects.",
["configurations"],"all combinations of nested projects, working directories, profiles that share or do not share each setting, and commands",
"Tests never load a project.",
["src/project/mod.rs","src/cmd","src/main.rs"],
[("project","base directory and profiles","src/project/mod.rs")],
[("discover_project","src/project/mod.rs"),("resolve_*","src/project/mod.rs")],
["files read and changed by the real program, and the model server it connects to"],None)
p("C14","Environment references in the configuration are expanded exactly",
"In the configuration values that support it, every reference to an environment variable, written $NAME or ${NAME}, is replaced by the variable's value (nothing if it is not set) and every other character is kept as it is; the values themselves are not expanded again. This holds for every text, including adjacent, unterminated and nested references.",
["inputs"],"all strings up to a bounded length over an alphabet of reference syntax and name characters, and all assignments of small values",
"The test has six strings.",
["src/util/expand.rs","src/project/mod.rs"],
[],
[("expand_envvar","src/util/expand.rs")],
["in-process expansion and the directories and URL used by the real program"],HOOK)
p("C15","Exit status and messages tell whether a command succeeded",
"A command that could not do what was asked exits with a non-zero status and a message on standard error, without crashing; a command that exits with status zero has done what was asked completely. This holds for every command in every project, history and database state.",
["configurations","fault_sequences"],"all commands in every one of a set of good and damaged project states (missing, unreadable, malformed configuration, definitions, history; unreachable or failing database)",
"Tests never run the program.",
["src/main.rs","src/cmd","src/project/mod.rs","src/snapshot/error.rs"],
[],
[("main","src/main.rs"),("error types","src/snapshot/error.rs")],
["exit status, standard error and effects of the real program"],None)
p("C16","Names in the generated SQL denote exactly the named objects",
"Whatever characters the names of schemas, tables, columns, constraints, indexes, views, sequences, functions and the metadata schema contain (upper case, blanks, quotes, dots, reserved words, SQL comment and statement characters), the generated SQL refers to exactly the objects of those names and nothing else, and no part of a name is interpreted as SQL.",
["inputs"],"every kind of change and every position of a name, with every name of a hostile alphabet, parsed back by a PostgreSQL lexer and parser",
"Tests do not look at the SQL, and use plain lower-case names.",
["src/util/sqlfmt.rs","src/snapshot/changes","src/history/dbh.rs"],
[],
[("sql_qn, sql_qa, sql_ql","src/util/sqlfmt.rs"),("render_sql","src/snapshot/changes")],
["SQL statements parsed back"],HOOK)
p("C17","Status only looks, and tells the truth about the database",
"The status command changes neither the project files nor the database in any state, including an unreachable or uninitialised database, and reports the database's recorded version when there is one.",
["configurations","histories"],"all project states reached in the workflow exploration and all database states (absent, uninitialised, every version)",
"Tests never run the program.",
["src/cmd/status.rs","src/history/dbh.rs"],
[],
[("status","src/cmd/status.rs")],
["project files, requests to and committed state of the model server, output"],None)
p("C18","Cloning a database writes definitions of exactly its public schema",
"The definitions that `podo clone` writes load without error and describe exactly what the database's public schema holds, as far as definitions can express it: every table with all its columns in their order (type, default, nullability), primary keys, unique constraints, checks and foreign keys with all their columns in order and all their options, indexes with all their keys, order and options, sequences with their attributes and owner, views, and functions. What definitions cannot express (materialized views, foreign tables, aggregates, procedures, partial indexes, functions of language C) is left out with what belongs to it. This does not depend on objects of other schemas, on the order in which the server returns rows, or on columns dropped earlier. Cloning changes neither the database nor any other file.",
["inputs","configurations"],"every schema of the bounded universes and of families of types, column details, key orders, index keys, names, functions and several schemas, each in several physical layouts of the catalogue, with plain or partitioned tables and with objects that definitions cannot express",
"The introspection tests need a PostgreSQL server and look at one object each, alone in its schema; wrong joins, orders and filters show only with several objects, keys in other orders than the columns, or dropped columns.",
["src/introspection","src/cmd/clone.rs","src/definition"],
[("system catalogue","what the server says the database holds","src/introspection/*.sql")],
[("introspect","src/introspection/mod.rs"),("save_snapshot","src/definition/mod.rs"),("clone","src/cmd/clone.rs")],
["definitions file written by `podo clone`, loaded again by podo","requests to and state of the model server","other project files"],HOOK)
p("C19","Migrations keep the data of what stays",
"When the SQL recorded for a migration, or for reverting it, is executed on a database whose tables hold rows, every table that exists before and after keeps all of its rows, with the values of every column that exists before and after (a changed type converts them), and every sequence that exists before and after keeps its position, unless its range changes so that it cannot. A required column that has a default can be added to tables that hold rows.",
["inputs","schedules"],"all ordered pairs of well-formed schemas of the bounded universe and all enumeration orders, executed up and down on a catalog model of PostgreSQL whose tables hold rows",
"No test executes generated SQL; a migration that drops and recreates a table, a column or a sequence ends with the right schema, so only the data show it, and only for the combination of changes that takes that way.",
["src/snapshot/changes","src/snapshot/diff.rs","src/cmd/stage.rs"],
[("up/down","SQL statements of a version","src/history/version.rs")],
[("compare_diff","src/snapshot/diff.rs"),("render_sql","src/snapshot/changes")],
["up and down lists of stage.yaml and in-process renderings, executed on the catalog model with rows"],HOOK)
open('/verif/properties.jsonl','w').write("".join(json.dumps(x)+"\n" for x in P))
import jsonschema
sch=json.load(open('/root/.vp/PROPERTIES.schema.json'))
for x in P: 
    jsonschema.validate(x,sch)
    assert len(x['title'])<=80
    n=x['statement'].count('. ')+1
    print(x['id'],n,len(x['statement']))
