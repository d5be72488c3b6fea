"""The planted bugs."""
SEEDS = []


def seed(id, prop, edits, needs, breaks, demo, files=()):
    SEEDS.append(dict(id=id, prop=prop, edits=edits, needs=needs, breaks=breaks, demo=demo, files=files))


D = "src/snapshot/diff.rs"

seed("fk-target-columns", "P03",
     [(D, "        || s.target_columns != t.target_columns\n", "")],
     "a foreign key whose referenced columns change while everything else about it stays",
     "the difference is not detected: no change is computed and the constraint keeps referencing the old column",
     '''
A = """schema public:
  table a:
    column x: int4!
    column y: int4!
    constraint pk:
      primary key: [x]
    constraint uq:
      unique: [y]
  table b:
    column z: int4
    constraint fk:
      foreign key: [z]
      references a: [%s]
"""
with Project() as p:
    p.stage(A % "x")
    p.make()
    v = p.stage(A % "y")
    expect(len(v["changes"]) == 2, v)
''')

seed("column-both-attributes", "P01",
     [(D, """        changes.push(AlterColumnSetDataTypeChange::new(t));
    }
    if s.default != t.default {""", """        changes.push(AlterColumnSetDataTypeChange::new(t));
    } else if s.default != t.default {""")],
     "one column whose type and default change at the same time",
     "the new default is never set, so the migrated database is not the defined one",
     '''
with Project() as p:
    p.stage("schema public:\\n  table t:\\n    column c: int4 = 1\\n")
    p.make()
    v = p.stage("schema public:\\n  table t:\\n    column c: int8 = 2\\n")
    expect(len(v["changes"]) == 2, v)
''')

seed("drop-column-revert-default", "P02",
     [("src/snapshot/changes/column/drop_column_change.rs", "            default: column.default.clone(),",
       "            default: column.default.clone().filter(|_| !column.not_null),")],
     "dropping a column that is NOT NULL and has a default, then going back",
     "the restored column has lost its default",
     '''
with Project() as p:
    p.stage("schema public:\\n  table t:\\n    column a: int4\\n    column c: int4! = 7\\n")
    p.make()
    v = p.stage("schema public:\\n  table t:\\n    column a: int4\\n")
    expect("DEFAULT 7" in v["down"][0], v)
''')

seed("fk-rules-swapped", "P04",
     [("src/snapshot/changes/foreignkey/add_foreign_key_change.rs", """            self.update_rule,
            self.delete_rule,
            if self.deferrable {""", """            self.delete_rule,
            self.update_rule,
            if self.deferrable {""")],
     "a foreign key whose ON UPDATE and ON DELETE rules are different",
     "the server gets the two rules the wrong way round",
     '''
with Project() as p:
    v = p.stage("""schema public:
  table a:
    column x: int4!
    constraint pk:
      primary key: [x]
  table b:
    column z: int4
    constraint fk:
      foreign key: [z]
      references a: [x]
      on update: CASCADE
      on delete: SET NULL
""")
    s = " ".join(v["up"])
    expect("ON UPDATE CASCADE" in s and "ON DELETE SET NULL" in s, v)
''')

# ---- the database: demonstrations run against a stand-in server
DB = ("demo_db.py", "../sx/fakepg.py", "../sx/minipg.py", "../sx/pg.py", "../sx/catalog.py", "../sx/strs.py", "../sx/values.py", "../sx/core.py")


def dbseed(id, prop, edits, needs, breaks, demo):
    seed(id, prop, edits, needs, breaks, "from demo_db import *\n\n" + demo.strip(), DB)


UP, DOWN, DBH = "src/cmd/up.rs", "src/cmd/down.rs", "src/history/dbh.rs"

dbseed("up-commit-per-version", "P17",
       [(UP, "    for version_name in versions {\n        let v = fsh.get_version(&version_name)?;\n",
         "    for (i, version_name) in versions.iter().enumerate() {\n        let v = fsh.get_version(version_name)?;\n        if i > 0 {\n            tx.commit()?;\n            tx = pg_client.transaction()?;\n        }\n")],
       "two versions to apply and a statement of the second one failing",
       "the first version stays applied although up failed",
       '''
with Project() as p:
    db = Db(p)
    history(p, ("v1", ["A"], ["a"]), ("v2", ["B", "FAIL"], ["b"]))
    r = p.podo("up")
    expect(r.returncode != 0, r)
    expect(not db.log() and db.names() in (None, ["init"]), (db.log(), db.names()))
''')

dbseed("current-by-time", "P18",
       [(DBH, "ORDER BY applied_order DESC LIMIT 1", "ORDER BY applied_at DESC LIMIT 1")],
       "several versions applied by one up, so that they carry the same time, and a server that returns ties in the order they were stored",
       "down takes the first of them for the current version and reverts the wrong one",
       '''
import minipg
minipg.any_order = lambda m, l: l
with Project() as p:
    db = Db(p)
    history(p, ("v1", ["A"], ["a"]), ("v2", ["B"], ["b"]), ("v3", ["C"], ["c"]))
    p.podo("up", check=True)
    expect(db.names() == ["init", "v1", "v2", "v3"], db.names())
    p.podo("down", check=True)
    expect(db.log()[3:] == u("c") and db.names() == ["init", "v1", "v2"], (db.log(), db.names()))
''')

dbseed("down-oldest-first", "P18",
       [(DBH, "applied_order > $2 ORDER BY applied_order DESC", "applied_order > $2 ORDER BY applied_order")],
       "going down over more than one version",
       "the older version is reverted first, while the newer one still depends on it",
       '''
with Project() as p:
    db = Db(p)
    history(p, ("v1", ["A"], ["a"]), ("v2", ["B"], ["b"]), ("v3", ["C"], ["c"]))
    p.podo("up", check=True)
    r = p.podo("down", "--version", "v1")
    expect(db.log()[3:] == u("c", "b") and db.names() == ["init", "v1"], (r, db.log(), db.names()))
''')

dbseed("up-previous-of-the-run", "P19",
       [(UP, "    for version_name in versions {\n        let v = fsh.get_version(&version_name)?;",
         "    for version_name in versions {\n        let mut v = fsh.get_version(&version_name)?;\n        v.previous = Some(from_version.clone());")],
       "more than one version applied by one up, then down without a version",
       "the versions of one run all name the same predecessor, so down goes back too far",
       '''
with Project() as p:
    db = Db(p)
    history(p, ("v1", ["A"], ["a"]), ("v2", ["B"], ["b"]))
    p.podo("up", check=True)
    p.podo("down", check=True)
    expect(db.names() == ["init", "v1"], db.names())
''')

dbseed("down-statements-as-written-last", "P18",
       [(DOWN, "        for stmt in &v.down {", "        for stmt in v.down.iter().rev() {")],
       "a version with several down statements",
       "they run in the wrong order",
       '''
with Project() as p:
    db = Db(p)
    history(p, ("v1", ["A1", "A2"], ["a2", "a1"]))
    p.podo("up", check=True)
    p.podo("down", check=True)
    expect(db.log()[2:] == u("a2", "a1"), db.log())
''')

dbseed("down-row-of-the-files", "P18",
       [(DBH, "        let up: Vec<String> = row.get(3);\n        let down: Vec<String> = row.get(4);",
         "        let up: Vec<String> = row.get(3);\n        let mut down: Vec<String> = row.get(4);\n        down.dedup();")],
       "a version whose down script runs the same statement twice in a row",
       "the second one is not run",
       '''
with Project() as p:
    db = Db(p)
    history(p, ("v1", ["A"], ["step", "step", "a"]))
    p.podo("up", check=True)
    p.podo("down", check=True)
    expect(db.log()[1:] == u("step", "step", "a"), db.log())
''')

# ---- the files
VER, FSH = "src/history/version.rs", "src/history/fsh.rs"

seed("make-needs-changes", "P14",
     [(VER, "self.changes.len() == 0 && self.up.len() == 0 && self.down.len() == 0", "self.changes.len() == 0")],
     "a stage that holds only statements written by hand, no recorded changes",
     "make says there is nothing to make",
     '''
with Project() as p:
    p.write("database/history/stage.yaml", "name: stage\\nprevious: init\\nchanges: []\\nup: [SELECT 1]\\ndown: [SELECT 2]\\n")
    p.make()
    expect(p.version("stage")["previous"] != "init", p.version("stage"))
''')

seed("reset-keeps-down", "P15",
     [(VER, "        self.changes = vec![];\n        self.up = vec![];\n        self.down = vec![];\n    }",
       "        self.changes = vec![];\n        self.up = vec![];\n    }")],
     "resetting a stage with changes, then staging again and going down",
     "the down statements of the discarded changes survive",
     '''
with Project() as p:
    p.stage("schema public:\\n  table t:\\n    column c: int4\\n")
    p.podo("reset", check=True)
    v = p.version("stage")
    expect(not v["changes"] and not v["up"] and not v["down"], v)
''')

seed("add-down-last", "P13",
     [(VER, "        let previous = self.down.clone();\n        self.down = vec![down.to_owned()];\n        self.down.extend(previous)",
       "        self.down.push(down.to_owned());")],
     "staging twice, so that the second change depends on the first, and going down",
     "the inverse statements are recorded oldest first",
     '''
with Project() as p:
    p.stage("schema public:\\n  table t:\\n    column c: int4\\n")
    v = p.stage("schema public:\\n  table t:\\n    column c: int4\\n  index i:\\n    on t: c\\n")
    expect(v["down"][0].startswith("DROP INDEX") and v["down"][1].startswith("DROP TABLE"), v)
''')

seed("branch-off-init", "P11",
     [(FSH, "                if let Some(existing) = history.next_map.get(&previous) {",
       "                if let Some(existing) = history.next_map.get(&previous).filter(|_| previous != INIT) {")],
     "two versions that both follow init",
     "the branched history is acted on",
     '''
with Project() as p:
    p.write("database/history/a.yaml", "name: a\\nprevious: init\\nchanges: []\\nup: []\\ndown: []\\n")
    r = p.podo("stage")
    expect(r.returncode != 0, r)
''')

seed("chain-ends-early", "P14",
     [("src/cmd/make.rs", "    let new_stage = Version::new_stage(&to_make.name);",
       "    let new_stage = Version::new_stage(to_make.name.trim_end_matches('-'));")],
     "a version name that ends with a hyphen",
     "the new stage follows a version that does not exist",
     '''
with Project() as p:
    p.stage("schema public:\\n  table t:\\n    column c: int4\\n")
    p.podo("make", "--version", "wip-", check=True)
    r = p.podo("stage")
    expect(r.returncode == 0 and not r.stderr, r)
''')

# ---- the project
PRJ, EXP = "src/project/mod.rs", "src/util/expand.rs"

seed("profile-prefix", "P20",
     [(PRJ, "            if profile.name == profile_name {", "            if profile.name.starts_with(profile_name) {")],
     "a profile name that is the beginning of another profile's name",
     "the other profile is acted on instead of being told that there is none",
     '''
with Project() as p:
    r = p.podo("stage", "--profile", "data")
    expect(r.returncode != 0 and "data" in r.stderr, r)
''')

seed("env-lower-case", "P21",
     [(EXP, r'Regex::new(r"\$(\w+|\{\w+\})")', r'Regex::new(r"\$([A-Z_][A-Z0-9_]*|\{\w+\})")')],
     "a variable whose name has lower-case letters, without braces",
     "it is left as it is",
     '''
with Project() as p:
    p.write(".podo.yaml", p.read(".podo.yaml").replace("database/history", "database/$hist"))
    r = p.podo("reset", env=dict(hist="history"))
    expect(r.returncode == 0 and not r.stderr, r)
''')

seed("env-name-in-value", "P21",
     [(EXP, '        env::var(var_name).unwrap_or_else(|_| "".to_string())\n    });\n    result.into_owned()',
       '        env::var(var_name).unwrap_or_else(|_| "".to_string())\n    });\n    if result != s {\n        return expand_envvar(&result);\n    }\n    result.into_owned()')],
     "a variable whose value contains a dollar sign, like a password",
     "part of the value is expanded again and lost",
     '''
with Project() as p:
    p.write(".podo.yaml", p.read(".podo.yaml").replace("database/history", "database/$D"))
    os.rename(p.path("database/history"), p.path("database/a$b"))
    r = p.podo("reset", env=dict(D="a$b"))
    expect(r.returncode == 0 and not r.stderr, r)
''')

seed("config-dir-up", "P20",
     [(PRJ, "            let project = load_project_from_file(current_dir, config_file)?;",
       "            let base = std::env::current_dir()?;\n            let base = if config_file.starts_with(&base) { current_dir } else { base };\n            let project = load_project_from_file(base, config_file)?;")],
     "running a command in a subdirectory of the project",
     "the configured directories are looked for below the subdirectory",
     '''
with Project() as p:
    os.makedirs(p.path("sub/dir"))
    r = p.podo("reset", cwd=p.path("sub/dir"))
    expect(r.returncode == 0 and not r.stderr, r)
''')

# ---- status
seed("status-one-of-two", "P24",
     [("src/cmd/status.rs", "    if changes_not_staged.len() > 0 {", "    if fsh_stage_version.changes.len() == 0 && changes_not_staged.len() > 0 {")],
     "changes staged and further changes not staged at the same time",
     "status does not show the ones not staged",
     '''
with Project() as p:
    p.stage("schema public:\\n  table t:\\n    column c: int4\\n")
    p.defs("schema public:\\n  table t:\\n    column c: int4\\n  table other:\\n    column c: int4\\n")
    p.write(".podo.yaml", p.read(".podo.yaml").replace("localhost:5432", "127.0.0.1:1"))
    r = p.podo("status")
    expect("other" in r.stdout, r)
''')

# ---- definitions
DM, DEFAULTS, IDX, FKD, SEQ = ("src/definition/mod.rs", "src/definition/defaults.rs", "src/definition/ddl/index.rs",
                               "src/definition/ddl/foreignkey.rs", "src/definition/ddl/sequence.rs")

seed("sub-directories-replace", "P10",
     [(DM, "            paths.append(&mut sub_paths);", "            sub_paths.append(&mut paths);\n            paths = sub_paths;\n            if paths.len() > 2 {\n                paths.dedup_by(|a, b| a.file_name() == b.file_name());\n            }")],
     "three definition files in subdirectories, two of them with the same file name next to each other",
     "one of the two is dropped",
     '''
with Project() as p:
    for i, d in enumerate(("a", "b", "c")):
        p.write("database/definitions/%s/x.yaml" % d, "schema public:\\n  table t%d:\\n    column c: int4\\n" % i)
    v = p.stage()
    expect(len(v["changes"]) == 3, v)
''')

seed("merge-functions-only-new", "P10",
     [("src/snapshot/types/schema.rs", "        for (_, v) in source.functions {\n            self.add_function(v)?;\n        }",
       "        if self.functions.is_empty() {\n            self.functions = source.functions;\n        }")],
     "functions of one schema spread over two files",
     "those of one file are silently ignored",
     '''
with Project() as p:
    F = "schema public:\\n  function %s:\\n    returns: int4\\n    as: SELECT 1\\n"
    p.write("database/definitions/f.yaml", F % "f()")
    p.write("database/definitions/g.yaml", F % "g()")
    v = p.stage()
    expect(len(v["changes"]) == 2, v)
''')

seed("index-ignores-unknown", "P08",
     [(IDX, "            _ => Err(Error::new_unexpected_node(cn)),", '            "where" | "type" | "as" => Ok(()),\n            _ => Err(Error::new_unexpected_node(cn)),')],
     "a key in an index that means nothing there",
     "it is ignored",
     '''
with Project() as p:
    p.defs("schema public:\\n  table t:\\n    column c: int4\\n  index i:\\n    on t: c\\n    type: gin\\n")
    r = p.podo("stage")
    expect(r.returncode != 0 and r.stderr, r)
''')

seed("reference-own-schema", "P09",
     [(FKD, "        2 => Ok((parts[0].to_owned(), parts[1].to_owned())),", "        2 => Ok((search_path.to_owned(), parts[1].to_owned())),")],
     "a foreign key to a table of another schema",
     "the schema written is ignored",
     '''
with Project() as p:
    p.stage("""schema other:
  table a:
    column x: int4!
    constraint pk:
      primary key: x
schema public:
  table b:
    column z: int4
    constraint fk:
      foreign key: z
      references other.a: x
""")
    s = " ".join(p.version("stage")["up"])
    expect('REFERENCES "other"."a"' in s, s)
''')

seed("sequence-start-of-descending", "P09",
     [(DEFAULTS, "    if increment >= 0 {\n        min_value\n    } else {", "    if increment >= -1 {\n        min_value\n    } else {")],
     "a sequence counting down by one without a start value",
     "it starts at its minimum",
     '''
with Project() as p:
    v = p.stage("schema public:\\n  sequence s:\\n    increment: -1\\n    minvalue: 1\\n    maxvalue: 9\\n")
    expect("START WITH 9" in v["up"][0] or "START 9" in v["up"][0], v)
''')

# ---- changes
seed("sequence-revert-start", "P02",
     [("src/snapshot/changes/sequence/drop_sequence_change.rs", "        Ok(CreateSequenceChange::new(sequence).into())",
       "        let mut change = CreateSequenceChange::new(sequence);\n        if change.cycle {\n            change.start = change.min_value;\n        }\n        Ok(change.into())")],
     "dropping a cycling sequence that starts above its minimum, then going back",
     "the restored sequence starts elsewhere",
     '''
with Project() as p:
    p.stage("schema public:\\n  sequence s:\\n    start: 5\\n    cycle: true\\n")
    p.make()
    v = p.stage("schema public: {}\\n")
    expect("START WITH 5" in " ".join(v["down"]), v)
''')

seed("index-key-order", "P04",
     [("src/util/sqlfmt.rs", '''    els.into_iter()
        .map(|s| s.as_ref().to_string())
        .collect::<Vec<_>>()
        .join(", ")''', '''    let mut parts: Vec<String> = Vec::new();
    for s in els {
        let s = s.as_ref().to_string();
        if !parts.contains(&s) {
            parts.push(s);
        }
    }
    parts.join(", ")''')],
     "an index with the same key twice",
     "the second one is left out",
     '''
with Project() as p:
    v = p.stage("schema public:\\n  table t:\\n    column c: int4\\n  index i:\\n    on t: [c, c]\\n")
    expect("(c, c)" in v["up"][-1], v)
''')

seed("function-body-trimmed", "P12",
     [("src/snapshot/changes/function/create_functon_change.rs", "            body: self.body.clone(),", "            body: self.body.trim_end().to_owned(),")],
     "a function whose body ends with a line break",
     "the recorded state never equals the definitions: every stage drops and creates the function again",
     '''
with Project() as p:
    D = "schema public:\\n  function f():\\n    returns: int4\\n    as: |\\n      SELECT 1\\n"
    p.stage(D)
    p.make()
    v = p.stage(D)
    expect(not v["changes"], v)
''')

seed("recorded-name-of-default", "P16",
     [("src/snapshot/changes/table/create_table_change.rs", "    pub not_null: bool,\n    pub default: Option<String>,\n}",
       "    pub not_null: bool,\n    #[serde(default, rename = \"default_value\")]\n    pub default: Option<String>,\n}")],
     "a history written before the change, with a table that has a column with a default",
     "the default is read as missing, so the next stage sets it again",
     '''
with Project() as p:
    p.write("database/history/v1.yaml", """name: v1
previous: init
changes:
- type: CreateTableChange
  change:
    schema: public
    table: t
    columns:
    - name: c
      data_type: int4
      not_null: false
      default: '7'
up: []
down: []
""")
    p.write("database/history/stage.yaml", "name: stage\\nprevious: v1\\nchanges: []\\nup: []\\ndown: []\\n")
    v = p.stage("schema public:\\n  table t:\\n    column c: int4 = 7\\n")
    expect(not v["changes"], v)
''')

seed("definitions-missing", "P23",
     [(DM, "    for entry in std::fs::read_dir(dir_path)? {", """    if !dir_path.exists() {
        return Ok(paths);
    }
    for entry in std::fs::read_dir(dir_path)? {""")],
     "a definitions directory that is not there, because it was moved or the configuration is wrong",
     "stage takes it for empty and stages dropping everything",
     '''
with Project() as p:
    p.stage("schema public:\\n  table t:\\n    column c: int4\\n")
    p.make()
    os.rename(p.path("database/definitions"), p.path("database/elsewhere"))
    r = p.podo("stage")
    expect(r.returncode != 0 and r.stderr and not p.version("stage")["changes"], r)
''')

# ---- clone
CLONE = '''
import catalog
b = catalog.Builder()
pub = b.ns("public")

'''

dbseed("clone-delete-rule", "P07",
       [("src/introspection/foreignkey.sql", "CASE con.confdeltype", "CASE con.confupdtype")],
       "a foreign key whose ON DELETE and ON UPDATE differ",
       "clone writes the update rule twice",
       CLONE + '''
t = pg_table(b, pub, "a", ["x"])
ix = pg_unique(b, pub, "pk", t, ["x"], [1], "p")
s = pg_table(b, pub, "b", ["y"])
b.constraint(pub, "fk", "f", s, conkey=[1], confkey=[1], confrelid=t, conindid=ix, confupdtype="c", confdeltype="n", confmatchtype="s")
with Project() as p:
    v = str(cloned(p, b)).lower()
    expect("cascade" in v and "set null" in v, v)
''')

dbseed("clone-domain-checks", "P07",
       [("src/introspection/check.sql", "    AND con.conrelid != 0\n", "")],
       "a domain with a CHECK in the database",
       "clone breaks off, because the constraint belongs to no table",
       CLONE + '''
t = pg_table(b, pub, "a", ["x"])
b.constraint(pub, "positive", "c", 0, contypid=b.type("dom"), conbin="(VALUE > 0)")
b.constraint(pub, "ck", "c", t, conbin="(x > 0)")
with Project() as p:
    v = cloned(p, b)
    expect("constraint ck" in v["table a"], v)
''')

dbseed("clone-sequence-start", "P07",
       [("src/introspection/mod.rs", "            start: iseq.start,", "            start: if iseq.cycle { iseq.min_value } else { iseq.start },")],
       "a cycling sequence that starts above its minimum",
       "clone writes another start",
       CLONE + '''
o = b.cls(pub, "s", "S")
b.t["pg_sequence"].append(dict(seqrelid=o, seqtypid=b.type("int8"), seqstart=5, seqincrement=1, seqmax=9, seqmin=1, seqcache=1, seqcycle=True))
with Project() as p:
    v = cloned(p, b)
    expect(v["sequence s"]["start"] == 5, v)
''')

dbseed("clone-unique-deferred", "P07",
       [("src/introspection/mod.rs", "            columns: iunique.table_columns,\n            deferrable: iunique.deferrable,\n            initially_deferred: iunique.initially_deferred,",
         "            columns: iunique.table_columns,\n            deferrable: iunique.deferrable,\n            initially_deferred: iunique.deferrable,")],
       "a unique constraint that is deferrable but checked immediately",
       "clone writes it as initially deferred",
       CLONE + '''
t = pg_table(b, pub, "a", ["x"])
pg_unique(b, pub, "uq", t, ["x"], [1], condeferrable=True, condeferred=False)
with Project() as p:
    v = str(cloned(p, b)["table a"]["constraint uq"]).lower()
    expect("deferrable" in v and "deferred" not in v.replace("deferrable", ""), v)
''')

# ---- commands
dbseed("down-version-pattern", "P18",
       [(DBH, '        "SELECT applied_order FROM {}.version WHERE name = $1",', '        "SELECT applied_order FROM {}.version WHERE name LIKE $1",')],
       "two versions of which one is named with an underscore where the other has a letter",
       "down to the first one fails",
       '''
with Project() as p:
    db = Db(p)
    history(p, ("v_1", ["A"], ["a"]), ("vx1", ["B"], ["b"]))
    p.podo("up")
    r = p.podo("down", "--version", "v_1")
    expect(db.names() == ["init", "v_1"], (r, db.names()))
''')

seed("drop-schema-keeps-functions", "P06",
     [(D, "    for si in s.iter_functions() {\n        changes.append(&mut diff_function_drop(si));\n    }\n\n    changes.push(DropSchemaChange::new(s));",
       "    changes.push(DropSchemaChange::new(s));")],
     "a schema with a function removed from the definitions",
     "DROP SCHEMA without its function being dropped first: the migration cannot be applied, and going back loses the function",
     '''
with Project() as p:
    p.stage("schema other:\\n  function f():\\n    returns: int4\\n    as: SELECT 1\\n", "other")
    p.make()
    v = p.stage("{}\\n", "other")
    expect("DROP FUNCTION" in " ".join(v["up"]), v)
''')

seed("status-of-current", "P24",
     [("src/cmd/status.rs", "    let fsh_stage_snapshot = calculate_snapshot(&fsh, STAGE)?;",
       "    let fsh_stage_snapshot = match fsh_stage_version.changes.len() {\n        0 | 1 => calculate_snapshot(&fsh, STAGE)?,\n        _ => calculate_snapshot(&fsh, fsh_stage_version.previous.as_deref().unwrap_or(STAGE))?,\n    };")],
     "two or more changes staged",
     "status lists the staged changes as not staged, too",
     '''
with Project() as p:
    p.stage("schema public:\\n  table t:\\n    column c: int4\\n  sequence s: {}\\n")
    r = p.podo("status")
    expect("Changes staged" in r.stdout and "not staged" not in r.stdout, r.stdout)
''')

seed("stage-again", "P13",
     [("src/cmd/stage.rs", "    let mut source_snapshot = calculate_snapshot(&fsh, STAGE)?;\n\n    let changes = compare_diff(&mut source_snapshot, &mut target_snapshot);\n    let mut stage = fsh.get_version(STAGE)?;",
       "    let mut stage = fsh.get_version(STAGE)?;\n    let base = match stage.up.first() {\n        None => stage.previous.clone().unwrap_or_default(),\n        Some(_) => STAGE.to_owned(),\n    };\n    let mut source_snapshot = calculate_snapshot(&fsh, &base)?;\n    if stage.down.len() > 1 {\n        stage.changes.clear();\n        stage.up.clear();\n        stage.down.clear();\n        source_snapshot = calculate_snapshot(&fsh, stage.previous.as_deref().unwrap_or_default())?;\n    }\n\n    let changes = compare_diff(&mut source_snapshot, &mut target_snapshot);")],
     "staging again over two or more changes staged before, some of them written by hand",
     "the staged changes are thrown away and computed anew",
     '''
with Project() as p:
    p.stage("schema public:\\n  table t:\\n    column c: int4\\n  sequence s: {}\\n")
    v = p.version("stage")
    v["up"].append("INSERT INTO t VALUES (1);")
    import yaml
    p.write("database/history/stage.yaml", yaml.safe_dump(v))
    w = p.stage("schema public:\\n  table t:\\n    column c: int4\\n  sequence s: {}\\n  sequence r: {}\\n")
    expect(len(w["up"]) == 4, w)
''')

seed("drop-index-revert", "P02",
     [("src/snapshot/changes/index/drop_index_change.rs", "            unique: index.unique,", "            unique: index.unique && index.key_expressions.len() < 2,")],
     "dropping a unique index over two columns, then going back",
     "the restored index is not unique",
     '''
with Project() as p:
    T = "schema public:\\n  table t:\\n    column a: int4\\n    column b: int4\\n"
    p.stage(T + "  index i:\\n    on t: [a, b]\\n    unique: true\\n")
    p.make()
    v = p.stage(T)
    expect("UNIQUE" in " ".join(v["down"]).upper(), v)
''')

seed("stage-default-directory", "P20",
     [("src/cmd/stage.rs", "    let definition_dir = project.resolve_definitions_dir(profile_name)?;",
       "    let definition_dir = project\n        .resolve_definitions_dir(profile_name)\n        .or_else(|_| project.resolve_definitions_dir(\"database\"))?;\n    let definition_dir = match definition_dir.is_dir() {\n        true => definition_dir,\n        false => project.resolve_definitions_dir(\"database\")?,\n    };")],
     "a second profile whose definitions directory does not exist yet",
     "stage --profile second stages the definitions of the default profile",
     '''
with Project() as p:
    p.defs("schema public:\\n  table t:\\n    column c: int4\\n")
    p.write(".podo.yaml", """profiles:
  database:
    database_url: postgresql://localhost/a
    history: database/history
    definitions: database/definitions
    metadata_schema: podo_meta
  second:
    database_url: postgresql://localhost/b
    history: second/history
    definitions: second/definitions
    metadata_schema: podo_meta
""")
    for n in ("init", "stage"):
        p.write("second/history/%s.yaml" % n, p.read("database/history/%s.yaml" % n))
    r = p.podo("stage", "--profile", "second")
    import yaml
    v = yaml.safe_load(p.read("second/history/stage.yaml"))
    expect(not v["changes"], v)
''')

# ---- found missing by planting
seed("unique-columns-set", "P01",
     [(D, """    if s.columns != t.columns {
        changes.push(DropUniqueChange::new(s));""", """    let names = |u: &Unique| -> std::collections::BTreeSet<String> { u.columns.iter().cloned().collect() };
    if names(s) != names(t) {
        changes.push(DropUniqueChange::new(s));""")],
     "a unique constraint whose columns only change places",
     "nothing is staged; the database keeps the key (and its index) in the old order",
     '''
def doc(cols):
    return """schema public:
  table a:
    column x: int4!
    column y: int4!
    constraint uq:
      unique: [%s]
""" % cols

with Project() as p:
    p.stage(doc("x, y"))
    p.make()
    v = p.stage(doc("y, x"))
    expect(v["changes"] and v["up"], v)
''')

seed("fk-match-on-revert", "P02",
     [("src/snapshot/changes/foreignkey/drop_foreign_key_change.rs", "            match_option: foreign_key.match_option.clone(),",
       "            match_option: crate::snapshot::defaults::get_foreign_key_match_option(),")],
     "dropping a foreign key with MATCH FULL, then going back",
     "the foreign key comes back with MATCH SIMPLE",
     '''
def doc(fk):
    return """schema public:
  table a:
    column x: int4!
    constraint pk:
      primary key: [x]
  table b:
    column z: int4
""" + ("""    constraint fk:
      foreign key: [z]
      references a: [x]
      match: FULL
""" if fk else "")

with Project() as p:
    p.stage(doc(True))
    p.make()
    v = p.stage(doc(False))
    expect("MATCH FULL" in " ".join(v["down"]).upper(), v)
''')

seed("init-directory-there", "P20",
     [("src/cmd/init.rs", "    std::fs::create_dir_all(&definition_dir)?;", "    std::fs::create_dir(&definition_dir)?;")],
     "init where the definitions directory is there already, as after a checkout",
     "init breaks off after writing the configuration: no history, and a second init does nothing",
     '''
with Project() as p:
    os.makedirs(p.path("new/database/definitions"))
    os.remove(p.path(".podo.yaml"))
    r = p.podo("init", cwd=p.path("new"))
    expect(r.returncode == 0 and not r.stderr.strip(), r)
    expect(os.path.exists(p.path("new/database/history/stage.yaml")), r)
''')
