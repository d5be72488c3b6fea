#!/usr/bin/env python3
"""Writes /verif/properties.jsonl and /verif/MANIFEST.json from one description."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SNAP = ["src/snapshot/diff.rs", "src/snapshot/changes/mod.rs", "src/snapshot/types/database.rs", "src/snapshot/types/schema.rs",
        "src/snapshot/types/relation.rs", "src/snapshot/types/table.rs", "src/snapshot/types/constraint.rs"]
CHG = ["src/snapshot/changes"]
DEF = ["src/definition/mod.rs", "src/definition/base/yaml.rs", "src/definition/base/node.rs", "src/definition/ddl", "src/definition/defaults.rs"]
INT = ["src/introspection", "src/cmd/clone.rs"]
HIST = ["src/history/fsh.rs", "src/history/version.rs", "src/history/snapshot.rs"]
DBH = ["src/history/dbh.rs", "src/cmd/up.rs", "src/cmd/down.rs"]


def p(id, title, statement, over, text, why, files, mech, level_note, built=True, reason=None, observe=()):
    return dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech,
                note=level_note, built=built, reason=reason, observe=list(observe))


PROPS = [
    p("P01", "Applying the computed changes turns the source snapshot into the target",
      "For any two well-formed database descriptions, applying the list of changes computed between them, in the order given, to the "
      "first succeeds and yields exactly the second (the order of a table's columns aside).",
      ["inputs", "schedules"], "every pair of database descriptions of schemas, tables, columns, constraints, views, indexes, sequences "
      "and functions, and every iteration order of the hash maps holding them",
      "The tests diff one hand-written pair per object kind; they neither combine kinds nor vary attributes or map order.",
      SNAP + CHG, [("change computation", "src/snapshot/diff.rs"), ("change application", "src/snapshot/changes/*/*.rs")],
      "bounded: one to three objects per scenario"),
    p("P02", "Every change has an inverse that restores the state before it",
      "For every change in a computed list, the inverse obtained from the state it is about to be applied to exists, and applying the "
      "inverses in reverse order after the whole list has been applied restores the original database description exactly (the order of "
      "a table's columns aside).",
      ["inputs", "histories", "schedules"], "every pair of database descriptions, every change computed for them, every hash map order",
      "Tests check single changes on one literal value; a lost attribute on the way back shows only for other values or sequences.",
      SNAP + CHG, [("inverse of a change", "src/snapshot/changes/*/*.rs")], "bounded: one to three objects per scenario"),
    p("P03", "Changes are computed exactly for what differs",
      "No change is computed for two equal database descriptions, at least one is computed for two that differ in any attribute, and "
      "each computed change concerns an object that differs between the two.",
      ["inputs"], "every pair of database descriptions, equal or not, attribute by attribute",
      "Tests cover a few attributes of each kind; an attribute left out of a comparison, or compared with itself, passes them.",
      SNAP, [("attribute comparison", "src/snapshot/diff.rs")], "bounded: one to three objects per scenario"),
    p("P04", "The SQL of a change does on a PostgreSQL server what the change does",
      "The statement rendered for any computed change or for its inverse is a single valid PostgreSQL statement that, run on a server in "
      "the state before the change, leaves it in the state after the change: the same objects with the same attributes, for any names.",
      ["inputs"], "every change computed for any pair of database descriptions, and every inverse of one; names are arbitrary text",
      "Tests compare a handful of rendered strings; they run no SQL and use plain lower-case names and default attributes.",
      CHG + ["src/util/sqlfmt.rs"], [("SQL rendering", "src/snapshot/changes/*/*.rs"), ("quoting", "src/util/sqlfmt.rs")],
      "bounded: one to three objects per scenario; PostgreSQL is a reader and interpreter of the DDL subset (sx/pg.py)"),
    p("P06", "The generated scripts run on the server in the order given",
      "Running the statements of a computed change list in order on a server that holds the source, with PostgreSQL's dependency rules "
      "(an object must exist before it is used and cannot be dropped while others depend on it), succeeds and leaves the target; running "
      "the inverse statements in reverse order then succeeds and leaves the source.",
      ["inputs", "schedules"], "every pair of database descriptions whose objects depend on each other, every hash map order",
      "Order is decided by hash map iteration and a sort; tests never execute a script, and one run sees one order.",
      SNAP + CHG, [("ordering of changes", "src/snapshot/diff.rs"), ("SQL rendering", "src/snapshot/changes/*/*.rs")],
      "bounded: one to three objects per scenario; PostgreSQL is a reader and interpreter of the DDL subset (sx/pg.py); one known finding"),
    p("P07", "What clone writes is the database it found",
      "clone writes a definitions file for the public schema from PostgreSQL's catalogs and changes nothing else; running the statements that "
      "stage then makes of it on a server without those objects creates exactly what the database holds: columns in order with types, defaults "
      "and not null, keys with their columns in order, foreign keys with their pairs of columns, rules and deferrability, checks, indexes with "
      "keys, sort order, method and uniqueness, sequences with all their numbers and owner, views, functions with arguments.",
      ["inputs"], "every database of up to two tables, or the like, of objects that definitions can express, under any names, with rows of the "
      "catalog in any order, next to objects of other schemas, dropped columns and kinds of objects that definitions do not have",
      "The tests of clone's queries need a running PostgreSQL, look at one fixed object each and compare the rows, never what the "
      "definitions then mean.",
      INT + DEF + SNAP + CHG, [("introspection", "src/introspection"), ("clone", "src/cmd/clone.rs"), ("writing definitions", "src/definition")],
      "bounded: one to three objects per database; the queries run on an interpreter of SELECT over the catalogs (sx/catalog.py)"),
    p("P08", "Definitions that mean nothing are refused",
      "When a definitions file is no mapping of definitions, or holds a keyword that has no meaning where it stands, a key that is no "
      "keyword, a value of the wrong kind, an unnamed object, or an object lacking something it needs, stage fails with a message and "
      "changes no file; it never ignores the part or panics. status does so too.",
      ["inputs"], "every definition of every kind with any one entry out of place",
      "Tests parse well-formed documents only.", DEF, [("reading definitions", "src/definition")],
      "bounded: one defect per document"),
    p("P09", "What is defined is what the server gets",
      "Starting from an empty history, running the statements of the change that stage writes for a definitions file on a server creates "
      "exactly the objects defined there, with exactly the attributes written and documented defaults for those left out.",
      ["inputs"], "every definition of every kind of object: columns, keys, checks, foreign keys, views, indexes, sequences, functions, "
      "in every form the format allows, with any names and texts",
      "Tests parse one or two documents per kind and compare intermediate structures; none follows a definition to the server.",
      DEF + SNAP + CHG, [("reading definitions", "src/definition"), ("stage", "src/cmd/stage.rs")],
      "bounded: one to three objects per document; PostgreSQL is a reader and interpreter of the DDL subset (sx/pg.py)"),
    p("P10", "How definitions are spread over files does not matter",
      "Definitions spread over several files and directories mean the same as in one file, whatever order the directory is listed in "
      "and whatever else lies in it; the same object defined twice is refused.",
      ["inputs", "schedules"], "every distribution of the definitions over files, every listing order",
      "No test reads a definitions directory.", ["src/definition/mod.rs", "src/cmd/stage.rs"],
      [("loading definitions", "src/definition/mod.rs")], "bounded: up to three files; files modelled"),
    p("P11", "Only a history that is one chain from init is acted on",
      "A command that reads the history follows the versions along their predecessors from init, whatever order the directory lists "
      "them in and whatever else lies in it; when two versions share a predecessor, the target does not descend from init or the "
      "predecessors form a cycle, the command ends with a failure and leaves files and database as they were.",
      ["inputs", "histories", "schedules"], "every assignment of predecessors to the version files, every name, every listing order",
      "No test reads a history at all; chains other than the one init and make produce arise from merges.",
      HIST, [("ordering of versions", "src/history/fsh.rs")], "bounded: up to two versions and the stage; files modelled"),
    p("P12", "Staging again changes nothing",
      "When stage has been run and the definitions are left alone, running it again (also after make) adds no change and leaves every "
      "file as it is.",
      ["inputs", "histories", "schedules"], "every definition of every kind, and every hash map order",
      "No test runs stage; a change that does not read back as it was written reappears on every run.",
      DEF + SNAP + HIST, [("stage", "src/cmd/stage.rs"), ("snapshot of the history", "src/history/snapshot.rs")],
      "bounded: one to three objects per document"),
    p("P13", "A staged change leads from the old definitions to the new ones and back",
      "After the definitions are edited, stage adds to what is staged the changes for what was edited and only these; running the up "
      "statements of the stage on a server that holds the old definitions leaves the new ones, and running its down statements in the "
      "recorded order leads back.",
      ["inputs", "histories", "schedules"], "every pair of definitions, every kind of object", "No test runs stage.",
      DEF + SNAP + CHG + HIST, [("stage", "src/cmd/stage.rs"), ("ordering of down statements", "src/cmd/stage.rs")],
      "bounded: one to three objects per document; PostgreSQL modelled (sx/pg.py); one known finding"),
    p("P14", "Making a version moves the stage into a new version and loses nothing",
      "After make, there is exactly one new version file, holding the stage's changes, up and down statements and predecessor, its name "
      "ending in the --version given; the stage is empty and based on it; every other version file is as it was. With an empty stage, "
      "or if the name is taken, nothing changes.",
      ["inputs", "histories"], "every stage, history and version name, and every instant",
      "No test runs make.", ["src/cmd/make.rs"] + HIST, [("make", "src/cmd/make.rs")], "bounded: up to two versions, two staged changes"),
    p("P15", "Resetting empties the stage and touches nothing else",
      "After reset, the stage has no changes and no statements and is based on the version it was based on before; every other file "
      "and the database are as they were.",
      ["inputs", "histories"], "every stage and history", "No test runs reset.",
      ["src/cmd/reset.rs"] + HIST, [("reset", "src/cmd/reset.rs")], "bounded: up to two versions, two staged changes"),
    p("P16", "Recorded changes keep their meaning",
      "A version file whose changes have the recorded form of any kind of change (type and fields) is understood: when the definitions "
      "describe what these changes lead to, stage adds nothing. stage records what makes an object in that form. A recorded change that "
      "cannot have happened (its target is missing, its type or a field is unknown) makes stage and status fail, changing nothing.",
      ["inputs", "histories"], "every kind of change with any values, in one version or spread over two",
      "No test reads a version file; histories made by earlier releases are only as good as the reader of today.",
      ["src/snapshot/changes", "src/history/fsh.rs", "src/history/snapshot.rs", "src/cmd/stage.rs"],
      [("reading changes", "src/snapshot/changes/mod.rs"), ("applying changes", "src/snapshot/changes/*/*.rs")],
      "bounded: one to five changes per history"),
    p("P17", "up applies exactly the versions between the database's and the target's, atomically",
      "up runs the up statements of the versions after the database's current one through the target (by default the last before the "
      "stage), in order, each once, and records exactly these versions with all their fields, in one transaction: when a statement "
      "fails, or the target is unknown or not after the current version, the command fails and the database and files are unchanged; "
      "when there is nothing to apply, it succeeds and changes nothing.",
      ["inputs", "histories", "faults"], "every history, state of the database, target, and position of a failing statement",
      "No test connects to a database; each failing position and each starting state is a different history.",
      DBH, [("applying versions", "src/cmd/up.rs"), ("bookkeeping", "src/history/dbh.rs")],
      "bounded: up to three versions of two statements; database modelled (sx/minipg.py)"),
    p("P18", "down reverts exactly the versions after the target, newest first, atomically",
      "down runs the down statements recorded in the database for the versions applied after the target (by default the predecessor of "
      "the current one), newest first, each once, and removes exactly these records, in one transaction: when a statement fails, or the "
      "target was never applied, the command fails and the database and files are unchanged.",
      ["inputs", "histories", "faults"], "every recorded history, target, and position of a failing statement; files agreeing or not",
      "No test connects to a database.",
      DBH, [("reverting versions", "src/cmd/down.rs"), ("bookkeeping", "src/history/dbh.rs")],
      "bounded: up to three versions of two statements; database modelled (sx/minipg.py)"),
    p("P19", "up, down and up again return the database to the same version",
      "Going up from any version to any later one, down again and up again runs exactly the recorded statements of the versions passed, "
      "each time, and leaves the same records as having gone up once.",
      ["inputs", "histories"], "every history and pair of versions", "No test connects to a database.",
      DBH, [("applying versions", "src/cmd/up.rs"), ("reverting versions", "src/cmd/down.rs")],
      "bounded: up to three versions; database modelled (sx/minipg.py)"),
    p("P20", "Commands act on the project they are run in and on the profile they are given",
      "A command uses the nearest .podo.yaml in the current directory or above it, resolves the history and definitions directories "
      "against the directory of that file (unless absolute), and uses the database and directories of the profile given by --profile, "
      "or of the default one; no other directory or database is touched. init never overwrites an "
      "existing project and makes one that the other commands accept.",
      ["inputs"], "every directory depth, configuration, profile and path", "No test runs a command in a directory tree.",
      ["src/project/mod.rs", "src/cmd", "src/main.rs"], [("finding the project", "src/project/mod.rs"), ("init", "src/cmd/init.rs")],
      "bounded: up to three directory levels, two profiles; files and environment modelled"),
    p("P21", "Environment variables in the configuration are expanded",
      "Every $NAME and ${NAME} in a profile's directories and database URL stands for the value of that environment variable, taken "
      "once and as it is (nothing when it is not set); NAME is as long as possible; all other text stays as it is.",
      ["inputs"], "every text, variable name and value", "Tests expand six literals; any other text, in particular unfinished or "
      "adjacent references and values with a $ in them, is not covered.",
      ["src/util/expand.rs", "src/project/mod.rs"], [("expansion", "src/util/expand.rs")],
      "bounded: up to 5 (thorough: 7) symbolic ASCII characters"),
    p("P23", "A command that cannot do its work says so, fails and changes nothing",
      "Whatever is wrong with what a command needs (configuration, history, definitions, database, arguments), it ends with a message "
      "on standard error and a non-zero exit code, never with a panic or with success, and files and database are as they were.",
      ["inputs", "faults"], "every command and every kind of broken input", "No test runs a command on broken input.",
      ["src/main.rs", "src/cmd", "src/project/mod.rs", "src/history"], [("commands", "src/cmd")],
      "bounded: one defect at a time; two known findings"),
    p("P24", "status tells what is staged and what stage would add, and changes nothing",
      "status succeeds without changing anything, shows the version the database is at (when it can be reached), the staged changes and "
      "the statements of the differences that are not staged yet, which are those stage then writes; after stage it shows "
      "none; it says there are no changes exactly when there are none.",
      ["inputs", "histories"], "every history, stage, definitions and state of the database", "No test runs status.",
      ["src/cmd/status.rs", "src/cmd/stage.rs"], [("status", "src/cmd/status.rs")],
      "bounded: two versions, up to two changes"),
]


def main():
    with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
        for x in PROPS:
            f.write(json.dumps(dict(
                id=x["id"], title=x["title"], statement=x["statement"],
                quantifier=dict(over=x["over"], text=x["text"]), why_tests_cant=x["why"],
                anchors=dict(files=x["files"], mechanism=[dict(name=a, where=b) for a, b in x["mech"]],
                             observe_at=x["observe"], hook_needed=None))) + "\n")
    checks, na = [], []
    for x in PROPS:
        if x["built"]:
            checks.append(dict(
                property=x["id"], quick_cmd="python3-vt check.py %s --tier quick" % x["id"],
                thorough_cmd="python3-vt check.py %s --tier thorough" % x["id"],
                technique="symbolic execution of the compiler's MIR of the real code with SMT (z3): every path within the bounds, "
                          "the property decided per path for all values, counterexamples replayed natively",
                level="other", level_note=x["note"]))
        else:
            na.append(dict(property=x["id"], reason=x["reason"]))
    m = dict(version=1, setup_cmd="python3-vt check.py --setup", checks=checks, not_applicable=na,
             notes="See DESIGN.md. Known and fixed findings: known_findings.txt.")
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")


if __name__ == "__main__":
    main()
