#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the entries below (only properties that have a module in pbt/props)."""
import json
import os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def prop(id, title, statement, over, text, tests, files, mechanism, technique, note, observe=()):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, tests=tests, files=files,
                  mechanism=mechanism, technique=technique, note=note, observe=list(observe)))


QAL, CORE, PARSER, FMT = "postbound/qal/_qal.py", "postbound/_core.py", "postbound/parser.py", "postbound/qal/_formatter.py"

prop("C01", "Parsing a query and printing it again never changes its meaning",
     "For every SQL query that the parser accepts, printing the parsed query (plainly or through the formatter, in every "
     "flavor) yields valid SQL with the same syntax tree and, when executed, the same result as the original text. "
     "A query feature that cannot be represented is rejected with an error instead of being dropped or altered, and hint "
     "comments, preceding SET statements and EXPLAIN options are kept.",
     ["inputs", "programs"], "all SQL queries within the supported subset, arbitrary nesting, literals and identifiers; all printing modes",
     "The tests only check that parsing a fixed set of benchmark queries does not raise; they never compare meaning.",
     [PARSER, QAL, FMT],
     [("SQL to query object translation", PARSER), ("rendering of expressions, predicates and clauses", QAL), ("query formatter", FMT)],
     "property-based testing: grammar-generated SQL, round trip against libpg_query's AST and execution on DuckDB",
     "Random exploration with shrinking. Trusts libpg_query (pglast) as the definition of the syntax tree and DuckDB as executor; "
     "queries are within the generator's grammar and fragment lists.",
     ["str(query)", "format_quick(query)"])

prop("C04", "Column references are bound to the relation that SQL scoping selects",
     "When a query is parsed against a database schema, every column reference is bound to exactly the relation that SQL's scoping "
     "rules select: aliases shadow table names, CTEs shadow base tables, inner scopes shadow outer ones, and correlated "
     "references reach the nearest enclosing query that provides the column.",
     ["inputs", "programs"], "all queries with nested subqueries, CTEs, aliases, derived tables and unqualified or correlated columns",
     "Tests cover a few hand-written binding situations; shadowing and nesting depth are unbounded.",
     [PARSER], [("namespaces of nested queries and column lookup", PARSER), ("column binding of clauses", PARSER)],
     "property-based testing: generated queries with shadowing, differential against the generator's scope model",
     "Random exploration. The generator picks the providing relation first and omits qualifiers only where SQL resolves them uniquely.",
     ["bound columns of the parsed query"])

# --- more properties are registered in registry_more.py


def write():
    have = [p for p in P if os.path.exists(f"{ROOT}/pbt/props/{p['id'].lower()}.py")]
    with open(f"{ROOT}/properties.jsonl", "w") as fh:
        for p in have:
            fh.write(json.dumps({
                "id": p["id"], "title": p["title"], "statement": p["statement"],
                "quantifier": {"over": p["over"], "text": p["text"]}, "why_tests_cant": p["tests"],
                "anchors": {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mechanism"]],
                            "observe_at": p["observe"]}}) + "\n")
    manifest = {
        "version": 1,
        "setup_cmd": "./check --selftest",
        "checks": [{"property": p["id"], "quick_cmd": f"./check {p['id']}", "thorough_cmd": f"./check {p['id']}",
                    "technique": p["technique"], "level": "exploration", "level_note": p["note"]} for p in have],
        "not_applicable": [],
        "notes": "Every check imports /repo/postbound from the working tree; PYTHONHASHSEED is fixed to 0 unless set. "
                 "VERIF_SEED seeds every generator, VERIF_TIER=thorough raises the case counts.",
    }
    with open(f"{ROOT}/MANIFEST.json", "w") as fh:
        json.dump(manifest, fh, indent=1)
        fh.write("\n")
    print(len(have), "properties:", " ".join(p["id"] for p in have))


if __name__ == "__main__":
    import sys
    sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
    sys.modules.setdefault("registry", sys.modules["__main__"])
    try:
        import registry_more  # noqa: F401
    except ImportError as e:
        if e.name != "registry_more":
            raise
    P.sort(key=lambda p: p["id"])
    write()
