"""C08: identifiers keep their spelling wherever they are shown, and references follow SQL's naming rules."""
from __future__ import annotations

import copy
import json
import pickle

import pglast
from pglast import ast, keywords

from pbt import pb
from pbt.draw import composite
from pbt.engine import Facet, fail, require
from postbound import util
from postbound._core import ColumnReference, TableReference, VirtualTableError, quote
from postbound.util import StateError

ASSUMPTIONS = ["identifiers are compared case-insensitively (documented design: normalize())"]

KEYWORDS = sorted({k.lower() for k in keywords.RESERVED_KEYWORDS | keywords.TYPE_FUNC_NAME_KEYWORDS | keywords.COL_NAME_KEYWORDS
                   | keywords.UNRESERVED_KEYWORDS} | {"at"})
PLAIN = ["a", "t", "title", "movie_id", "_x", "a1", "x$y", "t2_3"]
LETTERS = "abzAZ_09$ .\"',;()-*%é\tß中\n"


def gen_ident(d):
    k = d.weighted([(20, "plain"), (20, "kw"), (10, "mixed"), (8, "KW"), (30, "odd"), (5, "long")])
    if k == "plain":
        return d.choice(PLAIN)
    if k in ("kw", "KW"):
        w = d.choice(KEYWORDS)
        return w if k == "kw" else w.upper()
    if k == "mixed":
        return d.choice(["Title", "movieId", "A", "tABLE", "Select", "MC"])
    if k == "long":
        return d.choice(["a" * 60, "B" + "x" * 59])
    return "".join(d.choice(LETTERS) for _ in range(d.int(1, 6)))


@composite
def names_strategy(d):
    return {"names": [gen_ident(d) for _ in range(6)], "schema": d.flag(40), "alias": d.flag(60), "quote_all": d.flag(50)}


def q(ident):
    return '"' + ident.replace('"', '""') + '"'


def fields(node):
    return [f.sval if isinstance(f, ast.String) else "*" for f in node.fields]


def parse1(sql):
    try:
        (raw,) = pglast.parse_sql(sql)
    except Exception as e:
        fail(f"not valid SQL: {sql!r}: {e}")
    return raw.stmt


def ident_of(table):
    return table.alias or table.full_name


def check_names(spec):
    pb.reset()
    names = spec["names"]
    if names[0].lower() == names[5].lower():
        names = [*names[:5], names[5] + "_"]
    for n in names:
        st = parse1(f"SELECT {quote(n)} FROM t")
        require(fields(st.targetList[0].val) == [n] if isinstance(st.targetList[0].val, ast.ColumnRef) else False,
                "quote(%r) = %s denotes something else", n, quote(n))
        require(util_quote_idempotent(n), "quote(%r) is not stable", n)
    require(quote("") == "", "empty identifier")
    t, alias, schema, c, out, t2 = names
    table = TableReference(t, alias if spec["alias"] else "", schema=schema if spec["schema"] else "")
    st = parse1(f"SELECT {ColumnReference(c, table)}, {ColumnReference(c)} FROM {table}")
    rv = st.fromClause[0]
    require(isinstance(rv, ast.RangeVar) and rv.relname == t and (rv.alias.aliasname if rv.alias else "") == table.alias
            and (rv.schemaname or "") == table.schema and rv.catalogname is None, "str of %r: %s", table, table)
    require(fields(st.targetList[0].val) == [ident_of(table), c] and fields(st.targetList[1].val) == [c], "str of column %r of %r", c, table)
    require(table.identifier() == ident_of(table), "identifier of %r", table)
    rv = parse1(f"SELECT 1 FROM {table.qualified_name()}").fromClause[0]
    require(rv.relname == t and (rv.schemaname or "") == table.schema and rv.alias is None, "qualified name of %r: %s", table, table.qualified_name())
    virtual = TableReference.create_virtual(alias)
    require(parse1(f"SELECT 1 FROM (SELECT 1) AS {virtual}").fromClause[0].alias.aliasname == alias == virtual.identifier(), "virtual table %r", alias)
    # a whole query: text -> query -> text keeps every name
    src = f"{q(schema)}." if spec["schema"] else ""
    src += q(t) + (f" AS {q(alias)}" if spec["alias"] else "")
    ref = q(alias if spec["alias"] else t)
    sql = (f"WITH {q(t2)} AS (SELECT {ref}.{q(c)} AS {q(out)} FROM {src}) "
           f"SELECT {ref}.{q(c)} AS {q(out)}, count(*) FROM {src}, {q(t2)} AS {q('w_' + t2)} "
           f"WHERE {ref}.{q(c)} = {q('w_' + t2)}.{q(out)} AND {ref}.{q(c)} > 1 GROUP BY {ref}.{q(c)} ORDER BY {q(out)}")
    query = pb.parse(sql)
    from pbt import pgnorm
    diff = pgnorm.first_difference(pgnorm.normal_form(sql), pgnorm.normal_form(str(query)))
    require(not diff, "names of %s: str(parsed) = %s: %s", sql, query, diff)
    physical = {(x.full_name, x.alias, x.schema) for x in query.tables() if not x.virtual}
    require((t, table.alias, table.schema) in physical, "tables of %s: %s", sql, query.tables())
    require(c in {x.name for x in query.columns()}, "columns of %s: %s", sql, query.columns())
    again = pb.parse(str(query))
    require(again == query and hash(again) == hash(query), "parse(str(parse(%s))) differs: %s", sql, again)


def util_quote_idempotent(n):
    a = quote(n)
    return a == quote(n) and (a == n) == (a[0] != '"')


# -- references as values ---------------------------------------------------------------------------------------------------

NAMES = ["a", "b", "A", "movie", "Movie"]


@composite
def refs_strategy(d):
    def table():
        full = d.choice(NAMES)
        return {"full": full, "alias": d.choice(["", "a", "B", "b", "m"]), "schema": d.choice(["", "", "s", "S2", "s2"]),
                "virtual": d.flag(15)}

    def column():
        return {"name": d.choice(["id", "ID", "x", "y"]), "table": d.int(-1, 3)}
    return {"tables": [table() for _ in range(4)], "cols": [column() for _ in range(5)], "new": d.choice(["n", "N2"])}


def build(t):
    if t["virtual"]:
        return TableReference.create_virtual(t["alias"] or t["full"], full_name=t["full"] if t["alias"] else "",
                                             schema=t["schema"] if t["alias"] else "")
    return TableReference(t["full"], t["alias"], schema=t["schema"])


def tkey(t):
    return (t.full_name.lower(), t.alias.lower(), t.schema.lower())


def same_exactly(a, b):
    return type(a) is type(b) and (a.full_name, a.alias, a.schema, a.virtual) == (b.full_name, b.alias, b.schema, b.virtual)


def check_refs(spec):
    tables = [build(t) for t in spec["tables"]]
    cols = [ColumnReference(c["name"], None if c["table"] < 0 else tables[c["table"]]) for c in spec["cols"]]
    for a in tables:
        for b in tables:
            require((a == b) == (tkey(a) == tkey(b)) and (a != b) == (tkey(a) != tkey(b)), "equality of %r and %r", a, b)
            require(a != b or hash(a) == hash(b), "hash of %r and %r", a, b)
            require(not (a < b and b < a) and (not (a < b) or a.identifier().lower() < b.identifier().lower()), "order of %r and %r", a, b)
        for other in (pickle.loads(pickle.dumps(a)), copy.copy(a), copy.deepcopy(a)):
            require(same_exactly(a, other) and hash(a) == hash(other) and str(a) == str(other), "copy of %r: %r", a, other)
        virt = a.make_virtual()
        require(virt.virtual and (virt.full_name, virt.alias, virt.schema) == (a.full_name, a.alias, a.schema), "make_virtual of %r: %r", a, virt)
        new = spec["new"]
        if a.full_name:
            w = a.with_alias(new)
            require((w.full_name, w.alias, w.schema, w.virtual) == (a.full_name, new, a.schema, a.virtual), "with_alias of %r: %r", a, w)
        else:
            raises(StateError, lambda: a.with_alias(new), f"with_alias of {a!r}")
        if a.virtual:
            raises(StateError, a.drop_alias, f"drop_alias of {a!r}")
            raises(VirtualTableError, a.qualified_name, f"qualified_name of {a!r}")
        else:
            p = a.drop_alias()
            require((p.full_name, p.alias, p.schema, p.virtual) == (a.full_name, "", a.schema, False), "drop_alias of %r: %r", a, p)
        require(same_exactly(a.update(), a), "update() of %r: %r", a, a.update())
        for change in ({"full_name": new}, {"alias": new}, {"virtual": not a.virtual}, *([{"schema": new}, {"schema": ""}] if a.full_name else []), *([{"alias": ""}] if a.full_name and not a.virtual else [])):
            u = a.update(**change)
            want = {"full_name": a.full_name, "alias": a.alias, "virtual": a.virtual, "schema": a.schema, **change}
            require((u.full_name, u.alias, u.virtual, u.schema) == tuple(want.values()), "update(%s) of %r: %r", change, a, u)
    require(sorted(tables, key=lambda x: x.identifier().lower()) == sorted(tables), "sorted tables %s", tables)
    raises(ValueError, lambda: TableReference("", ""), "table without name")
    raises(ValueError, lambda: TableReference("", "x", schema="s"), "schema without table")
    raises(ValueError, lambda: ColumnReference(""), "column without name")
    for a in cols:
        bound = a.table is not None
        require(a.is_bound() == bound == ColumnReference.assert_bound(a) and isinstance(a, ColumnReference), "is_bound of %r", a)
        for b in cols:
            same = a.name.lower() == b.name.lower() and a.table == b.table
            require((a == b) == same and (a != b) == (not same), "equality of %r and %r", a, b)
            require(a != b or hash(a) == hash(b), "hash of %r and %r", a, b)
            require(not (a < b and b < a), "order of %r and %r", a, b)
        for other in (pickle.loads(pickle.dumps(a)), copy.copy(a), copy.deepcopy(a)):
            require(other == a and type(other) is type(a) and hash(other) == hash(a) and str(other) == str(a), "copy of %r: %r", a, other)
        for t in tables:
            m = a.bind_to(t)
            require(m.name == a.name and m.table is t and m.is_bound() and m.belongs_to(t) and a.belongs_to(t) == (a.table == t), "bind_to %r", a)
        u = a.as_unbound()
        require(u.name == a.name and u.table is None and not u.is_bound(), "as_unbound of %r: %r", a, u)
        if bound and not a.table.virtual:
            n = a.drop_table_alias()
            require(n.name == a.name and n.table == a.table.drop_alias(), "drop_table_alias of %r: %r", a, n)
        elif not bound:
            require(a.drop_table_alias() == a, "drop_table_alias of %r", a)
    made = ColumnReference.create("x", table="tab")
    require(made.is_bound() and made.table == TableReference("tab") and made.name == "x", "ColumnReference.create")
    unbound_first = sorted(cols)
    flags = [c.is_bound() for c in unbound_first]
    require(flags == sorted(flags), "unbound columns sort first: %s", unbound_first)
    json.loads(util.to_json(cols))


def raises(exc, fn, what):
    try:
        r = fn()
    except exc:
        return
    fail(f"{what} does not raise {exc.__name__}: {r!r}")


@composite
def keyword_strategy(d):
    return {"case": d.choice(["lower", "lower", "lower", "upper", "title"]), "part": d.int(0, 1)}


def check_keywords(spec):
    """every key word as name of a table, alias and column"""
    pb.reset()
    for k in KEYWORDS[spec["part"]::2]:
        k = getattr(k, spec["case"])()
        sql = f"SELECT {quote(k)}.{quote(k)} AS {quote(k)} FROM {TableReference(k, k, schema=k)}"
        st = parse1(sql)
        rv, target = st.fromClause[0], st.targetList[0]
        require((rv.relname, rv.schemaname, rv.alias.aliasname, target.name, fields(target.val)) == (k, k, k, k, [k, k]), "%s denotes something else", sql)
        q = pb.parse(sql)
        require({(t.full_name, t.alias, t.schema) for t in q.tables()} == {(k, k, k)}, "tables of %s: %s", sql, q.tables())


FACETS = [
    Facet("keywords", keyword_strategy, check_keywords, quick=24, thorough=60, rule="half of all key words per case, in lower, upper or title case; every case is non-trivial"),
    Facet("names", names_strategy, check_names, quick=2500, thorough=60000, shards=5,
          rule="all SQL key words, mixed case, quotes, punctuation, blanks, non-ASCII letters as table, alias, schema, column, CTE and output names; "
               "the rendered reference and a whole query are read by libpg_query and must denote exactly these names; non-trivial: some name needs quotes",
          nontrivial=lambda s: any(not n.isascii() or not n.isidentifier() or n != n.lower() or n in KEYWORDS for n in s["names"])),
    Facet("references", refs_strategy, check_refs, quick=1500, thorough=30000, shards=2,
          rule="4 tables x 5 columns over few names (differing in case, alias, schema, virtual); equality, hash, order, copies, pickling, update operations; "
               "non-trivial: two tables are equal or differ only in one part",
          nontrivial=lambda s: len({(t["full"].lower(), t["alias"].lower()) for t in s["tables"]}) < 4),
]
