"""Access to the code under test; keeps global parser / pool state fixed for every case."""
from __future__ import annotations

import warnings

warnings.filterwarnings("ignore")

import postbound as pbound  # noqa: E402
from postbound import parser as pb_parser  # noqa: E402
from postbound import qal, transform, util  # noqa: E402,F401


def reset():
    """Fresh global state for a case: no pooled databases, no schema cache."""
    from postbound.db import DatabasePool
    DatabasePool.get_instance().clear()


def parse(sql: str, schema=None, **kw):
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        if schema is None:
            kw.setdefault("bind_columns", False)
        return pb_parser.parse_query(sql, accept_set_query=True, db_schema=schema, **kw)


def fake_schema(tables: dict):
    """A DatabaseSchema over a plain dict {table: [column, ...]} (the documented extension point for parsing)."""
    from postbound import BoundColumnReference, TableReference
    from postbound.db import DatabaseSchema

    class _Schema(DatabaseSchema):
        def __init__(self):
            super().__init__(None)
            self.spec = {t: list(cs) for t, cs in tables.items()}

        def tables(self, **kw):
            return {TableReference(t) for t in self.spec}

        def columns(self, table):
            table = table if isinstance(table, TableReference) else TableReference(table)
            return [BoundColumnReference(c, table) for c in self.spec.get(table.full_name, [])]

        def lookup_column(self, column, candidate_tables, *, expect_match=False):
            name = column if isinstance(column, str) else column.name
            for t in candidate_tables:
                if name in self.spec.get(t.full_name, []):
                    return t
            if expect_match:
                raise ValueError(name)
            return None

        def is_primary_key(self, column):
            return False

        def has_index(self, column):
            return False

        def indexes_on(self, column):
            return set()

        def datatype(self, column):
            return "integer"

        def is_nullable(self, column):
            return True

        def __len__(self):
            return len(self.spec)

        def __iter__(self):
            return iter(self.tables())

    try:
        return _Schema()
    except TypeError:
        ns = {m: (lambda self, *a, **k: None) for m in _Schema.__abstractmethods__}
        cls = type("_Schema2", (_Schema,), ns)
        return cls()


_GEN_SCHEMA = None


def gen_schema():
    """The schema that sqlgen queries are written against."""
    global _GEN_SCHEMA
    if _GEN_SCHEMA is None:
        from pbt import sqlgen
        _GEN_SCHEMA = fake_schema({t: [c for c, _ in cols] for t, cols in {**sqlgen.SCHEMA, **sqlgen.QUOTED}.items()})
    return _GEN_SCHEMA
