"""Database stand-ins for optimizer components that only consult hinting capabilities and the schema."""
from __future__ import annotations

import zlib

from postbound import CardinalityEstimator, CostModel
from postbound._core import Cardinality, IntermediateOperator, JoinOperator, ScanOperator
from postbound.db import Database, DatabasePool  # noqa: F401

from pbt.pb import reset  # noqa: F401


class StubHinting:
    def __init__(self, ops):
        self.ops = set(ops)

    def supports_hint(self, hint):
        return hint in self.ops

    def describe(self):
        return {}


class StubDB:
    """supports the given operators (names), has the given schema"""

    def __init__(self, ops, schema):
        self._hinting = StubHinting({o for kind in (ScanOperator, JoinOperator, IntermediateOperator) for o in kind if o.name in ops})
        self._schema = schema
        self.name = self.system_name = "stub"

    def hinting(self):
        return self._hinting

    def schema(self):
        return self._schema

    def describe(self):
        return {"system_name": "stub"}

    def database_name(self):
        return "stub"

    def database_system_name(self):
        return "stub"


def hash01(*key) -> float:
    """A pseudo-random number in [0, 1) determined by the key."""
    return zlib.crc32(repr(key).encode()) / 2 ** 32


def key_of(tables):
    return tuple(sorted(t.identifier() for t in tables))


def base_tables(plan):
    return {n.base_table for n in plan.iternodes() if n.base_table}


class RandomCards(CardinalityEstimator):
    """An arbitrary but fixed cardinality per intermediate; records the calling protocol."""

    def __init__(self, seed, top=1000):
        super().__init__()
        self.seed, self.top, self.log = seed, top, []

    def card(self, names):
        return int(hash01(self.seed, "card", tuple(sorted(names))) * self.top)

    def calculate_estimate(self, query, intermediate):
        tabs = intermediate if isinstance(intermediate, (set, frozenset, list, tuple)) else [intermediate]
        self.log.append(("card", str(query), key_of(tabs)))
        return Cardinality(self.card(key_of(tabs)))

    def initialize(self, target_db, query):
        self.log.append(("init", str(query)))
        super().initialize(target_db, query)

    def cleanup(self):
        self.log.append(("cleanup",))
        super().cleanup()


class RandomCosts(CostModel):
    """local(operator, inputs) + cost of the children: an arbitrary monotone cost model."""

    def __init__(self, seed, cards, *, inf=0.0, scale=100.0, ints=False):
        super().__init__()
        self.seed, self.cards, self.inf, self.scale, self.ints, self.log = seed, cards, inf, scale, ints, []

    def local(self, op, outer, inner=(), extra=""):
        r = hash01(self.seed, "cost", op, tuple(outer), tuple(inner), extra)
        if r < self.inf:
            return float("inf")
        val = r * self.scale + self.cards.card(tuple(outer) + tuple(inner)) / 100
        return float(round(val / 10)) if self.ints else val

    def initialize(self, target_db, query):
        self.log.append(("init", str(query)))

    def cleanup(self):
        self.log.append(("cleanup",))

    def estimate_cost(self, query, plan):
        op = plan.operator.name
        if plan.is_scan():
            return self.local(op, [plan.base_table.identifier()], extra=plan.params.index or "")
        if plan.is_join():
            return (self.local(op, key_of(base_tables(plan.outer_child)), key_of(base_tables(plan.inner_child)))
                    + plan.outer_child.estimated_cost + plan.inner_child.estimated_cost)
        return self.local(op, key_of(base_tables(plan))) + plan.input_node.estimated_cost


from postbound.postgres import PostgresInterface  # noqa: E402


class StubStatistics:
    def __init__(self, pages):
        self.pages = pages

    def n_pages(self, relation):
        name = relation if isinstance(relation, str) else relation.full_name
        return self.pages.get(name, 1)


class StubPostgres(PostgresInterface):
    """A Postgres interface without a server: hinting capabilities, schema, page statistics and settings are given."""

    def __init__(self, ops, schema, pages=(), config=()):
        self._hinting_backend = StubHinting({o for kind in (ScanOperator, JoinOperator, IntermediateOperator) for o in kind if o.name in ops})
        self._db_schema, self._db_stats, self.config = schema, StubStatistics(dict(pages)), dict(config)

    def hinting(self):
        return self._hinting_backend

    def schema(self):
        return self._db_schema

    def statistics(self):
        return self._db_stats

    def describe(self):
        return {"system_name": "stub"}

    def __str__(self):
        return "stub"

    __repr__ = __str__

    def reset_connection(self):
        pass

    def close(self):
        pass

    def __del__(self):
        pass
