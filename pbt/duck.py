"""Reference execution on the real engine (quacklab = DuckDB), one in-memory connection per data variant and process."""
from __future__ import annotations

import collections

from pbt import sqlgen

_CONNS: dict = {}


class ExecError(Exception):
    pass


def connect(variant: int):
    if variant not in _CONNS:
        import quacklab
        con = quacklab.connect(":memory:", config={"threads": 1})
        data = sqlgen.data_rows(variant)
        for name, cols in {**sqlgen.SCHEMA, **sqlgen.QUOTED}.items():
            con.execute(f"CREATE TABLE {sqlgen.q(name)} (" +
                        ", ".join(f"{sqlgen.q(c)} {sqlgen.DUCK_TYPES[t]}" for c, t in cols) + ")")
            if data[name]:
                con.executemany(f"INSERT INTO {sqlgen.q(name)} VALUES ({', '.join('?' for _ in cols)})",
                                [list(r) for r in data[name]])
        _CONNS[variant] = con
    return _CONNS[variant]


def run(sql: str, variant: int = 0):
    """Returns the list of rows or raises ExecError."""
    con = connect(variant)
    try:
        return con.execute(sql).fetchall()
    except Exception as e:  # noqa: BLE001
        raise ExecError(f"{type(e).__name__}: {e}") from None


def norm(v):
    if isinstance(v, float):
        if v != v:
            return "nan"
        return round(v, 9) if abs(v) < 1e9 else float(f"{v:.12g}")
    return v


def bag(rows):
    return collections.Counter(tuple(norm(v) for v in r) for r in rows)


def same(rows1, rows2, ordered: bool) -> bool:
    if ordered:
        return [tuple(norm(v) for v in r) for r in rows1] == [tuple(norm(v) for v in r) for r in rows2]
    return bag(rows1) == bag(rows2)
