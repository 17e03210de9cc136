"""Shared builders for join trees, operator assignments and query plans (specs are plain JSON)."""
from __future__ import annotations

import math

import postbound as pbound
from postbound import TableReference
from postbound._core import Cardinality, IntermediateOperator, JoinOperator, ScanOperator
from postbound._hints import JoinTree, LogicalJoinTree

TABLES = [("a", "", ""), ("b", "", ""), ("c", "x", ""), ("a", "a2", ""), ("d", "", "s1"), ("Weird T", "w", ""), ("b", "Sel f", ""), ("e", "y", "s2")]
SCANS = [o.name for o in ScanOperator]
JOINS = [o.name for o in JoinOperator]
INTERS = [o.name for o in IntermediateOperator]


def tab(i: int) -> TableReference:
    n, a, s = TABLES[i]
    return TableReference(n, a, schema=s)


def tabs(idx):
    return [tab(i) for i in idx]


def gen_shape(d, leaves, ann=lambda d: None, lin=None):
    """A random binary tree over the leaves: ["s", i, ann] or ["j", outer, inner, ann]."""
    leaves = list(leaves)
    if len(leaves) == 1:
        return ["s", leaves[0], ann(d)]
    lin = lin or d.choice(["any", "left", "right", "zigzag"])
    if lin == "any":
        k = d.int(1, len(leaves) - 1)
    elif lin == "left":
        k = len(leaves) - 1
    elif lin == "right":
        k = 1
    else:
        k = d.choice([1, len(leaves) - 1])
    return ["j", gen_shape(d, leaves[:k], ann, lin), gen_shape(d, leaves[k:], ann, lin), ann(d)]


def leaves(t):
    return [t[1]] if t[0] == "s" else leaves(t[1]) + leaves(t[2])


def nodes(t):
    """pre-order"""
    return [t] if t[0] == "s" else [t] + nodes(t[1]) + nodes(t[2])


def joins_post(t):
    return [] if t[0] == "s" else joins_post(t[1]) + joins_post(t[2]) + [t]


def depth(t):
    return 1 if t[0] == "s" else 1 + max(depth(t[1]), depth(t[2]))


def linear(t):
    return all(n[1][0] == "s" or n[2][0] == "s" for n in joins_post(t))


def num(x):
    return math.nan if x == "nan" else math.inf if x == "inf" else x


def card(x):
    return None if x is None else Cardinality(num(x))


def build_tree(t, logical=False):
    cls = LogicalJoinTree if logical else JoinTree
    ann = card(t[-1]) if logical else t[-1]
    if t[0] == "s":
        return cls.scan(tab(t[1]), annotation=ann)
    return cls.join(build_tree(t[1], logical), build_tree(t[2], logical), annotation=ann)


def strip(t):
    """Structure without annotations."""
    return ["s", t[1]] if t[0] == "s" else ["j", strip(t[1]), strip(t[2])]


def same_num(a, b):
    a, b = float(a), float(b)
    return a == b or (math.isnan(a) and math.isnan(b))
