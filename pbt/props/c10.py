"""C10: cardinalities behave like the (rounded, possibly unknown or infinite) numbers they wrap."""
from __future__ import annotations

import copy
import json
import math
import operator
import pickle
from fractions import Fraction

from pbt.draw import composite
from pbt.engine import Facet, fail, require
from postbound._core import Cardinality
from postbound.util import StateError, jsonize

ASSUMPTIONS = ["values are non-negative; arithmetic on values above 2**53 may have float precision"]

SPECIAL = ["nan", "inf"]
FLOATY = [0.0, 0.4, 0.5, 0.6, 1.5, 2.5, 1e6 + 0.5, 1e18, 0.001, 3.75]
OPS = {"+": operator.add, "-": operator.sub, "*": operator.mul, "/": operator.truediv, "**": operator.pow,
       "//": operator.floordiv, "%": operator.mod}
CMPS = {"<": operator.lt, "<=": operator.le, ">": operator.gt, ">=": operator.ge, "==": operator.eq, "!=": operator.ne}


def gen_num(d, small=False):
    k = d.weighted([(30, "small"), (15, "mid"), (0 if small else 8, "big"), (15, "float"), (8, "any"), (8, "nan"), (10, "inf")])
    if k == "small":
        return d.int(0, 12)
    if k == "mid":
        return d.int(0, 2 ** 31)
    if k == "big":
        return d.int(2 ** 52, 2 ** 63)
    if k == "float":
        return d.choice(FLOATY)
    if k == "any":
        return d.int(0, 10 ** 7) / 64
    return k


@composite
def spec_strategy(d):
    same = d.flag(15)
    a = gen_num(d)
    b = a if same else gen_num(d)
    return {"a": a, "b": b, "exp": d.int(0, 3), "form": d.choice(["cc", "cn", "nc"]), "more": [gen_num(d) for _ in range(d.int(0, 6))]}


def num(x):
    return float(x) if isinstance(x, str) else x


def rounded(x):
    """The number a Cardinality over x stands for."""
    x = num(x)
    return x if isinstance(x, float) and not math.isfinite(x) else round(x)


def is_nan(x):
    return isinstance(x, float) and math.isnan(x)


def matches(got, want) -> bool:
    """got: Cardinality, want: an exact Fraction/int or nan/inf."""
    if not isinstance(got, Cardinality):
        if not isinstance(got, (int, float)):
            return False
        got = Cardinality(got)
    if is_nan(want):
        return got.isnan() and not got.isinf() and not got.is_valid()
    if isinstance(want, float) and math.isinf(want):
        return got.isinf() and not got.isnan() and not got.is_valid()
    if not got.is_valid():
        return abs(want) > Fraction(10) ** 300
    slack = Fraction(1, 2) + abs(Fraction(want)) / 2 ** 49
    return abs(Fraction(got.value) - Fraction(want)) <= slack


def expected(op, x, y):
    """x op y on extended non-negative numbers; None if not judged."""
    special = [v for v in (x, y) if isinstance(v, float) and not math.isfinite(v)]
    if not special:
        fx, fy = Fraction(x), Fraction(y)
        if op == "+":
            return fx + fy
        if op == "-":
            return fx - fy
        if op == "*":
            return fx * fy
        if fy == 0:
            return "zero"
        if op == "/":
            return fx / fy
        if op == "//":
            return Fraction(math.floor(fx / fy))
        if op == "%":
            return fx - fy * math.floor(fx / fy)
    if any(is_nan(v) for v in (x, y)):
        return math.nan
    if op == "-" and y == math.inf and x != math.inf:
        return None  # negative infinity is no cardinality
    if op in "+-*":
        return {"+": operator.add, "-": operator.sub, "*": operator.mul}[op](float(x), float(y))
    if op == "/":
        if y == 0:
            return "zero"
        return float(x) / float(y) if x == math.inf else 0
    if op == "%":
        return math.nan if x == math.inf or y == 0 else x
    return None  # floor division of infinities


def check_state(raw):
    c = Cardinality(num(raw))
    want = rounded(raw)
    finite = not isinstance(want, float)
    require(c.is_valid() == finite and c.isnan() == c.is_unknown() == is_nan(want) and c.isinf() == (want == math.inf) and bool(c) == finite,
            "state of Cardinality(%s)", raw)
    require(Cardinality.of(c) == c and Cardinality.of(num(raw)) == c and hash(Cardinality.of(num(raw))) == hash(c), "of(%s)", raw)
    if finite:
        require(c.value == want == int(c) and isinstance(c.value, int) and c.get() == float(want) == float(c) and complex(c) == complex(want)
                and str(c) == str(want), "value of Cardinality(%s): %s", raw, c.value)
        require(abs(c) == c and round(c) == c and math.floor(c) == c and math.ceil(c) == c and math.trunc(c) == c, "rounding %s", raw)
    else:
        for access in (lambda: c.value, lambda: int(c)):
            try:
                access()
            except StateError:
                continue
            fail(f"value of Cardinality({raw}) does not raise a StateError")
        require(str(c.get()) == str(want) == str(float(c)), "get() of Cardinality(%s): %s", raw, c.get())
    match c:
        case Cardinality(valid, value):
            require(valid == finite and value == (want if finite else -1), "match of Cardinality(%s): %s, %s", raw, valid, value)
    for other in (pickle.loads(pickle.dumps(c)), copy.copy(c), copy.deepcopy(c)):
        require(other == c and hash(other) == hash(c) and type(other) is Cardinality, "copy of Cardinality(%s): %s", raw, other)
    dumped = json.loads(jsonize.to_json(c))
    require(Cardinality(dumped) == Cardinality(float(want)), "JSON of Cardinality(%s): %s", raw, dumped)
    require(Cardinality.unknown().isnan() and Cardinality.infinite().isinf(), "factories")


def operands(spec):
    a, b, form = spec["a"], spec["b"], spec["form"]
    x = Cardinality(num(a)) if form[0] == "c" else num(a)
    y = Cardinality(num(b)) if form[1] == "c" else num(b)
    return x, y, (rounded(a) if form[0] == "c" else num(a)), (rounded(b) if form[1] == "c" else num(b))


def check(spec):
    for raw in (spec["a"], spec["b"]):
        check_state(raw)
    x, y, vx, vy = operands(spec)
    text = f"{spec['form']}: {vx} . {vy}"
    for name, op in CMPS.items():
        want = op(vx, vy)
        if is_nan(vx) and is_nan(vy):
            if name not in ("==", "!="):
                continue
            want = name == "=="  # documented: unknown cardinalities equal each other
        got = op(x, y)
        require(got is want or bool(got) == want and isinstance(got, bool), "%s with %s: %s, expected %s", text, name, got, want)
    if x == y and not is_nan(vx):
        require(hash(x) == hash(y), "%s: equal but different hash values", text)
    if is_nan(vx) and is_nan(vy) and spec["form"] == "cc":
        require(hash(x) == hash(y), "%s: equal but different hash values", text)
    for name, op in OPS.items():
        if name == "**":
            continue
        want = expected(name, vx, vy)
        if want is None:
            continue
        try:
            got = op(x, y)
        except ZeroDivisionError:
            require(vy == 0, "%s with %s raises ZeroDivisionError", text, name)
            continue
        if want == "zero":
            continue
        if name in ("%", "//") and isinstance(want, Fraction) and max(vx, vy) > 2 ** 50:
            continue  # float precision
        if name in ("%", "//") and any(isinstance(v, float) and math.isfinite(v) and v != int(v) for v in (vx, vy)):
            # the float remainder is only approximately the exact one
            if isinstance(want, Fraction) and abs(vx / vy - round(vx / vy)) < 1e-6:
                continue
        require(isinstance(got, Cardinality) or name == "//", "%s with %s gives %s", text, name, type(got))
        require(matches(got, want), "%s with %s: %s, expected %s", text, name, got, want if isinstance(want, float) else float(want))
    # powers with small exponents
    base = Cardinality(num(spec["a"]))
    for exponent in (spec["exp"], float(spec["exp"]), Cardinality(spec["exp"])):
        if base.is_valid() and base.value < 10 ** 9:
            require(matches(base ** exponent, base.value ** spec["exp"]), "%s ** %s = %s", base, exponent, base ** exponent)
    if base.is_valid() and base.value < 64:
        require(matches(spec["exp"] ** base, spec["exp"] ** base.value), "%s ** %s", spec["exp"], base)
    # divmod agrees with // and %
    if spec["form"][0] == "c" and isinstance(vx, int) and not isinstance(vy, float) and vy != 0 and max(vx, vy) < 2 ** 50:
        q, r = divmod(x, y)
        require(q == vx // vy and r == vx % vy, "divmod(%s, %s) = %s", x, y, (q, r))
        require(Cardinality(q) == Cardinality(x // y) and Cardinality(r) == x % y, "divmod(%s, %s) and //, %%", x, y)
    # ordering of collections of known cardinalities
    values = [v for v in (rounded(m) for m in [spec["a"], spec["b"], *spec["more"]]) if not is_nan(v)]
    cards = [Cardinality(v) for v in values]
    require(sorted(cards) == [Cardinality(v) for v in sorted(values)], "sorting %s: %s", values, sorted(cards))
    if cards:
        require(max(cards) == Cardinality(max(values)) and min(cards) == Cardinality(min(values)), "min/max of %s", values)
        require(len(set(cards)) == len(set(values)) == len(set(cards) | set(values)), "set of %s: %s", values, set(cards))
        if len([v for v in values if v == math.inf]) == 0 and sum(values) < 2 ** 52:
            require(sum(cards) == sum(values), "sum of %s: %s", values, sum(cards))


FACETS = [
    Facet("laws", spec_strategy, check, quick=6000, thorough=200000, shards=4,
          rule="pairs of numbers (small/large integers, fractions incl. ties, unknown, infinite), combined as two cardinalities or cardinality and "
               "plain number in either order; all comparisons, operators, conversions, hashes, JSON/pickle, sorting vs exact rational arithmetic; "
               "non-trivial: the two operands differ",
          nontrivial=lambda s: s["a"] != s["b"],
          classify=lambda s: [s["form"], *(k for k in SPECIAL if k in (s["a"], s["b"]))]),
]
