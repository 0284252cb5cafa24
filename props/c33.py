"""C33: the shared helper functions keep their documented contracts."""
import itertools
import math

import numpy as np
from hypothesis import strategies as st

from flory.common import convert_and_broadcast, filter_kwargs, make_square_blocks
from flory.common.math import xlogx
from lib import gen
from lib.harness import Part, Trivial, ensure

RULE = (
    "cases draw arrays of one to four dimensions with block sizes (also zero, also mismatching), values to broadcast (scalars, rows, columns, lists, integers) "
    "with target shapes, sets of keyword arguments with generated signatures, and arguments of x log x over the whole range of floats including zeros of both "
    "signs and negatives; each is compared with a plain-Python model. Non-trivial = the result is not just the input"
)


@st.composite
def strat_blocks(draw):
    n, dim = draw(st.integers(1, 5)), draw(st.integers(1, 4))
    if dim > 2:
        n = min(n, 3)
    return {"n": n, "dim": dim, "values": draw(st.lists(st.integers(-99, 99), min_size=n**dim, max_size=n**dim)), "int": draw(st.booleans()),
            "blocks": draw(st.lists(st.sampled_from([1, 2, 3, 1, 2, 5, 0]), min_size=n, max_size=n)), "order": draw(st.sampled_from("CF")),
            "bad": draw(st.sampled_from([None, None, None, None, None, "more", "less", "oblong"]))}


def check_blocks(case):
    n, dim = case["n"], case["dim"]
    a = np.array(case["values"], int if case["int"] else float).reshape((n,) * dim)
    a = np.asarray(a, order=case["order"])
    b = np.array(case["blocks"])
    if case["bad"]:
        if case["bad"] == "more":
            b = np.append(b, 1)
        elif case["bad"] == "less":
            if n == 1:
                raise Trivial("nothing to remove")
            b = b[:-1]
        else:
            if dim == 1:
                raise Trivial("a vector is always square")
            a = np.concatenate([a, a[:1]])
        try:
            r = make_square_blocks(a, b)
        except ValueError:
            return "rejected"
        ensure(False, "arrays which are not square or do not match the number of blocks are rejected", shape=a.shape, blocks=b, got=r)
    before, bb = a.copy(), b.copy()
    r = make_square_blocks(a, b)
    idx = [i for i, k in enumerate(case["blocks"]) for _ in range(k)]
    ensure(r.shape == (len(idx),) * dim and r.dtype == a.dtype, "shape of the expanded array", got=r.shape, want=(len(idx),) * dim)
    for pos in itertools.islice(itertools.product(range(len(idx)), repeat=dim), 3000):
        ensure(r[pos] == before[tuple(idx[q] for q in pos)], "every element is repeated as a block", pos=pos, got=r[pos])
    ensure(np.array_equal(a, before) and np.array_equal(b, bb), "the input is not modified")
    if all(k == 1 for k in case["blocks"]):
        raise Trivial("nothing repeated")
    return [f"dim{dim}", "empty" if 0 in case["blocks"] else "full"]


@st.composite
def strat_broadcast(draw):
    shape = draw(st.lists(st.integers(1, 5), min_size=1, max_size=3))
    k = draw(st.integers(0, len(shape)))
    src = [1 if draw(st.integers(0, 3)) == 0 else s for s in shape[len(shape) - k:]]
    size = int(np.prod(src)) if src else 1
    return {"shape": shape, "src": src, "values": draw(st.lists(st.integers(-50, 50), min_size=size, max_size=size)), "kind": draw(st.sampled_from(["float", "int", "list"])),
            "bad": draw(st.integers(0, 6)) == 0}


def check_broadcast(case):
    shape, src = tuple(case["shape"]), tuple(case["src"])
    v = [x / 4 for x in case["values"]] if case["kind"] == "float" else case["values"]
    a = np.array(v).reshape(src)
    if case["bad"]:
        try:
            r = convert_and_broadcast(np.arange(shape[-1] + 2), shape)
        except ValueError:
            return "rejected"
        ensure(False, "values which do not fit are rejected", got=r, shape=shape)
    arg = a.tolist() if case["kind"] == "list" else a
    r = convert_and_broadcast(arg, shape)
    ensure(isinstance(r, np.ndarray) and r.shape == shape and r.dtype == a.dtype, "an array of the requested shape", got=np.shape(r), want=shape)
    for pos in itertools.product(*map(range, shape)):
        q = pos[len(shape) - len(src):]
        ensure(r[pos] == a[tuple(0 if s == 1 else i for i, s in zip(q, src))], "values are those given", pos=pos, got=r[pos])
    # the result is an independent, writable copy: changing one element changes nothing else
    keep = a.copy()
    first = (0,) * len(shape)
    want = r.copy()
    want[first] += 1
    r[first] += 1
    ensure(np.array_equal(r, want) and np.array_equal(a, keep), "the result is an independent array", got=r, want=want)
    if src == shape:
        raise Trivial("nothing to broadcast")
    return [case["kind"], f"from{len(src)}"]


NAMES = ["a", "b", "c", "elasticity", "additional_chis_shift", "x1"]


@st.composite
def strat_kwargs(draw):
    names = draw(st.lists(st.sampled_from(NAMES), unique=True, max_size=5))
    return {"params": [[n, draw(st.sampled_from(["plain", "default", "keyword"]))] for n in names], "given": draw(st.dictionaries(st.sampled_from(NAMES + ["self", "other"]), st.one_of(st.integers(0, 9), st.none()), max_size=7)),
            "method": draw(st.booleans())}


def check_kwargs(case):
    plain = [n for n, k in case["params"] if k == "plain"]
    default = [n + "=5" for n, k in case["params"] if k == "default"]
    kw = [n + "=7" for n, k in case["params"] if k == "keyword"]
    sig = ", ".join((["self"] if case["method"] else []) + plain + default + (["*"] + kw if kw else []))
    ns = {}
    exec(f"def func({sig}): return dict(locals())\n", ns)
    func = ns["func"]
    if case["method"]:
        func = type("T", (), {"m": func})().m
    accepted = {n for n, _ in case["params"]}
    given = dict(case["given"])
    got = filter_kwargs(given, func)
    want = {k: v for k, v in case["given"].items() if k in accepted}
    ensure(dict(got) == want, "exactly the accepted keyword arguments are kept", got=got, want=want, signature=sig)
    ensure(given == case["given"], "the given arguments are not modified")
    if all(n in given for n in plain):
        r = func(**got)
        ensure(all(r[k] == v for k, v in want.items()), "the function receives them")
    if not want or want == given:
        raise Trivial("nothing filtered")
    return f"kept{len(want)}"


FLOATS = st.one_of(st.sampled_from([0.0, -0.0, 1.0, -1.0, 5e-324, 1e-300, 1e-16, 1e300, 2.0, 0.5, -1e-300]), st.floats(0, 1), st.floats(0, 1e6), st.floats(-10, 0), st.integers(-330, 300).map(lambda k: float(f"1e{k}")))


@st.composite
def strat_xlogx(draw):
    return {"x": draw(st.lists(FLOATS, min_size=1, max_size=8)), "scalar": draw(st.booleans()), "cols": draw(st.booleans())}


def check_xlogx(case):
    v = case["x"][:1] if case["scalar"] else case["x"]
    a = v[0] if case["scalar"] else (np.array(v)[:, None] if case["cols"] else np.array(v))
    r = np.asarray(xlogx(a))
    ensure(r.shape == np.shape(a), "one value per argument", got=r.shape)
    for x, y in zip(v, r.reshape(-1).tolist()):
        if x == 0:
            ensure(y == 0, "the limit at zero is zero", x=x, got=y)
        elif x < 0:
            ensure(math.isnan(y), "negative arguments have no value", x=x, got=y)
        else:
            want = x * math.log(x)
            ensure(abs(y - want) <= 1e-13 * max(abs(want), x), "x times its logarithm", x=x, got=y, want=want)
    return ["zero" if 0 in v else "plain", "negative" if min(v) < 0 else "positive"]


PARTS = [Part("blocks", strat_blocks, check_blocks, 1600, 20000), Part("broadcast", strat_broadcast, check_broadcast, 1200, 16000),
         Part("keywords", strat_kwargs, check_kwargs, 1200, 16000), Part("x log x", strat_xlogx, check_xlogx, 1200, 16000)]
