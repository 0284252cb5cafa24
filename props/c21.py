"""C21: clustering merges equal compartments, and nothing else, without losing volume or material."""
import numpy as np
from hypothesis import strategies as st

import flory
from flory.common.phases import Phases, PhasesResult
from lib import gen
from lib.harness import Part, Trivial, ensure

RULE = (
    "part 'groups': 1-4 groups of compartments with generated centres, distances of centres at least 3 times and spreads at most 0.8 times "
    "the cut-off, unequal volumes (groups may be 1e-14 to 1e6 times as large as others) and generated order; the expected phases are known. Part 'chain': compartments in a row whose neighbours, but not whose ends, agree within the cut-off. Part 'pair': two compartments slightly closer or farther apart than the cut-off in a generated direction. Part 'any': arbitrary compartments and cut-offs. "
    "Non-trivial = a group has at least two members / at least two compartments"
)


@st.composite
def strat(draw):
    n = draw(st.sampled_from([2, 3, 4, 5, 2, 3, 4, 5, 8, 11]))
    dist = draw(st.sampled_from([None, 0.05, 0.001, 0.1, 0.01]))
    d = 1e-2 if dist is None else dist
    g = draw(st.sampled_from([1, 2, 3, 4, 1, 2, 3, 4, 7]))
    centres = []
    for _ in range(g):
        c = draw(gen.composition(n, st.integers(1, 1000).map(float)))
        if centres and draw(st.booleans()):
            # close to an earlier centre, just far enough to be another phase
            o = np.array(centres[-1])
            i, j = int(np.argmax(o)), int(np.argmin(o))
            o[i], o[j] = o[i] - 2.5 * d, o[j] + 2.5 * d
            c = o.tolist()
        if all(np.linalg.norm(np.array(c) - np.array(o)) >= 3 * d for o in centres):
            centres.append(c)
    members = [draw(st.sampled_from([1, 2, 3, 4, 5, 1, 2, 3, 4, 12])) for _ in centres]
    tot = sum(members)
    return {"n": n, "dist": dist, "positional": draw(st.booleans()), "centres": centres, "members": members,
            "jitter": [draw(st.lists(gen.ratio(-1, 1, 10), min_size=n, max_size=n)) for _ in range(tot)], "spread": draw(st.sampled_from([0.0, 1e-9, 0.1, 0.8])),
            "volumes": draw(st.lists(gen.WEIGHT, min_size=tot, max_size=tot)), "perm": draw(st.permutations(range(tot))), "result": draw(st.booleans()),
            "scale": [draw(st.sampled_from([1.0, 1.0, 1.0, 1e-9, 1e-14, 1e6])) for _ in centres]}


def expected_order(fr):
    return [tuple(np.argsort(-r, kind="stable")) for r in fr]


def check(case):
    n, d = case["n"], 1e-2 if case["dist"] is None else case["dist"]
    rows, grp = [], []
    k = 0
    for g, (c, m) in enumerate(zip(case["centres"], case["members"])):
        for _ in range(m):
            j = np.array(case["jitter"][k])
            j = j - j.mean()
            if np.linalg.norm(j) > 0:
                j = j / max(1.0, np.linalg.norm(j))
            rows.append(np.array(c) + 0.5 * case["spread"] * d * j)
            grp.append(g)
            k += 1
    rows, grp, vol = np.array(rows), np.array(grp), np.array(case["volumes"])
    vol = vol * np.array(case.get("scale", [1.0] * len(case["centres"])))[grp]
    G = len(case["centres"])
    pm = case["perm"]
    cls = PhasesResult if case["result"] else Phases
    p = cls(vol[pm], rows[pm])
    v0, f0 = p.volumes.copy(), p.fractions.copy()
    if case["dist"] is None:
        c = p.get_clusters()
    elif case["positional"]:
        c = p.get_clusters(d)
    else:
        c = p.get_clusters(dist=d)
    ensure(np.array_equal(v0, p.volumes) and np.array_equal(f0, p.fractions), "clustering does not modify the original")
    ensure(type(c) is cls, "clustering keeps the class", got=type(c))
    ensure(c.num_phases == G, "one phase for every group of similar compartments", got=c.fractions, want=case["centres"])
    wantv = np.array([vol[grp == g].sum() for g in range(G)])
    wantf = np.array([(vol[grp == g][:, None] * rows[grp == g]).sum(axis=0) / wantv[g] for g in range(G)])
    left = set(range(G))
    for v, f in zip(c.volumes, c.fractions):
        g = min(left, key=lambda q: np.abs(wantf[q] - f).max())
        left.discard(g)
        ensure(np.allclose(f, wantf[g], atol=1e-9), "composition is the volume-weighted mean of the group", got=f, want=wantf[g])
        ensure(np.isclose(v, wantv[g], rtol=1e-9), "volume is the sum of the group", got=v, want=wantv[g])
    ensure(np.allclose(c.mean_fractions, p.mean_fractions, atol=1e-9), "material is conserved", got=c.mean_fractions, want=p.mean_fractions)
    if all(len(set(np.round(r, 9))) == n for r in c.fractions):
        o = expected_order(c.fractions)
        ensure(o == sorted(o), "phases are sorted by their most concentrated component", got=c.fractions)
    if len(vol) < 2 or max(case["members"]) < 2:
        raise Trivial("nothing to merge")
    return [f"groups{G}", "sorted" if G > 1 else "single"]


@st.composite
def strat_any(draw):
    n, P = draw(st.sampled_from([1, 2, 3, 4, 5, 2, 3, 4, 9])), draw(st.one_of(st.integers(1, 12), st.integers(1, 12), st.integers(13, 40)))
    base = draw(st.lists(gen.composition(n), min_size=1, max_size=4))
    return {"volumes": draw(st.lists(gen.WEIGHT, min_size=P, max_size=P)),
            "fractions": draw(st.lists(st.one_of(gen.composition(n), st.sampled_from(base)), min_size=P, max_size=P)),
            "dist": draw(st.sampled_from([0.01, 0.1, 0.3, 1e-6, 2.0, 0.0])), "info": draw(st.booleans())}


def check_any(case):
    vol, fr = np.array(case["volumes"]), np.array(case["fractions"])
    p = PhasesResult(vol.copy(), fr.copy(), info={"a": 1}) if case["info"] else Phases(vol.copy(), fr.copy())
    c = p.get_clusters(case["dist"])
    ensure(type(c) is type(p) and (not case["info"] or c.info == {"a": 1}), "class and information are kept")
    ensure(1 <= c.num_phases <= p.num_phases and c.num_components == p.num_components, "number of phases", got=c.num_phases)
    ensure(np.isclose(c.total_volume, vol.sum(), rtol=1e-9), "total volume is conserved", got=c.total_volume, want=vol.sum())
    ensure(np.allclose(c.mean_fractions, vol @ fr / vol.sum(), atol=1e-9), "material is conserved", got=c.mean_fractions, want=vol @ fr / vol.sum())
    ensure(np.all(c.volumes > 0) and np.allclose(c.fractions.sum(axis=1), 1, atol=1e-9) and c.fractions.min() >= -1e-12
           and np.all(c.fractions >= fr.min(axis=0) - 1e-12) and np.all(c.fractions <= fr.max(axis=0) + 1e-12), "clusters are averages of compartments", got=c.fractions)
    ensure(np.array_equal(p.volumes, vol) and np.array_equal(p.fractions, fr), "clustering does not modify the original")
    if case["dist"] >= 2.0:
        ensure(c.num_phases == 1, "all compartments are merged by a large cut-off", got=c.fractions)
    if case["dist"] <= 1e-6:
        d = np.unique(np.round(fr, 4), axis=0)
        ensure(c.num_phases >= len(d), "different compartments are kept apart by a small cut-off", got=c.fractions, want=d)
    if len(vol) < 2:
        raise Trivial("one compartment")
    return f"clusters{min(c.num_phases, 5)}"


@st.composite
def strat_chain(draw):
    n, K = draw(st.integers(2, 6)), draw(st.integers(6, 24))
    return {"n": n, "dist": draw(st.sampled_from([None, 0.001, 0.01, 0.005])), "steps": draw(st.lists(gen.ratio(0.7, 0.95, 50), min_size=K, max_size=K)), "equal": draw(st.booleans()),
            "i": draw(st.integers(0, n - 1)), "volumes": draw(st.lists(gen.WEIGHT, min_size=K, max_size=K)), "perm": draw(st.permutations(range(K)))}


def check_chain(case):
    """intermediate compartments do not glue phases together that are many cut-offs apart"""
    n, d = case["n"], 1e-2 if case["dist"] is None else case["dist"]
    s = np.array(case["steps"])
    if case["equal"]:
        s[:] = s[0]
    x = np.cumsum(s) * d / np.sqrt(2)
    i, j = case["i"], (case["i"] + 1) % n
    fr = np.full((len(s), n), 0.4 / max(n - 2, 1))
    fr[:, i], fr[:, j] = 0.3 + x, 0.3 - x
    pm, vol = case["perm"], np.array(case["volumes"])
    p = Phases(vol[pm], fr[pm])
    c = p.get_clusters() if case["dist"] is None else p.get_clusters(d)
    ensure(c.num_phases >= 2, "the ends of a chain of compartments, many cut-offs apart, are different phases", got=c.fractions, want=fr)
    ensure(np.isclose(c.total_volume, vol.sum(), rtol=1e-9) and np.allclose(c.mean_fractions, vol @ fr / vol.sum(), atol=1e-9), "volume and material are conserved", got=c.mean_fractions)
    return f"clusters{min(c.num_phases, 8)}"


@st.composite
def strat_pair(draw):
    n = draw(st.sampled_from([2, 3, 4, 6, 2, 3, 4, 9]))
    return {"n": n, "dist": draw(st.sampled_from([None, 0.05, 0.001, 0.1, 0.01])), "base": draw(gen.mild_composition(n, 0.3)),
            "dir": draw(st.lists(gen.ratio(-1, 1, 10), min_size=n, max_size=n)), "only": draw(st.one_of(st.none(), st.permutations(range(n)))),
            "rel": draw(st.sampled_from([0.99, 1.01, 0.9, 1.1, 0.75, 1.25, 0.5, 2.0])),
            "volumes": draw(st.lists(gen.WEIGHT, min_size=2, max_size=2)), "flip": draw(st.booleans()), "result": draw(st.booleans())}


def check_pair(case):
    """two compartments are the same phase exactly if their distance does not exceed the cut-off"""
    n, d = case["n"], 1e-2 if case["dist"] is None else case["dist"]
    v = np.array(case["dir"])
    if case["only"] is not None:  # exchange of two components only
        v = np.zeros(n)
        v[case["only"][0]], v[case["only"][1]] = 1.0, -1.0
    v = v - v.mean()
    if np.linalg.norm(v) < 1e-3:
        raise Trivial("no direction")
    v = v / np.linalg.norm(v)
    a = np.array(case["base"])
    b = a + case["rel"] * d * v
    rows, vol = np.array([b, a] if case["flip"] else [a, b]), np.array(case["volumes"])
    p = (PhasesResult if case["result"] else Phases)(vol, rows)
    c = p.get_clusters() if case["dist"] is None else p.get_clusters(d)
    ensure(c.num_phases == (1 if case["rel"] < 1 else 2), "compartments are merged exactly if they are closer than the cut-off", got=c.fractions, rel=case["rel"], want=rows)
    ensure(np.isclose(c.total_volume, vol.sum(), rtol=1e-9) and np.allclose(c.mean_fractions, vol @ rows / vol.sum(), atol=1e-9), "volume and material are conserved", got=c.mean_fractions)
    return "merged" if case["rel"] < 1 else "kept"


PARTS = [Part("pair", strat_pair, check_pair, 1500, 20000), Part("chain", strat_chain, check_chain, 600, 10000), Part("groups", strat, check, 4000, 60000), Part("any", strat_any, check_any, 3000, 40000)]
