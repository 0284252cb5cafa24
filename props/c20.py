"""C20: collections of phases keep volume and composition bookkeeping intact."""
import numpy as np
from hypothesis import strategies as st

import flory
from flory.common.phases import Phases, PhasesResult
from lib import gen
from lib.harness import Part, Trivial, ensure

RULE = (
    "cases draw 1-8 phases of 1-5 components (volumes 1e-6..1000, compositions with ties, lists or integer arrays) and a chain "
    "of 1-5 operations (normalize, sort, cluster, conversion to a result with information); every intermediate collection is compared with a "
    "plain model. Non-trivial = at least two phases"
)


@st.composite
def strat(draw):
    n, P = draw(st.one_of(st.integers(1, 5), st.integers(1, 5), st.integers(6, 12))), draw(st.one_of(st.integers(1, 8), st.integers(1, 8), st.integers(9, 25)))
    # ordinary compositions, such with many ties, and such with a clear order of their components (few different leaders)
    lead = st.permutations(range(1, n + 1)) if n < 3 else st.one_of(
        st.permutations(range(1, n + 1)), st.permutations(range(1, n)).map(lambda w: [n, *w]), st.permutations(range(1, n)).map(lambda w: [*w, n]))
    if draw(st.booleans()):
        comp = lead.map(lambda w: [x / sum(w) for x in w])
    else:
        comp = st.one_of(gen.composition(n), gen.composition(n, st.integers(1, 3).map(float)))
    if draw(st.integers(0, 7)) == 0:
        vol = draw(st.lists(st.integers(1, 9), min_size=P, max_size=P))
    else:
        vol = draw(st.lists(gen.WEIGHT, min_size=P, max_size=P))
    return {"n": n, "volumes": vol, "fractions": draw(st.lists(comp, min_size=P, max_size=P)), "list": draw(st.booleans()),
            "info": draw(st.one_of(st.none(), st.fixed_dictionaries({"steps": st.integers(0, 9)}))), "result": draw(st.booleans()),
            "ops": draw(st.lists(st.sampled_from(["normalize", "sort", "sort", "from_phases"]), min_size=1, max_size=5)),
            "perm": draw(st.permutations(range(P)))}


def key(row, last=False):
    """components ordered from most to least concentrated; of equal ones the first (or last) comes first"""
    return tuple(sorted(range(len(row)), key=lambda i: (-row[i], -i if last else i)))


def unambiguous(fr):
    return all(len(set(r)) == len(r) for r in fr.tolist())


def verify(p, vol, fr):
    P, n = fr.shape
    ensure(p.num_phases == P and p.num_components == n, "numbers of phases and components", got=(p.num_phases, p.num_components), want=(P, n))
    ensure(np.allclose(p.volumes, vol, rtol=1e-12) and np.allclose(p.fractions, fr, rtol=1e-12), "volumes and fractions", got=(p.volumes, p.fractions), want=(vol, fr))
    tot = float(sum(vol))
    ensure(np.isclose(p.total_volume, tot, rtol=1e-12), "total volume", got=p.total_volume, want=tot)
    mean = np.array([sum(vol[k] * fr[k, i] for k in range(P)) / tot for i in range(n)])
    ensure(np.allclose(p.mean_fractions, mean, rtol=1e-10, atol=1e-14), "mean fractions", got=p.mean_fractions, want=mean)
    ensure(str(p).startswith(type(p).__name__), "text")


def check(case):
    vol0, fr0 = np.array(case["volumes"]), np.array(case["fractions"])
    a = (case["volumes"], case["fractions"]) if case["list"] else (vol0.copy(), fr0.copy())
    info = None if case["info"] is None else dict(case["info"])
    p = PhasesResult(*a, info=info) if case["result"] else Phases(*a)
    vol, fr = vol0.astype(float), fr0
    verify(p, vol, fr)
    if case["result"]:
        ensure(p.info == ({} if case["info"] is None else case["info"]), "information is kept", got=p.info)
    for op in case["ops"]:
        before = (p, p.volumes.copy(), p.fractions.copy())
        if op == "normalize":
            q = p.normalize()
            vol = vol / vol.sum()
            ensure(abs(q.volumes.sum() - 1) < 1e-12, "volumes add up to one", got=q.volumes.sum())
        elif op == "sort":
            q = p.sort()
            # a permutation of the phases ...
            order = sorted(range(len(vol)), key=lambda k: (tuple(fr[k]), vol[k]))
            got = sorted(range(q.num_phases), key=lambda k: (tuple(q.fractions[k]), q.volumes[k]))
            ensure(q.num_phases == len(vol) and np.allclose(q.fractions[got], fr[order], rtol=1e-12) and np.allclose(q.volumes[got], vol[order], rtol=1e-12),
                   "sorting only changes the order of phases", got=(q.volumes, q.fractions), want=(vol, fr))
            # ... ordered by the index of the most concentrated component
            rows = q.fractions.tolist()
            first, last = [key(r) for r in rows], [key(r, True) for r in rows]
            for k in range(1, len(rows)):  # whichever way equal fractions are ordered
                ensure(max(first[:k]) <= last[k], "phases are sorted by their most concentrated components", got=q.fractions, k=k)
            if unambiguous(q.fractions):
                top = [key(r) for r in q.fractions.tolist()]
                ensure([t[0] for t in top] == sorted(t[0] for t in top), "phases are sorted by their most concentrated component", got=q.fractions)
                ensure(top == sorted(top), "equal leaders are sorted by the next component", got=q.fractions)
                if len(set(top)) == len(top):
                    pm = case["perm"]
                    r = type(p)(p.volumes[pm], p.fractions[pm]).sort()
                    ensure(np.array_equal(r.volumes, q.volumes) and np.array_equal(r.fractions, q.fractions), "sorting does not depend on the order before",
                           got=r.fractions, want=q.fractions)
            r = q.sort()
            ensure(np.array_equal(r.volumes, q.volumes) and np.array_equal(r.fractions, q.fractions), "sorting twice changes nothing", got=r.fractions, want=q.fractions)
            vol, fr = np.array(q.volumes, float), np.array(q.fractions)
        else:
            q = PhasesResult.from_phases(p, info=info)
            ensure(type(q) is PhasesResult and q.info == (info or {}), "conversion", got=q.info)
        if op != "from_phases":
            ensure(type(q) is type(p), "operations keep the class", got=type(q))
            if isinstance(p, PhasesResult):
                ensure(q.info == p.info, "operations keep the information", got=q.info, want=p.info)
                saved = dict(p.info)
                q.info["changed"] = 1
                ensure(p.info == saved, "information of different collections is independent", got=p.info)
                del q.info["changed"]
        ensure(np.array_equal(before[0].volumes, before[1]) and np.array_equal(before[0].fractions, before[2]), "operations do not modify the original")
        p = q
        verify(p, vol, fr)
    if len(vol) < 2:
        raise Trivial("one phase")
    return sorted(set(case["ops"])) + ["unambiguous" if unambiguous(fr) else "ties"] + ["same leader"] * (len({key(r)[0] for r in fr.tolist()}) < len(fr))


@st.composite
def strat_bad(draw):
    return {"v": draw(st.lists(st.integers(0, 3), min_size=0, max_size=2)), "f": draw(st.lists(st.integers(0, 3), min_size=0, max_size=3)), "result": draw(st.booleans())}


def check_bad(case):
    v, f = np.ones(case["v"]), np.ones(case["f"])
    ok = v.ndim == 1 and f.ndim == 2 and v.shape[0] == f.shape[0]
    cls = PhasesResult if case["result"] else Phases
    try:
        p = cls(v, f)
    except ValueError:
        ensure(not ok, "consistent shapes are accepted", shapes=(v.shape, f.shape))
        return "rejected"
    ensure(ok, "inconsistent shapes are rejected", shapes=(v.shape, f.shape))
    ensure(p.num_phases == v.shape[0] and p.num_components == f.shape[1], "shapes")
    return "accepted"


PARTS = [Part("chains", strat, check, 4000, 60000), Part("shapes", strat_bad, check_bad, 800, 4000)]
