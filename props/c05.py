"""C05: the equilibration error measures the imbalance of chemical potentials."""
import numpy as np
from hypothesis import strategies as st

import flory
from lib import fe, gen, ref
from lib.harness import Part, Trivial, ensure

RULE = (
    "cases draw a mixture and 1-5 phases (some components absent everywhere), norm order and axis; plus exact "
    "coexisting pairs of random binary mixtures from an independent common-tangent solver. Non-trivial = at least "
    "two phases"
)


@st.composite
def strat(draw):
    m = draw(fe.model(5))
    n = fe.num_comp(m)
    ph = draw(fe.phases(n, max_phases=5))
    absent = draw(st.integers(0, 3)) == 0 and n > 1
    if absent:
        i = draw(st.integers(0, n - 1))
        for p in ph:
            p[i] = 0.0
    if draw(st.integers(0, 5)) == 0:
        ph = [list(ph[0]) for _ in ph]
    return {"model": m, "phis": ph, "order": draw(st.sampled_from([None, None, 1, 2, "inf"])),
            "axis": draw(st.sampled_from(["default", 0, 1, None])),
            "perm": draw(st.permutations(list(range(len(ph)))))}


def check(case):
    m = case["model"]
    f = fe.build(m)
    chis, sizes = fe.ref_chis(m), fe.ref_sizes(m)
    ph = case["phis"]
    mus = np.array([ref.mu(p, chis, sizes) for p in ph])
    mus[~np.isfinite(mus)] = 0.0
    dev = mus - mus.mean(axis=0)
    kw = {}
    order = np.inf if case["order"] == "inf" else case["order"]
    if case["order"] is not None:
        kw["order"] = order
    if case["axis"] != "default":
        kw["axis"] = case["axis"]
    axis = 1 if case["axis"] == "default" else case["axis"]
    if axis is None:
        if order is None:
            want = np.sqrt((dev**2).sum())
        elif order == 1:
            want = np.abs(dev).sum(axis=0).max()
        elif order == 2:
            want = np.linalg.svd(dev, compute_uv=False).max()
        else:
            want = np.abs(dev).sum(axis=1).max()
    else:
        o = 2 if order is None else order
        want = {1: lambda: np.abs(dev).sum(axis=axis), 2: lambda: np.sqrt((dev**2).sum(axis=axis)),
                np.inf: lambda: np.abs(dev).max(axis=axis)}[o]()
    sc = ref.scale_of(chis) * 4 + ref.scale_of(mus)
    got = np.asarray(f.equilibration_error(ph, **kw))
    ensure(fe.close(got, np.asarray(want), sc, 1e-10), "norm of the deviations from the mean chemical potentials", got=got, want=want)
    ensure(np.all(got >= 0), "errors are not negative", got=got)
    if all(p == ph[0] for p in ph):
        ensure(np.all(got <= 1e-12 * sc), "identical phases are balanced", got=got)
    perm = case["perm"]
    got2 = np.asarray(f.equilibration_error([ph[i] for i in perm], **kw))
    want2 = got[perm] if axis == 1 else got
    ensure(fe.close(got2, want2, sc, 1e-10), "errors follow the phases when they are reordered", got=got2, want=want2)
    if len(ph) < 2:
        raise Trivial("one phase")
    return [str(case["axis"]), m["kind"]]


@st.composite
def strat_tangent(draw):
    l = draw(gen.sizes(2, st.integers(1, 6).map(float)))
    crit = 0.5 * (1 / l[0] ** 0.5 + 1 / l[1] ** 0.5) ** 2
    return {"sizes": l, "factor": draw(gen.ratio(1.05, 3.0, 100)), "crit": crit,
            "diag": [draw(gen.ratio(-2, 2, 10)), draw(gen.ratio(-2, 2, 10))], "pert": draw(gen.ratio(0.05, 0.5, 100))}


def check_tangent(case):
    l1, l2 = case["sizes"]
    eff = case["crit"] * case["factor"]
    ends = ref.binary_coexistence(eff, l1, l2)
    if ends is None or min(ends[0], 1 - ends[1]) < 1e-12:
        raise Trivial("no coexistence")
    a, b = ends
    d1, d2 = case["diag"]
    chi = eff + 0.5 * (d1 + d2)
    f = flory.FloryHuggins(2, [[d1, chi], [chi, d2]], [l1, l2])
    e = np.asarray(f.equilibration_error([[a, 1 - a], [b, 1 - b]]))
    ensure(np.all(e < 1e-6), "exactly coexisting phases have vanishing error", got=e)
    # moving one of the phases off the binodal is noticed
    a2 = a * (1 - case["pert"])
    e2 = float(f.equilibration_error([[a2, 1 - a2], [b, 1 - b]], axis=None))
    ensure(e2 > 1e-5, "phases off balance have a clear error", got=e2)
    return "coexisting"


PARTS = [
    Part("norm", strat, check, 3000, 40000),
    Part("tangent", strat_tangent, check_tangent, 800, 8000),
]
