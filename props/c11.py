"""C11: binary mixtures reproduce the exact phase diagram (common tangent and lever rule)."""
import numpy as np
from hypothesis import strategies as st

import flory
from lib import gen, ref, systems as S
from lib.build import FAST, conv, rng
from lib.harness import Part, Trivial, ensure

RULE = (
    "cases draw a binary mixture (sizes 0.5-6, interaction 0.3-3 times critical, self-interactions, mean composition "
    "inside, near or outside the binodal) and compare the phases found with an independent common-tangent solver. "
    "Non-trivial = converged, and not within 0.02 of the binodal or close to the critical point; between spinodal and "
    "binodal the metastable homogeneous state and the tangent pair are both accepted (label 'metastable')"
)
ASSUMPTIONS = ["a homogeneous mixture is a legitimate stationary result between the spinodal and the binodal, where it is metastable"]


@st.composite
def strat(draw):
    l = draw(gen.sizes(2, st.sampled_from([1.0, 2.0, 3.0, 1.5, 0.5, 6.0])))
    where = draw(st.sampled_from(["inside", "inside", "inside", "any"]))
    return {"sizes": l, "factor": draw(gen.ratio(0.3, 3.0, 100)) if where == "any" else draw(st.sampled_from([1.3, 1.5, 2.0, 1.8, 2.5, 3.0, 1.4])),
            "diag": draw(st.sampled_from([[0.0, 0.0], [1.0, -2.0], [-1.5, -1.5], [2.5, 0.0]])),
            "where": where, "t": draw(gen.ratio(0.05, 0.95)), "parts": draw(st.sampled_from([16, 12, 24])),
            "seed": draw(gen.SEED), "how": draw(st.sampled_from(["fast", "fast", "fast", "default"])),
            "kind": draw(st.sampled_from(["fh", "fh", "poly"]))}


def exact(case):
    l1, l2 = case["sizes"]
    crit = 0.5 * (l1 ** -0.5 + l2 ** -0.5) ** 2
    eff = crit * case["factor"]
    ends = ref.binary_coexistence(eff, l1, l2) if case["factor"] > 1 else None
    if ends is not None and case["where"] == "inside":
        x = ends[0] + case["t"] * (ends[1] - ends[0])
    else:
        x = case["t"]
    return eff, ends, x


def judge(c, eff, sizes, ends, x, tol):
    l1, l2 = sizes
    if ends is not None and ends[0] + 0.02 < x < ends[1] - 0.02:
        a, b = ends
        if b - a < 0.15:
            raise Trivial("close to the critical point")
        curv = 1 / (l1 * x) + 1 / (l2 * (1 - x)) - 2 * eff
        label = "unstable"
        if curv > -0.05 * eff:
            label = "metastable"
            if c.num_phases == 1:
                ensure(abs(c.fractions[0, 0] - x) < tol, "the homogeneous phase has the mean composition", got=c.fractions, want=x)
                return label + "-one"
        ensure(c.num_phases == 2, "two phases inside the binodal", got=c.fractions, want=ends, mean=x)
        o = np.argsort(c.fractions[:, 0])
        v, f = c.volumes[o] / c.volumes.sum(), c.fractions[o]
        ensure(abs(f[0, 0] - a) < tol and abs(f[1, 0] - b) < tol, "compositions given by the common tangent", got=f[:, 0], want=ends)
        ensure(np.abs(f.sum(axis=1) - 1).max() < tol, "fractions add up", got=f)
        lever = (x - a) / (b - a)
        ensure(abs(v[1] - lever) < 5 * tol / (b - a), "volumes given by the lever rule", got=v, want=lever)
        return label + "-two"
    if ends is None or x < ends[0] - 0.02 or x > ends[1] + 0.02:
        ensure(c.num_phases == 1, "one phase outside the binodal", got=c.fractions, want=x)
        ensure(abs(c.fractions[0, 0] - x) < tol, "the homogeneous phase has the mean composition", got=c.fractions, want=x)
        return "stable-one"
    raise Trivial("on the binodal")


def check(case):
    eff, ends, x = exact(case)
    if abs(case["factor"] - 1) < 0.08:
        raise Trivial("close to the critical point")
    d1, d2 = case["diag"]
    chi = eff + 0.5 * (d1 + d2)
    s = {"kind": case["kind"], "counts": [1, 1], "chis": [[d1, chi], [chi, d2]], "sizes": case["sizes"], "phi": [x, 1 - x]}
    if case["how"] == "fast":
        f = S.finder(s, case["seed"], case["parts"], max_steps=100_000)
        p = f.run()
        tol = 1e-7
    else:
        i, e, c = S.objects(s)
        f = flory.CoexistingPhasesFinder(i, e, c, rng=rng(case["seed"]), progress=False, max_steps=400_000)
        p = f.run()
        tol = 1e-5
    if not conv(f, tol):
        raise Trivial("not converged")
    return [judge(p.get_clusters(0.05), eff, case["sizes"], ends, x, 2e-4 if tol < 1e-6 else 2e-3), case["how"]]


PARTS = [Part("tangent", strat, check, 800, 8000, warmup=S.warm_both, nontrivial_floor=0.5)]
