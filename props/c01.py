"""C01: the free energy density is the documented Flory-Huggins expression."""
import math

import numpy as np
from hypothesis import strategies as st

import flory
from lib import fe, gen, ref
from lib.harness import Part, ensure

RULE = (
    "cases draw a mixture (1-9 components, plain / block / polydispersed, scalar, symmetric or asymmetric "
    "interaction input, sizes absent, scalar or per component) and 1-4 compositions (some entries exactly zero, "
    "not necessarily summing to one) in different containers; non-trivial = at least two components or a "
    "composition away from the trivial value 0"
)


@st.composite
def strat(draw):
    m = draw(fe.model())
    n = fe.num_comp(m)
    ph = draw(fe.phases(n, zeros=draw(st.booleans())))
    return {"model": m, "phis": ph, "how": draw(st.sampled_from(fe.CONTAINERS)),
            "single": draw(st.booleans())}


def check(case):
    m = case["model"]
    f = fe.build(m)
    chis, sizes = fe.ref_chis(m), fe.ref_sizes(m)
    ensure(f.num_comp == fe.num_comp(m), "number of components", got=f.num_comp)
    ph = case["phis"][0] if case["single"] else case["phis"]
    got = np.asarray(f.free_energy_density(fe.present(ph, case["how"])))
    want = np.array([ref.free_energy(p, chis, sizes) for p in case["phis"]])
    want = want[0] if case["single"] else want
    scale = ref.scale_of(chis) * ref.scale_of(ph) ** 2 / min(1.0, min(sizes))
    ensure(got.shape == np.shape(want), "one value per phase", got=got.shape, want=np.shape(want))
    ensure(np.all(np.isfinite(got)), "free energy density is finite for non-negative fractions", got=got)
    ensure(fe.close(got, want, scale, 1e-11), "free energy density equals the formula", got=got, want=want)
    return ["zeros" if any(0.0 in p for p in case["phis"]) else "interior", m["kind"]]


@st.composite
def strat_uniform(draw):
    n = draw(st.integers(1, 6))
    return {"n": n, "chi": draw(gen.ratio(-5, 5, 4)), "diag": draw(st.booleans()),
            "int_chi": draw(st.booleans()), "sizes": draw(gen.maybe_sizes(n)),
            "phi": draw(gen.composition_with_zeros(n)), "via": draw(st.sampled_from(["fe", "set"]))}


def check_uniform(case):
    n = case["n"]
    chi = int(round(case["chi"])) if case["int_chi"] else case["chi"]
    if case["via"] == "fe":
        f = flory.FloryHuggins.from_uniform(n, chi, sizes=case["sizes"], vanishing_diagonal=case["diag"])
    else:
        f = flory.FloryHuggins(n, 1.5, case["sizes"])
        f.interaction.set_uniform_chis(chi, vanishing_diagonal=case["diag"])
    chis = [[0.0 if (i == j and case["diag"]) else float(chi) for j in range(n)] for i in range(n)]
    sizes = case["sizes"] or [1.0] * n
    ensure(np.array_equal(f.chis, chis), "uniform matrix", got=f.chis)
    want = ref.free_energy(case["phi"], chis, sizes)
    got = float(f.free_energy_density(case["phi"]))
    ensure(abs(got - want) <= 1e-11 * ref.scale_of(chis) / min(1.0, min(sizes)), "free energy equals the formula", got=got, want=want)
    # closed form for a uniform matrix: chi/2 (1 - sum phi^2) off the diagonal
    p = case["phi"]
    closed = sum(ref.xlx(x) / s for x, s in zip(p, sizes))
    closed += 0.5 * chi * (math.fsum(p) ** 2 - (math.fsum(x * x for x in p) if case["diag"] else 0.0))
    ensure(abs(got - closed) <= 1e-10 * ref.scale_of(chis), "free energy equals the closed form", got=got, want=closed)


PARTS = [
    Part("formula", strat, check, 4000, 60000),
    Part("uniform", strat_uniform, check_uniform, 1200, 15000),
]
