"""C03: chemical potentials, exchange chemical potentials and pressure."""
import numpy as np
from hypothesis import strategies as st

from lib import fe, gen, ref
from lib.harness import Part, ensure

RULE = (
    "cases draw a mixture, compositions (interior, or with exact zeros) and a solvent index (also counted from the end); non-trivial = at "
    "least two components"
)


@st.composite
def strat(draw):
    m = draw(fe.model())
    n = fe.num_comp(m)
    return {"model": m, "phis": draw(fe.phases(n, zeros=draw(st.booleans()))),
            "how": draw(st.sampled_from(fe.CONTAINERS)), "single": draw(st.booleans()),
            "index": draw(st.one_of(st.integers(0, n - 1), st.integers(-n, n - 1)))}


def check(case):
    m = case["model"]
    n = fe.num_comp(m)
    f = fe.build(m)
    chis, sizes = fe.ref_chis(m), fe.ref_sizes(m)
    k = case["index"]
    raw = case["phis"][:1] if case["single"] else case["phis"]
    arg = fe.present(raw[0] if case["single"] else raw, case["how"])
    P = len(raw)
    want = np.array([ref.mu(p, chis, sizes) for p in raw])
    sc = ref.scale_of(chis) * ref.scale_of(raw) ** 2 * 2 + ref.scale_of(want)
    mus = np.asarray(f.chemical_potentials(arg)).reshape(P, n)
    ensure(fe.close(mus, want, sc, 1e-11), "chemical potentials f - sum phi df + df", got=mus, want=want)
    pr = np.asarray(f.pressure(arg, k)).reshape(P)
    ensure(fe.close(pr, -want[:, k], sc, 1e-11), "osmotic pressure is minus the solvent chemical potential", got=pr, want=-want[:, k])
    ok = np.array([p[k] > 0 for p in raw])
    ex = np.asarray(f.exchange_chemical_potentials(arg, k)).reshape(P, n)
    if ok.any():
        d = want[ok] - want[ok][:, [k]]
        ensure(fe.close(ex[ok], d, sc, 1e-11), "exchange chemical potentials are differences", got=ex[ok], want=d)
        ensure(np.all(ex[ok][:, k] == 0), "exchange potential of the solvent is zero", got=ex[ok][:, k])
        j = np.asarray(f.jacobian(arg, k)).reshape(P, n - 1)
        ensure(fe.close(np.delete(ex[ok], k, axis=-1), j[ok], sc, 1e-11), "identical to the conserved Jacobian", got=ex[ok], want=j[ok])
    # Euler relation on the simplex: sum_i phi_i mu_i = f (absent components drop out)
    fs = np.asarray(f.free_energy_density(arg)).reshape(P)
    for a, p in enumerate(raw):
        if abs(sum(p) - 1) < 1e-9:
            g = sum(x * y for x, y in zip(p, mus[a]) if x > 0)
            ensure(abs(g - fs[a]) <= 1e-10 * sc, "sum of phi_i mu_i equals f", got=g, want=float(fs[a]))
    if n < 2:
        from lib.harness import Trivial
        raise Trivial("one component")
    return ["zeros" if any(0.0 in p for p in raw) else "interior", m["kind"]]


@st.composite
def strat_path(draw):
    m = draw(fe.model(5))
    n = fe.num_comp(m)
    return {"model": m, "phi": draw(gen.mild_composition(n)), "i": draw(st.integers(0, n - 1)),
            "k": draw(st.integers(0, n - 1))}


def check_extensive(case):
    """mu_i is the response of the total free energy to adding volume of component i

    F(V_1..V_N) = V f(V_i/V), V = sum V_i; only reported free energies are used.
    """
    m = case["model"]
    f = fe.build(m)
    v0 = np.array(case["phi"])
    i, k = case["i"], case["k"]

    def F(t):
        v = v0.copy()
        v[i] += t
        return v.sum() * float(f.free_energy_density(v / v.sum()))

    eps = 1e-3 * v0.min()
    d = (-F(2 * eps) + 8 * F(eps) - 8 * F(-eps) + F(-2 * eps)) / (12 * eps)
    mu = np.asarray(f.chemical_potentials([case["phi"]])).reshape(-1)
    sc = ref.scale_of(fe.ref_chis(m)) + max(1 / s for s in fe.ref_sizes(m)) * 8
    tol = (2e-11 / eps + 1e-8) * sc
    ensure(abs(mu[i] - d) <= tol, "chemical potential is the response to added volume", got=float(mu[i]), want=d)
    p = float(np.asarray(f.pressure([case["phi"]], k)).reshape(-1)[0])
    ensure(abs(p + mu[k]) <= 1e-12 * sc * 10, "pressure", got=p, want=-mu[k])
    return m["kind"]


PARTS = [
    Part("formula", strat, check, 3000, 40000),
    Part("extensive", strat_path, check_extensive, 1500, 15000),
]
