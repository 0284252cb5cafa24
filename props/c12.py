"""C12: grand canonical results are in equilibrium with the prescribed reservoir."""
import math

import numpy as np
from hypothesis import strategies as st

import flory
from lib import gen, ref, systems as S
from lib.build import FAST, conv, rng, run_open
from lib.harness import Part, Trivial, ensure

RULE = (
    "cases draw a mixture (plain or polydispersed) and a reservoir given by activities or by chemical potentials, run the "
    "finder to the stationary state and compare every compartment with the reservoir. Non-trivial = the run converged"
)


@st.composite
def strat(draw):
    s = draw(S.system())
    n = sum(s["counts"])
    how = draw(st.sampled_from(["phase", "free", "mus"]))
    return {"sys": s, "how": how, "c": draw(gen.ratio(-2, 2, 10)), "set": draw(st.booleans()),
            "free": draw(st.lists(st.one_of(gen.ratio(-2.0, 1.5, 100), gen.ratio(-2.0, 1.5, 100), gen.ratio(-12.0, 1.5, 100)), min_size=n, max_size=n)),
            "seed": draw(gen.SEED), "parts": draw(st.sampled_from([4, 8, 2, 1, 12])),
            "tol": draw(st.sampled_from([1e-6, 1e-7, 1e-5])), "std": draw(st.sampled_from([2.0, 1.0, 5.0]))}


def reservoir(case):
    """ln of the scaled activities and the ensemble"""
    s = case["sys"]
    n, l = S.ncomp(s), np.array(s["sizes"])
    if case["how"] == "phase":
        la = np.log(s["phi"]) + l * (np.array(s["phi"]) @ np.array(S.full_chis(s)) + case["c"])
        return la, flory.GrandCanonicalEnsemble(n, np.exp(la))
    free = np.array(case["free"])
    if case["how"] == "free":
        return free, flory.GrandCanonicalEnsemble(n, np.exp(free))
    return np.log(l) + l * free, flory.GrandCanonicalEnsemble.from_chemical_potential(n, free, l)


def supply(case):
    """the ensemble as constructed, or one that is given its activities later"""
    la, e = reservoir(case)
    if case.get("set"):
        a, e = e.scaled_activity, flory.GrandCanonicalEnsemble(e.num_comp, 0.7)
        e.scaled_activity = a
    return la, e


def judge(p, s, la, tol):
    l = np.array(s["sizes"])
    fr = p.fractions
    ensure(np.abs(fr.sum(axis=1) - 1).max() <= 1.01 * tol + 1e-12, "every phase is filled completely", got=fr.sum(axis=1))
    lt = S.log_terms(fr, s) - la / l
    xi = -lt.mean(axis=1, keepdims=True)
    ensure(np.abs(lt + xi).max() <= 20 * tol, "composition of every phase follows from the reservoir", got=lt + xi)
    chi = np.array(S.full_chis(s))
    gp = -0.5 * np.einsum("mi,ij,mj->m", fr, chi, fr) - (fr / l).sum(axis=1) - xi[:, 0]
    ensure(np.ptp(gp) <= 50 * tol, "pressure is the same in all phases", got=gp)
    # every result is a critical point of the grand potential among filled compositions, so the exchange
    # potentials equal those of the reservoir
    mu_v = np.array([ref.grad(x, chi.tolist(), s["sizes"]) for x in fr]) - (la / l + 1 / l)
    ex = mu_v - mu_v[:, [0]]
    ensure(np.abs(ex).max() <= 40 * tol, "exchange chemical potentials equal those of the reservoir", got=ex)


def check(case):
    s = case["sys"]
    la, ens = supply(case)
    i, e, _ = S.objects(s)
    f = flory.CoexistingPhasesFinder(i, e, ens, num_part=case["parts"], rng=rng(case["seed"]),
                                     **{**FAST, "max_steps": 100_000, "tolerance": case["tol"], "random_std": case["std"]})
    p = run_open(f)
    ensure(p.volumes.shape == (case["parts"],) and p.fractions.shape == (case["parts"], S.ncomp(s)), "shape of the result")
    ensure(np.all(np.isfinite(p.fractions)) and np.all(p.fractions >= 0) and abs(p.volumes.sum() - 1) < 1e-9 and np.all(p.volumes > 0),
           "valid phases", got=(p.volumes, p.fractions))
    if not conv(f, case["tol"]):
        raise Trivial("not converged")
    judge(p, s, la, case["tol"])
    return [s["kind"], case["how"], f"phases{p.get_clusters().num_phases}"]


@st.composite
def strat_mu(draw):
    n = draw(st.integers(1, 6))
    return {"n": n, "act": draw(st.one_of(gen.ratio(0.01, 9, 100), st.integers(1, 4), st.lists(st.integers(-120, 40).map(lambda k: 10 ** (k / 10)), min_size=n, max_size=n))),
            "array": draw(st.booleans()), "mus": draw(st.one_of(gen.ratio(-30, 30, 50), gen.ratio(-5, 3, 100), st.integers(-4, 3), st.lists(gen.ratio(-5, 3, 100), min_size=n, max_size=n))),
            "sizes": draw(st.one_of(st.none(), gen.ratio(0.25, 9, 100), st.integers(1, 9), gen.sizes(n)))}


def check_mu(case):
    n = case["n"]
    e = flory.GrandCanonicalEnsemble.from_chemical_potential(n, case["mus"], *([] if case["sizes"] is None else [case["sizes"]]))
    mus = np.broadcast_to(np.array(case["mus"], float), (n,))
    l = np.broadcast_to(np.array(1.0 if case["sizes"] is None else case["sizes"], float), (n,))
    want = np.array([a * math.exp(a * m) for a, m in zip(l, mus)])
    ensure(e.num_comp == n and e.scaled_activity.shape == (n,), "one activity per component")
    ensure(np.allclose(e.scaled_activity, want, rtol=1e-12), "activities follow from chemical potentials", got=e.scaled_activity, want=want)
    act = np.broadcast_to(np.array(case["act"], float), (n,))
    given = np.array(case["act"]) if case["array"] else case["act"]
    for e2 in (flory.GrandCanonicalEnsemble(n, given), e):
        e2.scaled_activity = given
        ensure(e2.scaled_activity.shape == (n,) and np.array_equal(e2.scaled_activity, act), "activities are those that were given", got=e2.scaled_activity, want=act)
        # what the numerics sees: fractions are activities times Boltzmann factors per volume
        c = e2.compiled()
        w = np.arange(1.0, n + 1)[:, None] * np.array([[1.0, 0.5]])
        phis, masks = w.copy(), np.ones(2)
        inc = c.normalize(phis, np.ones(n), masks)
        ensure(np.allclose(phis, act[:, None] * w, rtol=1e-12, atol=0) and np.allclose(inc, (act[:, None] * w).sum(axis=0) - 1, atol=1e-12 * max(1.0, (act[:, None] * w).sum())),
               "fractions are activities times Boltzmann factors", got=(phis, inc), want=act)


@st.composite
def strat_pair(draw):
    return {"sizes": draw(gen.sizes(2, st.sampled_from([1.0, 2.0, 3.0, 1.5, 0.5]))), "factor": draw(st.sampled_from([1.5, 2.0, 1.3, 3.0])),
            "diag": draw(st.sampled_from([[0.0, 0.0], [1.0, -2.0], [-1.5, -1.5]])), "side": draw(st.integers(0, 1)),
            "off": draw(st.sampled_from([0.0, 0.0, 0.05, -0.05, 0.2, -0.2])), "seed": draw(gen.SEED), "parts": draw(st.sampled_from([8, 6, 12]))}


def check_pair(case):
    """reservoir at (or displaced from) the coexistence of a binary mixture, known from the common tangent"""
    l1, l2 = case["sizes"]
    eff = 0.5 * (l1 ** -0.5 + l2 ** -0.5) ** 2 * case["factor"]
    a, b = ref.binary_coexistence(eff, l1, l2)
    d1, d2 = case["diag"]
    chi = eff + 0.5 * (d1 + d2)
    x = (a, b)[case["side"]]
    s = {"kind": "fh", "counts": [1, 1], "chis": [[d1, chi], [chi, d2]], "sizes": case["sizes"], "phi": [x, 1 - x]}
    l = np.array(case["sizes"])
    la = np.log(s["phi"]) + l * (np.array(s["phi"]) @ np.array(s["chis"]))
    la[0] += l1 * case["off"]
    i, e, _ = S.objects(s)
    f = flory.CoexistingPhasesFinder(i, e, flory.GrandCanonicalEnsemble(2, np.exp(la)), num_part=case["parts"],
                                     rng=rng(case["seed"]), **{**FAST, "max_steps": 100_000, "tolerance": 1e-6})
    p = run_open(f)
    if not conv(f, 1e-6):
        raise Trivial("not converged")
    judge(p, s, la, 1e-6)
    xs = p.fractions[:, 0]
    if case["off"] == 0:
        if np.ptp(xs) < 1e-3 and a + 0.01 < xs.min() and xs.max() < b - 0.01:
            return "unstable"  # the third solution has another pressure and thus cannot coexist with the others
        d = np.minimum(np.abs(xs - a), np.abs(xs - b))
        ensure(d.max() < 1e-3, "phases are the coexisting ones at the coexistence reservoir", got=xs, want=(a, b))
        return "coexisting"
    # away from coexistence the pressures differ, so that at most one kind of phase remains
    ensure(np.ptp(xs) < 1e-3, "a single phase away from coexistence", got=xs)
    return "displaced"


def _warm():
    for w in (0, 1):
        s = {"kind": ["fh", "poly"][w], "counts": [1, 2] if w else [1, 1], "chis": [[0, 3.0], [3.0, 0]],
             "sizes": [1.0, 2.0, 1.0][: 2 + w], "phi": [0.4, 0.3, 0.3] if w else [0.4, 0.6]}
        try:
            check({"sys": s, "how": "phase", "c": 0.0, "free": [], "seed": 0, "parts": 2, "tol": 1e-5, "std": 1.0})
        except Trivial:
            pass


PARTS = [
    Part("reservoir", strat, check, 800, 8000, warmup=_warm, nontrivial_floor=0.6),
    Part("coexistence", strat_pair, check_pair, 400, 4000, nontrivial_floor=0.5),
    Part("potentials", strat_mu, check_mu, 1600, 16000),
]
