"""C30: user-defined parts which implement the documented interfaces work like the built-in ones."""
import numpy as np
from hypothesis import strategies as st

import flory
from lib import custom, gen, systems as S
from lib.build import FAST, conv, rng, run_open
from lib.harness import Part, Trivial, ensure

RULE = (
    "cases draw user-defined parts: an interaction with cubic terms, an entropy of copolymers (components made of features), an ensemble in "
    "which some components are exchanged with a reservoir, and a constraint which is an external field plus an optional local condition. Part 'twin' "
    "chooses parameters for which they coincide with built-in parts and compares the states after some steps; part 'equilibrium' judges converged runs by "
    "the equilibrium conditions of the user's energy; part 'energy' judges the thermodynamic functions, part 'absent' those of a user's energy with diverging derivatives. Non-trivial = not the trivial parameters, converged"
)


@st.composite
def strat(draw):
    nf = draw(st.integers(2, 3))
    extra = draw(st.integers(0, 2))
    g = [[1.0 if r == i else 0.0 for r in range(nf)] for i in range(nf)]
    for _ in range(extra):
        w = draw(st.lists(st.integers(1, 5), min_size=nf, max_size=nf))
        g.append([x / sum(w) for x in w])
    n = len(g)
    s = draw(st.sampled_from([3.0, 2.0, 4.0, 1.0]))
    cons = None
    if nf == 3 and draw(st.booleans()):
        cons = draw(st.sampled_from([[1.0, -1.0, 0.0], [0.0, 1.0, 0.5], [1.0, 0.0, 0.0]]))
    return {"g": g, "chis": draw(gen.symmetric(nf, -s, 2 * s, 0.0)), "cubic": draw(st.lists(gen.ratio(-1, 1, 100), min_size=nf, max_size=nf)),
            "sizes": draw(gen.sizes(n, S.MILD_SIZE)), "phi": draw(gen.mild_composition(n, 0.1)), "h": draw(st.lists(gen.ratio(-1, 1, 100), min_size=nf, max_size=nf)),
            "open": draw(st.one_of(st.just([0] * n), st.lists(st.integers(0, 1), min_size=n, max_size=n))),
            "la": draw(st.lists(gen.ratio(-1.5, 1.0, 100), min_size=n, max_size=n)), "C": cons,
            "seed": draw(gen.SEED), "parts": draw(st.sampled_from([6, 4, 8, 3])), "tol": draw(st.sampled_from([1e-6, 1e-7])),
            "stiffness": draw(st.sampled_from([None, 0.5, 3.0]))}


def parts_of(case):
    g, phi = np.array(case["g"]), np.array(case["phi"])
    T = 0.0 if case["C"] is None else float(np.array(case["C"]) @ (phi @ g))
    return (custom.Cubic(case["chis"], case["cubic"], num_comp=len(g)), custom.Copolymer(case["sizes"], g),
            custom.Mixed(phi, np.exp(case["la"]), case["open"]), custom.Field(case["h"], case["C"], T)), T


def check(case):
    """stationary states of the finder are equilibria of the user's model"""
    (i, e, m, c), T = parts_of(case)
    kw = {} if case["stiffness"] is None else {"stiffness": case["stiffness"]}
    tol = case["tol"]
    f = flory.CoexistingPhasesFinder(i, e, m, c, num_part=case["parts"], rng=rng(case["seed"]), **{**FAST, "max_steps": 60_000, "tolerance": tol, "random_std": 2.0}, **kw)
    p = run_open(f)
    if not conv(f, tol):
        raise Trivial("not converged")
    g, l, fr = np.array(case["g"]), np.array(case["sizes"]), p.fractions
    chis, k, h, op = np.array(case["chis"]), np.array(case["cubic"]), np.array(case["h"]), np.array(case["open"], bool)
    feat = fr @ g
    ensure(np.abs(fr.sum(axis=1) - 1).max() <= 1.01 * tol + 1e-12, "every phase is filled completely", got=fr.sum(axis=1))
    mean = p.volumes @ fr
    ensure(np.abs(mean - case["phi"])[~op].max(initial=0.0) <= tol + 1e-10, "fixed amounts are conserved", got=mean, want=case["phi"])
    du = feat @ chis + 3 * k * feat**2 + h
    u = 0.5 * np.einsum("mr,rs,ms->m", feat, chis, feat) + (k * feat**3).sum(axis=1) + feat @ h
    lt = np.log(fr) / l + du @ g.T
    # ln phi_i / l_i + sum_r g_ir (dU/dphi_r + lambda_m C_r) + xi_m is the same in all phases and ln a_i / l_i for open components
    basis = [np.ones(len(g))]
    if case["C"] is not None:
        r = np.abs(feat @ np.array(case["C"]) - T).max()
        ensure(r <= 1.01 * tol + 1e-12, "the user's condition holds in every phase", got=r)
        basis.append(g @ np.array(case["C"]))
    A = np.array(basis).T
    scale = 16 * tol * (1 + max(map(abs, map(float, chis.ravel()))))
    if op.any():
        # reference: reservoir for open components; closed ones have unknown constants
        mult = []
        for row in lt:
            d = (row - np.array(case["la"]) / l)[op]
            x, *_ = np.linalg.lstsq(A[op], -d, rcond=None)
            mult.append(x)
            ensure(np.abs(d + A[op] @ x).max() <= scale, "open components are in equilibrium with their reservoir", got=d + A[op] @ x)
        if np.linalg.matrix_rank(A[op]) < A.shape[1]:
            return judge_pair(case, lt, A, scale, fr)
        bal = lt + np.array(mult) @ A.T
        ensure(np.abs(bal - bal.mean(axis=0)).max() <= 4 * scale, "all components are balanced between the phases", got=bal)
        x = np.array(mult)
    else:
        return judge_pair(case, lt, A, scale, fr)
    # equal pressure: u - sum phi/l - sum (w) phi with w = dU + xi + lambda C
    pr = u - (fr / l).sum(axis=1) - ((du @ g.T + x @ A.T) * fr).sum(axis=1)
    ensure(np.ptp(pr) <= 8 * scale, "all phases have the same pressure", got=pr)
    return ["open", "constrained" if case["C"] is not None else "free"]


def judge_pair(case, lt, A, scale, fr):
    d = lt - lt[0]
    for row in d:
        x, *_ = np.linalg.lstsq(A, -row, rcond=None)
        ensure(np.abs(row + A @ x).max() <= scale, "phases are balanced up to the forces of filling and condition", got=row + A @ x)
    c = flory.Phases(np.ones(len(fr)), fr).get_clusters()
    return ["closed" if not any(case["open"]) else "partly", "constrained" if case["C"] is not None else "free", f"phases{min(3, c.num_phases)}"]


@st.composite
def strat_twin(draw):
    n = draw(st.integers(2, 4))
    return {"n": n, "chis": draw(gen.symmetric(n, -3, 6)), "sizes": draw(gen.sizes(n, S.MILD_SIZE)), "phi": draw(gen.mild_composition(n, 0.08)),
            "seed": draw(gen.SEED), "parts": draw(st.sampled_from([4, 2, 7])), "steps": draw(st.integers(1, 80)), "kill": draw(st.sampled_from([0.0, 0.0, 0.9])),
            "C": draw(st.one_of(st.none(), st.lists(st.sampled_from([1.0, 0.0, -1.0, 0.5]), min_size=n, max_size=n))), "T": draw(gen.ratio(-0.5, 0.8, 10)),
            "gc": draw(st.booleans())}


def check_twin(case):
    """the same model written by the user gives the same states as the built-in one"""
    n = case["n"]
    o = {**FAST, "num_part": case["parts"], "kill_threshold": case["kill"], "random_std": 2.0, "max_revive_per_compartment": 2, "tolerance": 1e-13, "interval": 7}
    fe = flory.FloryHuggins(n, case["chis"], case["sizes"])
    ens = flory.GrandCanonicalEnsemble(n, case["phi"]) if case["gc"] else flory.CanonicalEnsemble(n, case["phi"])
    con = flory.LinearLocalConstraint(n, np.zeros(n) if case["C"] is None else case["C"], 0.0 if case["C"] is None else case["T"])
    a = flory.CoexistingPhasesFinder(fe.interaction, fe.entropy, ens, con, rng=rng(case["seed"]), **o)
    chis = np.array(case["chis"])
    b = flory.CoexistingPhasesFinder(custom.Cubic(chis, np.zeros(n)), custom.Copolymer(case["sizes"], np.eye(n)),
                                     custom.Mixed(case["phi"], case["phi"], [int(case["gc"])] * n), custom.Field(np.zeros(n), case["C"], case["T"]),
                                     rng=rng(case["seed"]), **o)
    ensure(np.array_equal(a.omegas, b.omegas), "same random start fields", got=b.omegas, want=a.omegas)
    pa = run_open(a, max_steps=case["steps"])
    if not np.all(np.isfinite(a.omegas)) or np.abs(a.omegas).max() > 1e3:
        raise Trivial("diverging iteration")
    pb = run_open(b, max_steps=case["steps"])
    da, db = a.diagnostics, b.diagnostics
    if case["kill"] and da["revive_count_left"] != 2 * case["parts"]:
        # a threshold may be crossed one rounding error earlier
        raise Trivial("compartments died")
    ensure(np.allclose(pa.fractions, pb.fractions, rtol=1e-6, atol=1e-8) and np.allclose(pa.volumes, pb.volumes, rtol=1e-6, atol=1e-8), "same phases", got=pb.fractions, want=pa.fractions)
    ensure(np.allclose(a.omegas, b.omegas, rtol=1e-6, atol=1e-8), "same fields", got=b.omegas, want=a.omegas)
    for k in ("max_abs_incomp", "max_abs_omega_diff", "max_abs_js_diff", "max_constraint_residue", "revive_count_left", "steps"):
        ensure(np.isclose(da[k], db[k], rtol=1e-5, atol=1e-8), "same diagnostics", key=k, got=db, want=da)
    return ["constrained" if case["C"] else "free", "open" if case["gc"] else "closed"]


@st.composite
def strat_energy(draw):
    n = draw(st.integers(2, 5))
    return {"n": n, "chis": draw(gen.symmetric(n, -5, 5)), "cubic": draw(st.lists(gen.ratio(-3, 3, 100), min_size=n, max_size=n)), "sizes": draw(gen.sizes(n)),
            "phis": [draw(gen.mild_composition(n, 0.02)) for _ in range(draw(st.integers(1, 3)))], "builtin": draw(st.booleans()), "index": draw(st.integers(0, n - 1))}


def check_energy(case):
    n, l, chis, k = case["n"], np.array(case["sizes"]), np.array(case["chis"]), np.array(case["cubic"])
    entropy = flory.IdealGasEntropy(n, l) if case["builtin"] else custom.Copolymer(l, np.eye(n))
    f = flory.FreeEnergyBase(custom.Cubic(chis, k), entropy)
    ix = case["index"]
    phis = np.array(case["phis"])
    fv = np.array([(q * np.log(q) / l).sum() + 0.5 * q @ chis @ q + (k * q**3).sum() for q in phis])
    jv = np.array([(np.log(q) + 1) / l + chis @ q + 3 * k * q**2 for q in phis])
    hv = np.array([np.diag(1 / (l * q) + 6 * k * q) + chis for q in phis])
    mu = fv[:, None] - (phis * jv).sum(axis=1)[:, None] + jv
    t = dict(rtol=1e-9, atol=1e-9)
    ensure(np.allclose(f.free_energy_density(phis), fv, **t), "energy of a user-defined model", got=f.free_energy_density(phis), want=fv)
    ensure(np.allclose(f.jacobian(phis), jv, **t), "derivative of a user-defined model", got=f.jacobian(phis), want=jv)
    ensure(np.allclose(f.hessian(phis), hv, **t), "Hessian of a user-defined model", got=f.hessian(phis), want=hv)
    ensure(np.allclose(f.chemical_potentials(phis), mu, **t), "chemical potentials of a user-defined model", got=f.chemical_potentials(phis), want=mu)
    ensure(np.allclose(f.exchange_chemical_potentials(phis, ix), jv - jv[:, [ix]], **t), "exchange chemical potentials of a user-defined model")
    ensure(np.allclose(f.pressure(phis, ix), -mu[:, ix], **t), "osmotic pressure of a user-defined model")
    ensure(np.allclose(f.equilibration_error(phis), np.linalg.norm(mu - mu.mean(axis=0), axis=1), rtol=1e-8, atol=1e-8), "equilibration error of a user-defined model")
    P = np.delete(np.eye(n), ix, axis=1)
    P[ix] = -1
    red = np.array([P.T @ q @ P for q in hv])
    ensure(np.allclose(f.hessian(phis, ix), red, rtol=1e-8, atol=1e-8 * np.abs(hv).max()), "conserved Hessian of a user-defined model", got=f.hessian(phis, ix), want=red)
    ev = np.linalg.eigvalsh(red)
    if np.abs(ev).min() > 1e-6 * np.abs(ev).max():
        ensure(np.array_equal(f.num_unstable_modes(phis), (ev < 0).sum(axis=-1)), "unstable modes of a user-defined model", got=f.num_unstable_modes(phis), want=ev)
    if not k.any():
        raise Trivial("no cubic terms")
    return "builtin-entropy" if case["builtin"] else "own-entropy"


def xlogx(x):
    return np.where(x > 0, x * np.log(np.where(x > 0, x, 1.0)), 0.0)


class Singular(flory.InteractionBase):
    """u = 1/2 phi chi phi + sum_i a_i phi_i ln phi_i: derivatives diverge, their product with the fractions does not"""

    def __init__(self, chis, a):
        super().__init__(len(a))
        self.chis, self.a = np.array(chis, float), np.array(a, float)

    def _compiled_impl(self):
        raise NotImplementedError

    def _energy_impl(self, phis):
        return 0.5 * np.einsum("...i,ij,...j->...", phis, self.chis, phis) + (self.a * xlogx(phis)).sum(axis=-1)

    def _jacobian_impl(self, phis):
        with np.errstate(all="ignore"):
            return phis @ self.chis + self.a * (np.log(phis) + 1)

    def _jacobian_fractions_impl(self, phis):
        return phis * (phis @ self.chis) + self.a * (xlogx(phis) + phis)

    def _hessian_impl(self, phis):
        with np.errstate(all="ignore"):
            return self.chis + (self.a / phis)[..., None] * np.eye(len(self.a))


@st.composite
def strat_singular(draw):
    n = draw(st.integers(2, 5))
    return {"n": n, "chis": draw(gen.symmetric(n, -5, 5)), "a": draw(st.lists(st.sampled_from([0.5, 1.0, -0.25, 2.0]), min_size=n, max_size=n)), "sizes": draw(gen.sizes(n)),
            "phis": draw(st.lists(gen.composition_with_zeros(n), min_size=1, max_size=3)), "index": draw(st.integers(0, n - 1))}


def check_singular(case):
    """parts may provide the product of derivative and fraction, which is finite for absent components"""
    l, chis, a, phis = np.array(case["sizes"]), np.array(case["chis"]), np.array(case["a"]), np.array(case["phis"], float)
    f = flory.FreeEnergyBase(Singular(chis, a), flory.IdealGasEntropy(case["n"], l))
    with np.errstate(all="ignore"):
        mu, pr = f.chemical_potentials(phis), f.pressure(phis, case["index"])
    for q, got, g in zip(phis, mu, pr):
        on = q > 0
        c = (1 / l + a)[on]
        fv = (c * q[on] * np.log(q[on])).sum() + 0.5 * q @ chis @ q
        j = c * (np.log(q[on]) + 1) + (chis @ q)[on]
        want = fv - (q[on] * j).sum() + j
        ensure(np.allclose(got[on], want, rtol=1e-9, atol=1e-9), "chemical potentials of the present components", got=got, want=want, phi=q)
        if on[case["index"]]:
            ensure(np.isclose(g, -want[on[:case["index"]].sum()], rtol=1e-9, atol=1e-9), "osmotic pressure of a present component", got=g, want=want)
    if np.all(phis > 0):
        raise Trivial("all components are present")
    return "absent"


def warm():
    for gc in (False, True):
        check_twin({"n": 2, "chis": [[0.0, 2.0], [2.0, 0.0]], "sizes": [1.0, 1.0], "phi": [0.4, 0.6], "seed": 0, "parts": 2, "steps": 2, "kill": 0.0, "C": None, "T": 0.0, "gc": gc})


PARTS = [
    Part("twin", strat_twin, check_twin, 1600, 16000, warmup=warm, nontrivial_floor=0.5),
    Part("equilibrium", strat, check, 320, 4000, nontrivial_floor=0.25),
    Part("absent", strat_singular, check_singular, 800, 8000),
    Part("energy", strat_energy, check_energy, 2400, 24000),
]
