"""C25: a constraint acts on the iteration with exactly the forces of its documented energy."""
import numpy as np
from hypothesis import strategies as st

import flory
from lib import gen
from lib.build import rng
from lib.harness import Part, Trivial, ensure

RULE = (
    "cases draw a local or global constraint (1-3 rows, 1-4 features, coefficients and targets, elasticity and acceptance ratio given or default), "
    "1-6 compartments of which some are dead, and a history of 1-6 steps (new fractions and volumes, forces compared with the documented energy, "
    "evolution of the multipliers with a drawn step, re-initialisation for another number of compartments). The oracle is the documented "
    "energy: forces are checked both against its analytic gradient in a plain model and against central differences. "
    "Non-trivial = the constraint was violated in some living compartment when the forces were taken"
)


@st.composite
def strat(draw):
    nf, na, M = draw(st.sampled_from([1, 2, 3, 4, 2, 3, 7])), draw(st.sampled_from([1, 2, 3, 1, 2, 5])), draw(st.sampled_from([1, 2, 3, 4, 5, 6, 3, 4, 20]))
    steps = []
    for _ in range(draw(st.integers(1, 6))):
        steps.append({"seed": draw(gen.SEED), "step": draw(st.sampled_from([0.02, 0.5, 1.0, 0.0, 3.0])),
                      "dead": draw(st.lists(st.booleans(), min_size=20, max_size=20)), "init": draw(st.sampled_from([None, None, None, 1, 3, 6, 20]))})
    e = st.sampled_from([1.0, 0.0, -1.0, 0.5, 2.0, -0.7, 3.25])
    return {"kind": draw(st.sampled_from(["local", "global"])), "M": M, "Cs": [draw(st.lists(e, min_size=nf, max_size=nf)) for _ in range(na)],
            "Ts": draw(st.lists(gen.ratio(-1, 1.5, 20), min_size=na, max_size=na)), "ela": draw(st.sampled_from([None, 0.0, 0.5, 1.0, 4.0])),
            "acc": draw(st.sampled_from([None, 1.0, 0.25, 3.0])), "steps": steps, "redundant": draw(st.booleans()),
            "reset": draw(st.booleans())}


def energy(kind, C, T, xi, kappa, phi, J):
    r = C @ phi - T[:, None]
    if kind == "local":
        return float((J * (xi * r + kappa * r**2)).sum())
    R = (J * r).sum(axis=1)
    return float(xi @ R + kappa * (R**2).sum())


def check(case):
    kind, C, T = case["kind"], np.array(case["Cs"]), np.array(case["Ts"])
    na, nf = C.shape
    cls = flory.LinearLocalConstraint if kind == "local" else flory.LinearGlobalConstraint
    obj = cls(nf, C, T)
    kw = {}
    if case["ela"] is not None:
        kw["constraint_elasticity"] = case["ela"]
    if case["acc"] is not None:
        kw["constraint_acceptance_ratio"] = case["acc"]
    if case["redundant"]:
        kw["additional_chis_shift"] = 2.0  # options of other parts are ignored
    kappa = 1.0 if case["ela"] is None else case["ela"]
    acc = 1.0 if case["acc"] is None else case["acc"]
    c = obj.compiled(**kw)
    ensure(c.num_feat == nf, "number of features", got=c.num_feat, want=nf)
    M = case["M"]
    c.initialize(M)
    xi = np.zeros((na, M)) if kind == "local" else np.zeros(na)
    interesting = 0
    for s in case["steps"]:
        if s["init"] is not None:
            M = s["init"]
            c.initialize(M)
            xi = np.zeros((na, M)) if kind == "local" else np.zeros(na)
        g = rng(s["seed"])
        phi = np.ascontiguousarray(g.dirichlet(np.ones(nf), size=M).T) if nf > 1 else np.ones((1, M)) * g.uniform(0.3, 1.2, M)
        masks = np.array([0.0 if d else 1.0 for d in s["dead"][:M]])
        if not masks.any():
            masks[0] = 1.0
        J = g.uniform(0.2, 2.5, M) * masks
        phi = np.ascontiguousarray(phi * masks)
        phi0, J0, m0 = phi.copy(), J.copy(), masks.copy()
        c.prepare(phi, J, masks)
        ensure(np.array_equal(phi, phi0) and np.array_equal(J, J0) and np.array_equal(masks, m0), "the state of the iteration is not modified")
        live = masks > 0
        r = C @ phi - T[:, None]
        if kind == "local":
            F = C.T @ (xi + 2 * kappa * r)
            V = (r * (xi + kappa * r)).sum(axis=0)
            res = r * masks
        else:
            R = (J * r).sum(axis=1)
            F = np.repeat((C.T @ (xi + 2 * kappa * R))[:, None], M, axis=1)
            V = ((xi + 2 * kappa * R)[:, None] * r).sum(axis=0)
            res = R / J.sum()
        F, V = F * masks, V * masks
        pot, vol = np.array(c.potential), np.array(c.volume_derivative)
        scale = 1 + np.abs(F).max() + np.abs(V).max()
        ensure(pot.shape == (nf, M) and vol.shape == (M,), "one force per feature and compartment", got=(pot.shape, vol.shape), want=(nf, M))
        ensure(np.abs(pot - F).max() < 1e-10 * scale, "force on the fractions is the derivative of the documented energy", got=pot, want=F)
        ensure(np.abs(vol - V).max() < 1e-10 * scale, "force on the volumes is the derivative of the documented energy", got=vol, want=V)
        # the same, without trusting the algebra of this file
        h = 1e-5
        k = int(np.flatnonzero(live)[g.integers(live.sum())])
        q = int(g.integers(nf))

        def e(dphi, dJ):
            p2, J2 = phi.copy(), J.copy()
            p2[q, k] += dphi
            J2[k] += dJ
            # dead compartments have no volume and do not contribute
            return energy(kind, C, T, xi, kappa, p2, J2)

        dphi = (e(h, 0) - e(-h, 0)) / (2 * h) / J[k]
        dJ = (e(0, h) - e(0, -h)) / (2 * h)
        ensure(abs(dphi - pot[q, k]) < 1e-5 * scale and abs(dJ - vol[k]) < 1e-5 * scale, "forces agree with finite differences of the energy",
               got=(pot[q, k], vol[k]), want=(dphi, dJ))
        got = c.evolve(s["step"], masks)
        ensure(abs(got - np.abs(res).max()) < 1e-10 * (1 + np.abs(res).max()), "the reported residue is the largest violation", got=got, want=np.abs(res).max())
        ensure(np.array_equal(masks, m0), "the state of the iteration is not modified")
        xi = xi + s["step"] * acc * res
        if kind == "local":
            xi = xi * masks
        if np.abs(res).max() > 1e-6:
            interesting += 1
    if not interesting:
        raise Trivial("constraint satisfied")
    return [kind, "dead compartments" if any(any(s["dead"][:M]) for s in case["steps"]) else "all living"]


def check_none(case):
    """the absence of a constraint exerts no force"""
    nf, M = case["nf"], case["M"]
    c = flory.constraint.NoConstraint(nf).compiled(constraint_elasticity=3.0)
    c.initialize(M)
    g = rng(case["seed"])
    phi, J, masks = np.ascontiguousarray(g.dirichlet(np.ones(nf), size=M).T), g.uniform(0.5, 2, M), np.ones(M)
    for _ in range(2):
        c.prepare(phi, J, masks)
        ensure(np.shape(c.potential) == (nf, M) and not np.any(c.potential), "no force on the fractions", got=c.potential)
        ensure(np.shape(c.volume_derivative) == (M,) and not np.any(c.volume_derivative), "no force on the volumes", got=c.volume_derivative)
        ensure(c.evolve(0.5, masks) == 0, "no residue")
    return "none"


def warm():
    base = {"M": 2, "Cs": [[1.0, 0.5]], "Ts": [0.1], "ela": None, "acc": None, "redundant": False, "reset": False,
            "steps": [{"seed": 0, "step": 0.5, "dead": [False] * 6, "init": None}]}
    for k in ("local", "global"):
        try:
            check({**base, "kind": k})
        except AssertionError:
            pass


PARTS = [Part("forces", strat, check, 16000, 240000, warmup=warm),
         Part("unconstrained", lambda: st.fixed_dictionaries({"nf": st.integers(1, 4), "M": st.integers(1, 6), "seed": gen.SEED}), check_none, 200, 1000)]
