"""C09: the canonical finder conserves material, fills space and returns volume fractions."""
import numpy as np
from hypothesis import strategies as st

import flory
from lib import gen, model, ref, systems as S
from lib.build import FAST, conv
from lib.harness import Part, Trivial, ensure

RULE = (
    "cases draw a canonical mixture (2-5 components, plain or polydispersed, unequal sizes), compartments, seed and "
    "numerical parameters; part 'converged' runs to the stationary state, part 'anytime' stops after a generated "
    "number of steps; part 'tiny' chooses the step bound such that a compartment has almost vanished at the end and compares with the reference model. Non-trivial = the run converged / no compartment can have died yet"
)


@st.composite
def strat(draw):
    s = draw(S.system())
    return {"sys": s, "seed": draw(gen.SEED), "parts": draw(st.sampled_from([8, 6, 9, 12, 16, 3, 2, 1, 40])),
            "tol": draw(st.sampled_from([1e-5, 1e-6, 1e-7, 1e-8])),
            "std": draw(st.sampled_from([0.5, 2.0, 5.0])),
            "kill": draw(st.sampled_from([0.0, 0.0, 0.01, 0.05])),
            "revive": draw(st.sampled_from([0, 1, 16]))}


def basic(p, n, parts):
    ensure(p.volumes.shape == (parts,) and p.fractions.shape == (parts, n), "one row per compartment, one column per component",
           got=(p.volumes.shape, p.fractions.shape))
    ensure(np.all(np.isfinite(p.fractions)) and np.all(np.isfinite(p.volumes)), "finite numbers")
    ensure(np.all(p.fractions >= 0), "fractions are not negative", got=p.fractions.min())
    ensure(np.all(p.volumes > 0), "volumes are positive", got=p.volumes)
    ensure(abs(p.volumes.sum() - 1) < 1e-9, "volumes are fractions of the total volume", got=p.volumes.sum())


def check(case):
    s = case["sys"]
    f = S.finder(s, case["seed"], case["parts"], tolerance=case["tol"], random_std=case["std"],
                 kill_threshold=case["kill"], max_revive_per_compartment=case["revive"], max_steps=60_000)
    p = f.run()
    n = S.ncomp(s)
    basic(p, n, case["parts"])
    if not conv(f, case["tol"]):
        raise Trivial("not converged")
    tol = case["tol"]
    phi = np.array(s["phi"])
    ensure(np.abs(p.fractions.sum(axis=1) - 1).max() <= 1.01 * tol + 1e-12, "every phase is filled completely",
           got=np.abs(p.fractions.sum(axis=1) - 1).max(), tol=tol)
    err = np.abs(p.volumes @ p.fractions - phi).max()
    ensure(err <= tol + 1e-10, "mean fractions equal the prescribed ones", got=p.volumes @ p.fractions, want=phi, tol=tol)
    c = p.get_clusters()
    ensure(abs(c.volumes.sum() - 1) < 1e-9, "cluster volumes add up", got=c.volumes)
    ensure(np.abs(c.mean_fractions - phi).max() <= tol + 1e-10, "clusters conserve material", got=c.mean_fractions, want=phi)
    return [s["kind"], "multi" if c.num_phases > 1 else "single", f"kill{case['kill'] > 0}"]


@st.composite
def strat_any(draw):
    s = draw(S.system())
    bound = draw(st.sampled_from([1e-4, 1e-3, 1e-2]))
    return {"sys": s, "seed": draw(gen.SEED), "parts": draw(st.one_of(st.integers(2, 16), st.integers(4, 16), st.sampled_from([1, 33, 64]))), "bound": bound,
            "steps": draw(st.integers(1, min(400, int(0.8 / bound)))), "std": draw(st.sampled_from([0.2, 1.0, 3.0])),
            "aJ": draw(st.sampled_from([2e-4, 2e-3, 1e-2])), "aw": draw(st.sampled_from([2e-3, 2e-2]))}


def check_any(case):
    """no compartment can die within the generated number of steps, so material is conserved at every step"""
    s = case["sys"]
    f = S.finder(s, case["seed"], case["parts"], random_std=case["std"], Js_step_upper_bound=case["bound"],
                 acceptance_Js=case["aJ"], acceptance_omega=case["aw"], max_steps=case["steps"], interval=10_000, tolerance=1e-12)
    p = f.run()
    n = S.ncomp(s)
    basic(p, n, case["parts"])
    ensure(f.diagnostics["revive_count_left"] == 16 * case["parts"], "no compartment was revived", got=f.diagnostics["revive_count_left"])
    # volumes are those after the last update, which moves them by at most the bound
    err = np.abs(p.volumes @ p.fractions - np.array(s["phi"]))
    ensure(np.all(err <= 2.5 * case["bound"] * p.fractions.max(axis=0) + 1e-9),
           "mean fractions stay at the prescribed ones in every step", got=p.volumes @ p.fractions, want=s["phi"])
    if case["parts"] == 1:
        raise Trivial("one compartment")
    return s["kind"]


@st.composite
def strat_tiny(draw, combo):
    case = draw(model.strat(combo))
    case.update(aj=10.0, aw=draw(st.sampled_from([0.0, 0.01])), kill=0.0, k=draw(st.integers(1, 6)), M=draw(st.sampled_from([2, 3, 4, 6, 9])),
                target=draw(st.sampled_from([1e-3, 1e-2, 1e-4, 1e-5, 5e-4])))
    return case


def check_tiny(case):
    """compartments that have almost vanished count with their volume"""
    k, t = case["k"], case["target"]

    def state(b):
        path = model.follow({**case, "bound": b}, k)
        return path[-1] if len(path) == k else None

    lo, hi = 0.0, 2.0
    s = None
    for _ in range(60):
        b = 0.5 * (lo + hi)
        s = state(b)
        low = -1.0 if s is None else s["J"].min()
        if 0.5 * t < low < 2 * t:
            break
        if low > t:
            lo = b
        else:
            hi = b
    if s is None or not 0.5 * t < s["J"].min() < 2 * t or s["tol"] > 1e-6:
        raise Trivial("no compartment almost vanishes")
    case = {**case, "bound": b}
    f = model.build(case)
    f.reinitialize_from_omegas(model.fields(case))
    p = f.run(max_steps=k)
    vol = s["J"] / s["J"].sum()
    ensure(np.abs(p.volumes - vol).max() <= s["tol"], "compartments keep their volumes in the result", got=p.volumes, want=vol)
    ensure(model.close(p.fractions, s["phi"].T, s["tol"]), "compartments keep their compositions in the result", got=p.fractions, want=s["phi"].T)
    want = vol @ s["phi"].T
    ensure(np.abs(p.mean_fractions - want).max() <= 10 * s["tol"], "amounts in the result are those of the state", got=p.mean_fractions, want=want)
    return f"{t:g}"


PARTS = [
    Part("tiny-fh", lambda: strat_tiny("fh-c"), check_tiny, 300, 3000),
    Part("tiny-poly", lambda: strat_tiny("poly-c"), check_tiny, 200, 2000),
    Part("converged", strat, check, 700, 8000, warmup=S.warm_both, nontrivial_floor=0.6),
    Part("anytime", strat_any, check_any, 1200, 12000),
]
