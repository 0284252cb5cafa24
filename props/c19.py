"""C19: numerical options and physically irrelevant changes of the parameters do not change the physics."""
import numpy as np
from hypothesis import strategies as st

import flory
from lib import gen, systems as S
from lib.build import conv
from lib.harness import Part, Trivial, ensure
from props import c10

RULE = (
    "cases draw a canonical mixture and (gauge) per-component shifts chi_ij + a_i + a_j, (scale) a common factor of sizes and inverse factor of interactions, "
    "(shift) two values of the numerical chi shift, (perturbed) other acceptances, bounds and intervals; the converged result for one description must be an "
    "equilibrium for the other. Non-trivial = the run converged"
)


@st.composite
def strat(draw):
    s = draw(S.system())
    nf = len(s["counts"])
    return {"sys": s, "seed": draw(gen.SEED), "parts": draw(st.sampled_from([8, 6, 12])), "a": draw(st.lists(gen.ratio(-2, 2, 10), min_size=nf, max_size=nf)),
            "k": draw(st.sampled_from([0.5, 2.0, 1.5, 3.0])), "mode": draw(st.sampled_from(["gauge", "scale", "both"])), "shift": draw(st.sampled_from([None, 0.2, 4.0]))}


def check(case):
    s = case["sys"]
    a = np.array(case["a"]) if case["mode"] != "scale" else np.zeros(S.nfeat(s))
    k = case["k"] if case["mode"] != "gauge" else 1.0
    t = {**s, "chis": ((np.array(s["chis"]) + a[:, None] + a[None, :]) / k).tolist(), "sizes": (np.array(s["sizes"]) * k).tolist()}
    kw = {} if case["shift"] is None else {"additional_chis_shift": case["shift"]}
    tol = 1e-7
    f = S.finder(t, case["seed"], case["parts"], tolerance=tol, max_steps=60_000, **kw)
    p = f.run()
    if not conv(f, tol):
        raise Trivial("not converged")
    # energies of both descriptions differ by a linear function of the composition, which vanishes between equal means
    c10.judge(p, s, tol * max(1.0, k) * (1 + np.abs(a).max() * 4), case["parts"])
    ensure(np.abs(p.volumes @ p.fractions - s["phi"]).max() <= tol + 1e-10, "material is conserved")
    return [case["mode"], f"phases{p.get_clusters().num_phases}"]


@st.composite
def strat_shift(draw):
    return {"sys": draw(S.system()), "seed": draw(gen.SEED), "parts": draw(st.sampled_from([8, 6, 12])), "s1": draw(st.sampled_from([1.0, 0.2, 3.0])),
            "s2": draw(st.sampled_from([5.0, 0.1, 1.0, 20.0])), "tol": draw(st.sampled_from([1e-6, 1e-7]))}


def check_shift(case):
    s, tol = case["sys"], case["tol"]
    f = S.finder(s, case["seed"], case["parts"], tolerance=tol, max_steps=60_000, additional_chis_shift=case["s1"])
    p = f.run()
    if not conv(f, tol):
        raise Trivial("not converged")
    before = dict(f.diagnostics)
    i, _, _ = S.objects(s)
    f.set_interaction(i, additional_chis_shift=case["s2"])
    q = f.run(max_steps=1, interval=1)
    # incompressibility enters the other residuals with the shift as factor
    amp = 4 + 4 * case["s2"] * S.nfeat(s)
    ensure(conv(f, amp * tol), "stationary states do not depend on the numerical shift", got=f.diagnostics, before=before)
    ensure(np.abs(p.fractions - q.fractions).max() < 100 * tol, "phases do not depend on the numerical shift", got=q.fractions, want=p.fractions)
    return s["kind"]


PARTS = [
    Part("equivalent", strat, check, 700, 9000, warmup=S.warm_both, nontrivial_floor=0.4),
    Part("shift", strat_shift, check_shift, 500, 6000, nontrivial_floor=0.4),
]
