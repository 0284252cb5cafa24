"""C29: a step of the iteration changes volumes and fields by the documented amounts."""
import numpy as np
from hypothesis import strategies as st

import flory
from lib import gen, model, systems as S
from lib.build import rng
from lib.harness import Part, Trivial, ensure

RULE = (
    "cases draw a mixture, acceptances and the bound of the volume step over several orders of magnitude, random start fields and a number of "
    "preceding steps; one further step is taken and the changes of fields and volumes are compared with acceptance x reported "
    "error, scaled down when the volume step would exceed its bound. Parts 'trajectory-*' compare fields and volumes after 1-30 steps with a complete reference model of the iteration (plain and polydispersed mixtures, both ensembles, up to two constraints, dying compartments). Non-trivial = both changes are above rounding"
)


@st.composite
def strat(draw):
    return {"sys": draw(S.system()), "seed": draw(gen.SEED), "parts": draw(st.sampled_from([4, 2, 6, 8, 3])), "std": draw(st.sampled_from([1.0, 0.3, 2.0])),
            "aj": draw(st.sampled_from([0.0002, 0.002, 0.02, 1e-5, 0.0])), "aw": draw(st.sampled_from([0.002, 0.02, 0.1, 0.0, 1e-4])),
            "bound": draw(st.sampled_from([0.001, 0.01, 1e-4, 1e-5, 0.1])), "before": draw(st.sampled_from([0, 0, 1, 5, 50])), "tail": draw(st.integers(1, 20))}


def check(case):
    s, M = case["sys"], case["parts"]
    aj, aw, bound = case["aj"], case["aw"], case["bound"]
    i, e, c = S.objects(s)
    g = rng(case["seed"])
    f = flory.CoexistingPhasesFinder(i, e, c, num_part=M, rng=g, progress=False, interval=500, random_std=case["std"], acceptance_Js=aj, acceptance_omega=aw, Js_step_upper_bound=bound, tolerance=1e-300, max_revive_per_compartment=16)
    Js = np.ones(M)
    state = str(g.bit_generator.state)  # random numbers are drawn when a compartment dies

    def died():
        return str(g.bit_generator.state) != state

    w = f.omegas.copy()
    if case["before"]:
        p = f.run(max_steps=case["before"])
        Js = p.volumes * M
        w = f.omegas.copy()
    p = f.run(max_steps=1)
    d = f.diagnostics
    new = p.volumes * M
    if not np.all(np.isfinite(new)) or not np.all(np.isfinite(f.omegas)):
        raise Trivial("diverged")
    if new.min() <= 0 or died():
        raise Trivial("a compartment died")
    dj, dw = np.abs(new - Js).max(), np.abs(f.omegas - w).max()
    plain = aj * d["max_abs_js_diff"]
    factor = min(1.0, bound / plain) if plain > 0 else 1.0
    eps = 1e-10 * (1 + np.abs(w).max())
    ensure(abs(dw - factor * aw * d["max_abs_omega_diff"]) <= eps + 1e-7 * dw, "largest change of the fields is the accepted share of the field error",
           got=dw, want=factor * aw * d["max_abs_omega_diff"], factor=factor)
    if not case["before"]:
        ensure(abs(dj - factor * plain) <= 1e-9 + 1e-7 * dj, "largest change of the volumes is the accepted share of the volume error, within its bound",
               got=dj, want=factor * plain, bound=bound)
    ensure(dj <= 2 * factor * plain * (1 + 1e-6) + 1e-9, "change of the volumes stays within its bound", got=dj, bound=bound, plain=plain)
    ensure(abs(new.sum() - M) < 1e-9 * M, "volumes keep their sum")
    # over a longer stretch the volumes cannot move further than the bound allows
    k = case["tail"]
    q = f.run(max_steps=k)
    if not died() and np.all(np.isfinite(q.volumes)):
        ensure(np.abs(q.volumes * M - new).max() <= 2 * k * bound * (1 + 1e-6) + 1e-9, "change of the volumes stays within its bound over many steps",
               got=np.abs(q.volumes * M - new).max(), bound=bound, steps=k)
    if dw < 1e-12 and dj < 1e-12:
        raise Trivial("nothing moved")
    return ["scaled down" if factor < 1 else "full step", "first" if not case["before"] else "later"]


def check_traj(case):
    """fields and volumes against the model of the whole iteration"""
    path = model.follow(case, case["steps"])
    if not path:
        raise Trivial("not followed")
    k, s = len(path), path[-1]
    f = model.build(case)
    w0 = model.fields(case)
    f.reinitialize_from_omegas(w0)
    p = f.run(max_steps=k)
    ensure(model.close(f.omegas, s["w"], s["tol"]), "fields after the given number of steps", steps=k, got=f.omegas, want=s["w"])
    after = s["after"]
    J = s["J"] * after
    if after.all():
        ensure(model.close(p.volumes, J / J.sum(), s["tol"]), "volumes after the given number of steps", steps=k, got=p.volumes, want=J / J.sum())
    else:
        # dead compartments are returned as copies which share the volume of their original
        rows = s["phi"].T[after]
        if len(rows) > 1 and np.abs(rows[:, None] - rows[None]).max(axis=2)[~np.eye(len(rows), dtype=bool)].min() < 1e-5:
            raise Trivial("equal compartments")
        c = np.array([np.abs(rows - r).max(axis=1).argmin() for r in p.fractions])
        got = np.array([p.volumes[c == q].sum() for q in range(len(rows))])
        ensure(model.close(got, J[after] / J.sum(), s["tol"]), "volumes after the given number of steps", steps=k, got=got, want=J[after] / J.sum())
    if np.abs(s["w"] - w0).max() < 1e-9 and np.abs(s["J"] - 1).max() < 1e-9:
        raise Trivial("nothing moved")
    return [case["ens"], "died" if not after.all() else "all living"]


@st.composite
def strat_traj(draw, combo):
    return draw(model.strat(combo, draw(st.integers(0, 2)) == 0))


PARTS = [Part("steps", strat, check, 4000, 60000, warmup=S.warm_both)] + [
    Part("trajectory-" + c, lambda c=c: strat_traj(c), check_traj, 500, 5000, once=True) for c in model.COMBOS]
