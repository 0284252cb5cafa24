"""C28: runs can be continued, and continuing a stationary state does not change it."""
import numpy as np
from hypothesis import strategies as st

import flory
from lib import gen, model, systems as S
from lib.build import conv
from lib.harness import Part, Trivial, ensure

RULE = (
    "part 'split': a run of a generated number of steps is compared with the same steps split into 2-5 runs in which parts are replaced by "
    "equal ones in between, and with other check intervals; parts 'split-*' compare every piece with a reference model of the iteration (both ensembles, constraints, dying compartments). Part 'again': converged runs are continued. Non-trivial = at least two pieces / converged"
)


@st.composite
def strat(draw):
    return {"sys": draw(S.system()), "seed": draw(gen.SEED), "parts": draw(st.sampled_from([4, 6, 2, 8, 3])),
            "pieces": draw(st.lists(st.integers(1, 60), min_size=2, max_size=5)), "unit": draw(st.sampled_from([1, 5, 7])),
            "swap": draw(st.lists(st.sampled_from(["none", "interaction", "entropy", "ensemble", "constraints", "reset"]), min_size=5, max_size=5)),
            "dead": draw(st.booleans())}


def check(case):
    s = case["sys"]
    u = case["unit"]
    pieces = [k * u for k in case["pieces"]]
    total = sum(pieces)
    # in the 'dead' variant compartments die and are never revived
    kw = dict(kill_threshold=0.3, max_revive_per_compartment=0, acceptance_Js=0.05, Js_step_upper_bound=0.02) if case["dead"] else \
        dict(kill_threshold=0.0, acceptance_Js=1e-4, Js_step_upper_bound=5e-4)
    kw.update(tolerance=1e-13, acceptance_omega=0.01, random_std=2.0)
    a = S.finder(s, case["seed"], case["parts"], **kw)
    pa = a.run(max_steps=total, interval=total)
    b = S.finder(s, case["seed"], case["parts"], **kw)
    i, e, c = S.objects(s)
    for k, q in zip(pieces, case["swap"]):
        pb = b.run(max_steps=k, interval=u)
        if q == "reset":
            b.reset_revive()
        elif q != "none":
            getattr(b, "set_" + q)({"interaction": i, "entropy": e, "ensemble": c, "constraints": None}[q])
    c2 = S.finder(s, case["seed"], case["parts"], **kw)
    pc = c2.run(max_steps=total, interval=u)
    if a.diagnostics["steps"] != total or c2.diagnostics["steps"] != total:
        raise Trivial("stationary")
    for other, po, what in ((b, pb, "split"), (c2, pc, "checked more often")):
        ensure(np.allclose(other.omegas, a.omegas, rtol=1e-9, atol=1e-9), f"fields after a {what} run equal those of one run", got=other.omegas, want=a.omegas)
        for k in ("max_abs_incomp", "max_abs_omega_diff", "max_abs_js_diff"):
            ensure(np.isclose(other.diagnostics[k], a.diagnostics[k], rtol=1e-7, atol=1e-9), f"{k} after a {what} run equals that of one run",
                   got=other.diagnostics[k], want=a.diagnostics[k])
        if not case["dead"]:
            ensure(np.allclose(po.volumes, pa.volumes, atol=1e-9) and np.allclose(po.fractions, pa.fractions, atol=1e-9),
                   f"phases after a {what} run equal those of one run", got=po.fractions, want=pa.fractions)
    return ["dead" if case["dead"] else "alive", s["kind"]]


@st.composite
def strat_again(draw):
    return {"sys": draw(S.system()), "seed": draw(gen.SEED), "parts": draw(st.sampled_from([8, 6, 12])), "tol": draw(st.sampled_from([1e-5, 1e-6, 1e-7])),
            "swap": draw(st.booleans()), "kill": draw(st.sampled_from([0.0, 0.02]))}


def check_again(case):
    s, tol = case["sys"], case["tol"]
    f = S.finder(s, case["seed"], case["parts"], tolerance=tol, max_steps=60_000, kill_threshold=case["kill"])
    p = f.run()
    if not conv(f, tol):
        raise Trivial("not converged")
    if f.diagnostics["revive_count_left"] <= 0:
        raise Trivial("revives used up")
    if case["swap"]:
        i, e, c = S.objects(s)
        f.set_interaction(i)
        f.set_entropy(e)
        f.set_ensemble(c)
    q = f.run(max_steps=1, interval=1)
    ensure(conv(f, 3 * tol), "a stationary state stays stationary", got=f.diagnostics)
    d = np.abs(p.fractions - q.fractions).max()
    ensure(d < 50 * tol, "a stationary state does not change", got=d, tol=tol)
    ensure(np.abs(p.volumes - q.volumes).max() < 50 * tol + 1e-9, "volumes of a stationary state do not change", got=q.volumes, want=p.volumes)
    return s["kind"]


@st.composite
def strat_wide(draw, combo):
    case = draw(model.strat(combo, draw(st.integers(0, 2)) == 0))
    case.update(pieces=draw(st.lists(st.integers(1, 12), min_size=2, max_size=5)), swap=draw(st.lists(st.sampled_from(["none", "interaction", "entropy", "ensemble", "reset"]), min_size=5, max_size=5)))
    return case


def check_wide(case):
    """both ensembles, constraints (whose multipliers carry on) and dying compartments; the state after every piece is that of the model"""
    path = model.follow(case, sum(case["pieces"]))
    if len(path) < 2:
        raise Trivial("not followed")
    f = model.build(case)
    f.reinitialize_from_omegas(model.fields(case))
    parts = dict(zip(("interaction", "entropy", "ensemble"), model.parts(case)))
    shift = {} if case["shift"] is None else {"additional_chis_shift": case["shift"]}
    done = count = 0
    for k, q in zip(case["pieces"], case["swap"]):
        k = min(k, len(path) - done)
        if k <= 0:
            break
        p = f.run(max_steps=k, interval=max(1, k // 2) if k % 2 == 0 else k)
        done += k
        count += 1
        s = path[done - 1]
        ensure(model.close(f.omegas, s["w"], s["tol"]), "fields of a run in pieces are those of an uninterrupted run", step=done, got=f.omegas, want=s["w"])
        ensure(model.close(p.fractions[s["after"]], s["phi"].T[s["after"]], s["tol"]), "fractions of a run in pieces are those of an uninterrupted run", step=done, got=p.fractions, want=s["phi"].T)
        for key in model.DIAG:
            ensure(model.close(f.diagnostics[key], s["diag"][key], s["tol"]), f"{key} of a run in pieces is that of an uninterrupted run", step=done, got=f.diagnostics, want=s["diag"])
        if s["after"].all():
            ensure(model.close(p.volumes, s["J"] / s["J"].sum(), s["tol"]), "volumes of a run in pieces are those of an uninterrupted run", step=done, got=p.volumes, want=s["J"])
        if q == "reset":
            f.reset_revive()
        elif q in parts:
            getattr(f, "set_" + q)(parts[q], **(shift if q == "interaction" else {}))
    g = model.build(case)
    g.reinitialize_from_omegas(model.fields(case))
    g.run(max_steps=done, interval=done)
    ensure(model.close(f.omegas, g.omegas, path[done - 1]["tol"]), "fields of a run in pieces are those of an uninterrupted run", step=done, got=f.omegas, want=g.omegas)
    if count < 2:
        raise Trivial("one piece")
    return [case["ens"], "died" if not path[done - 1]["after"].all() else "all living"]


PARTS = [
    Part("split", strat, check, 1600, 16000, warmup=S.warm_both),
    Part("again", strat_again, check_again, 400, 5000, nontrivial_floor=0.4),
] + [Part("split-" + c, lambda c=c: strat_wide(c), check_wide, 400, 4000, once=True) for c in model.COMBOS if c not in ("fh-c", "poly-c")]
