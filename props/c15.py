"""C15: step and revive budgets, temporary options and termination over histories of one finder."""
import contextlib
import io
import math

import numpy as np
from hypothesis import strategies as st

import flory
from lib import gen, systems as S
from lib.build import rng
from lib.harness import Part, Trivial, ensure

RULE = (
    "cases are histories of 1-10 operations on one finder: runs with or without temporary options, exchanging any "
    "part with or without reset of the revive budget, explicit resets and the three re-initialisations. A model predicts step counts "
    "exactly (part 'quiet', where no compartment can die) and bounds the revive budget (parts 'deadly' and 'exhausted', where compartments die in "
    "almost every step and, in the latter, the budget is used up first); part 'long' has long runs, long intervals and the documented defaults. Non-trivial = at least two runs"
)


@st.composite
def options(draw, small):
    o = {}
    if draw(st.booleans()):
        o["max_steps"] = draw(st.one_of(st.integers(1, 60), st.integers(1, 400).map(lambda k: k / 4 + 0.25)))
    if draw(st.booleans()):
        o["interval"] = draw(st.integers(1, 50))
    if draw(st.integers(0, 2)) == 0:
        o["tolerance"] = draw(st.sampled_from([1e9, 1e-12]))
    if draw(st.integers(0, 7)) == 0:
        o["progress"] = draw(st.booleans())
    return o


@st.composite
def strat(draw, deadly):
    s = draw(S.system(poly=False))
    n = sum(s["counts"])
    parts = draw(st.sampled_from([4, 8, 2, 5]))
    case = {"sys": s, "parts": parts, "seed": draw(gen.SEED), "max_steps": draw(st.integers(1, 60)), "interval": draw(st.integers(1, 40)),
            "tolerance": draw(st.sampled_from([1e-12, 1e9])), "progress": draw(st.integers(0, 5)) == 0,
            "revive": draw(st.sampled_from([16, 3, 1, 0, -1] if deadly else [16, 0, 2])), "deadly": deadly,
            "kill": draw(st.sampled_from([0.97, 0.9, 0.5])) if deadly else 0.0}
    ops = []
    if deadly == "exhausted":  # use up the budget before anything else happens
        case["revive"] = draw(st.sampled_from([1, 2, 3]))
        ops.append({"op": "run", "options": {"max_steps": draw(st.integers(100, 600)), "interval": 50, "tolerance": 1e-12}})
    for _ in range(draw(st.integers(1, 10 if deadly != "exhausted" else 4))):
        k = draw(st.sampled_from(["run", "run", "run", "interaction", "entropy", "ensemble", "constraints", "reset", "random", "omegas", "phis"]
                                 if deadly != "exhausted" else ["interaction", "entropy", "ensemble", "constraints", "run", "random"]))
        op = {"op": k}
        if k == "run":
            op["options"] = draw(options(deadly))
        elif k in ("interaction", "entropy", "ensemble", "constraints"):
            op["reset"] = draw(st.sampled_from([None, True, False] if deadly != "exhausted" else [False, False, False, None, True]))
        ops.append(op)
    ops.append({"op": "run", "options": draw(options(deadly))})
    case["ops"] = ops
    return case


def blocks(max_steps, interval):
    n = math.ceil(max_steps / interval)
    inner = max(1, math.ceil(max_steps) // n)
    return n, inner


def check(case):
    s, M = case["sys"], case["parts"]
    n = S.ncomp(s)
    i, e, c = S.objects(s)
    kw = dict(acceptance_Js=1e-5, acceptance_omega=1e-4, Js_step_upper_bound=1e-5) if not case["deadly"] else \
        dict(acceptance_Js=0.05, acceptance_omega=0.02, Js_step_upper_bound=0.05)
    default = {k: case[k] for k in ("max_steps", "interval", "tolerance", "progress")}
    f = flory.CoexistingPhasesFinder(i, e, c, num_part=M, rng=rng(case["seed"]), kill_threshold=case["kill"],
                                     max_revive_per_compartment=case["revive"], random_std=2.0, **default, **kw)
    full = case["revive"] * M
    left = full  # what is known about the budget before the next run
    low = full
    runs = spent = 0
    for op in case["ops"]:
        k = op["op"]
        if k == "run":
            o = {**default, **op["options"]}
            err = io.StringIO()
            with contextlib.redirect_stderr(err):
                p = f.run(**op["options"])
            runs += 1
            d = f.diagnostics
            shown = bool(err.getvalue())
            ensure(shown == bool(o["progress"]), "progress is shown only on request", shown=shown, options=o)
            nb, inner = blocks(o["max_steps"], o["interval"])
            ensure(0 < d["steps"] <= math.ceil(o["max_steps"]), "at most the allowed number of steps", got=d["steps"], want=o["max_steps"])
            ensure(d["steps"] % inner == 0 and inner <= max(1, o["interval"]), "convergence is checked at the interval", got=d["steps"], inner=inner)
            if not case["deadly"] or o["tolerance"] < 1:
                want = inner if o["tolerance"] > 1 else nb * inner
                small = all(d[q] < o["tolerance"] for q in ("max_abs_incomp", "max_abs_omega_diff", "max_abs_js_diff", "max_constraint_residue"))
                ensure(d["steps"] == want or (d["steps"] < want and small), "number of steps follows from the options in effect", got=d["steps"], want=want, options=o)
            ensure(np.isfinite(d["time"]) and d["time"] >= 0, "time", got=d["time"])
            new = d["revive_count_left"]
            if not case["deadly"]:
                ensure(new == left, "the revive budget is untouched when nothing dies", got=new, want=left)
            else:
                ensure(new <= left, "reviving consumes the budget", got=new, before=left)
                if left <= 0:
                    ensure(new == left, "no reviving without budget", got=new, before=left)
                else:
                    ensure(new > -M and new >= left - M * d["steps"], "reviving stops when the budget is used up", got=new, before=left, steps=d["steps"])
                spent += left - new
            left = new
            low = min(low, left)
            ensure(p.num_phases == M, "number of compartments")
        elif k in ("interaction", "entropy", "ensemble", "constraints"):
            kk = {} if op["reset"] is None else {"if_reset_revive": op["reset"]}
            obj = {"interaction": i, "entropy": e, "ensemble": c, "constraints": None}[k]
            getattr(f, "set_" + k)(obj, **kk)
            if op["reset"] is None or op["reset"]:
                left = full
        else:
            if k == "reset":
                f.reset_revive()
            elif k == "random":
                f.reinitialize_random()
            elif k == "omegas":
                f.reinitialize_from_omegas(np.random.default_rng(case["seed"] + 1).normal(size=(n, M)))
            else:
                f.reinitialize_from_phis(np.random.default_rng(case["seed"] + 2).uniform(size=(n, M)))
            left = full
    if runs < 2:
        raise Trivial("one run")
    return ["spent" if spent else "unspent", "exhausted" if low <= 0 < full else "left"]


LONG = st.sampled_from([20_000, 10_001, 30_000, 65_536, 100_000, 40_000.5, 12_345])


@st.composite
def strat_long(draw):
    ctor = {k: draw(LONG) for k in ("max_steps", "interval") if draw(st.booleans())}
    opt = {k: draw(LONG) for k in ("max_steps", "interval") if draw(st.booleans())}
    for o in (ctor, opt):
        if "interval" in o:
            o["interval"] = int(o["interval"])
    return {"ctor": ctor, "opt": opt, "converge": draw(st.booleans()), "chi": draw(gen.ratio(-1, 3, 10)), "seed": draw(gen.SEED)}


def check_long(case):
    """long runs and the documented defaults (a million steps, checks every ten thousand)"""
    i, e, c = flory.FloryHugginsInteraction(2, [[0, case["chi"]], [case["chi"], 0]]), flory.IdealGasEntropy(2), flory.CanonicalEnsemble(2, [0.4, 0.6])
    opt = dict(case["opt"])
    if not case["converge"] and "max_steps" not in opt and "max_steps" not in case["ctor"]:
        opt["max_steps"] = 50_000  # not the whole million
    f = flory.CoexistingPhasesFinder(i, e, c, num_part=1, rng=rng(case["seed"]), progress=False, acceptance_omega=1e-12, acceptance_Js=1e-12,
                                     tolerance=1e9 if case["converge"] else 1e-12, kill_threshold=0.0, random_std=1.0, **case["ctor"])
    f.run(**opt)
    o = {"max_steps": 1_000_000, "interval": 10_000, **case["ctor"], **opt}
    nb, inner = blocks(o["max_steps"], o["interval"])
    want = inner if case["converge"] else nb * inner
    ensure(f.diagnostics["steps"] == want, "number of steps follows from the options in effect", got=f.diagnostics["steps"], want=want, options=o)
    return ["converged" if case["converge"] else "budget"]


PARTS = [
    Part("quiet", lambda: strat(False), check, 2000, 16000, warmup=S.warm_fh),
    Part("deadly", lambda: strat(True), check, 2000, 16000),
    Part("long", strat_long, check_long, 160, 2000),
    Part("exhausted", lambda: strat("exhausted"), check, 800, 8000),
]
