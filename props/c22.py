"""C22: dying, reviving and replacing compartments."""
import numpy as np
from hypothesis import strategies as st

import flory
from lib import gen, model, systems as S
from lib.build import rng
from lib.harness import Part, Trivial, ensure

RULE = (
    "cases draw a mixture, initial fields and a kill threshold such that compartments shrink below it within the first step (known from a run "
    "with threshold zero); single steps, two steps with frozen fields (so that revived fields are visible) and longer deadly runs without "
    "reviving are judged. Part 'law' judges the distribution of revived fields and part 'draw' the choice of the copied compartments (7 standard errors). Parts 'model-*' follow a reference model (both ensembles, polydispersed mixtures, constraints) until compartments die. Non-trivial = at least one compartment died"
)


@st.composite
def strat(draw):
    n = draw(st.integers(2, 4))
    M = draw(st.integers(2, 10))
    return {"sys": {"kind": "fh", "counts": [1] * n, "chis": draw(gen.symmetric(n, -3, 6)), "sizes": draw(gen.sizes(n, S.MILD_SIZE)),
                    "phi": draw(gen.mild_composition(n, 0.08))},
            "M": M, "wseed": draw(gen.SEED), "std": draw(st.sampled_from([1.0, 0.5, 2.0])), "seed": draw(gen.SEED),
            "quantile": draw(gen.ratio(0.05, 0.95, 100)), "scaler": draw(st.sampled_from([1.0, 0.0, 0.5, 2.0])), "bound": draw(st.sampled_from([0.3, 0.1, 0.6])),
            "revive": draw(st.sampled_from([16, 1, 3])), "steps": draw(st.integers(2, 60))}


def make(case, **kw):
    f = S.finder(case["sys"], case["seed"], case["M"], acceptance_Js=10.0, Js_step_upper_bound=case["bound"], tolerance=1e-13, **kw)
    f.reinitialize_from_omegas(fields(case))
    return f


def fields(case):
    return np.random.default_rng(case["wseed"]).normal(0, case["std"], (S.ncomp(case["sys"]), case["M"]))


def copies(p, living_rows):
    """index of the living row of which every returned row is a copy"""
    out = []
    for r in p.fractions:
        d = np.abs(living_rows - r).max(axis=1)
        out.append(int(np.argmin(d)) if d.min() < 1e-12 else -1)
    return np.array(out)


def check(case):
    M = case["M"]
    ref = make(case, acceptance_omega=0.0, kill_threshold=0.0)
    p0 = ref.run(max_steps=1, interval=1)
    J1 = p0.volumes * M
    order = np.sort(J1)
    low = int((order < 0.99).sum())
    if low == 0 or low == M:
        raise Trivial("no threshold between the volumes")
    k = min(M - 2, int(case["quantile"] * low))
    t = min(0.5 * (order[k] + order[k + 1]), 0.995)
    if not (order[k] > 0 and order[k + 1] - t > 1e-6 and t - order[k] > 1e-6):
        raise Trivial("no threshold between the volumes")
    if np.abs(p0.fractions[:, None] - p0.fractions[None]).max(axis=2)[~np.eye(M, dtype=bool)].min() < 1e-9:
        raise Trivial("equal compartments")
    dead = J1 <= t
    living = np.flatnonzero(~dead)
    # one step: dead compartments are replaced by copies of living ones, which share the volume of their original
    f = make(case, acceptance_omega=0.0, kill_threshold=t, max_revive_per_compartment=case["revive"])
    p = f.run(max_steps=1, interval=1)
    ensure(f.diagnostics["revive_count_left"] == case["revive"] * M, "nothing was revived in the first step", got=f.diagnostics["revive_count_left"])
    ensure(np.allclose(p.fractions[living], p0.fractions[living], atol=1e-12), "living compartments are returned as they are", got=p.fractions, want=p0.fractions)
    c = copies(p, p0.fractions[living])
    ensure(np.all(c >= 0), "dead compartments are replaced by copies of living ones", got=p.fractions, want=p0.fractions[living])
    want = J1[living] / J1[living].sum()
    got = np.array([p.volumes[c == q].sum() for q in range(len(living))])
    ensure(np.allclose(got, want, atol=1e-10), "a living compartment and its copies share its volume", got=got, want=want)
    ensure(np.all(p.volumes > 0) and abs(p.volumes.sum() - 1) < 1e-10, "volumes are positive and add up", got=p.volumes)
    mean = want @ p0.fractions[living]
    ensure(np.allclose(p.mean_fractions, mean, atol=1e-10), "replacing conserves the composition of the living compartments", got=p.mean_fractions, want=mean)
    # two steps with frozen fields: exactly the dead ones are revived, with fields within the scaled range
    w = fields(case)
    f = make(case, acceptance_omega=0.0, kill_threshold=t, max_revive_per_compartment=case["revive"], revive_scaler=case["scaler"])
    f.run(max_steps=2, interval=2)
    nd = int(dead.sum())
    ensure(f.diagnostics["revive_count_left"] == case["revive"] * M - nd, "every dead compartment costs one revive", got=f.diagnostics["revive_count_left"], dead=nd)
    ensure(np.array_equal(f.omegas[:, living], w[:, living]), "living compartments keep their fields", got=f.omegas, want=w)
    mid, half = 0.5 * (w.max(axis=1) + w.min(axis=1)), 0.5 * (w.max(axis=1) - w.min(axis=1))
    z = np.abs(f.omegas[:, dead] - mid[:, None])
    ensure(np.all(z <= case["scaler"] * half[:, None] * (1 + 1e-12) + 1e-12), "revived fields are drawn from the scaled range of the present fields",
           got=f.omegas[:, dead], centre=mid, half=half)
    if case["scaler"] > 0:
        ensure(not np.any(f.omegas[:, dead] == w[:, dead]), "revived compartments get new fields", got=f.omegas[:, dead])
    # without budget they stay dead
    f = make(case, acceptance_omega=0.01, kill_threshold=t, max_revive_per_compartment=0)
    p = f.run(max_steps=case["steps"], interval=case["steps"])
    ensure(np.all(np.isfinite(p.fractions)) and np.all(p.volumes > 0) and abs(p.volumes.sum() - 1) < 1e-10 and np.all(p.fractions >= 0), "valid phases", got=p.volumes)
    rows, inv = np.unique(p.fractions, axis=0, return_inverse=True)
    inv = inv.reshape(-1)
    L = len(rows)
    ensure(L <= len(living), "dead compartments stay dead without budget", got=L, want=len(living))
    g = np.array([p.volumes[inv == q].sum() for q in range(L)]) * len(living)  # living volumes add up to at most their number
    ensure(np.all(g > t * (1 - 1e-9)), "all returned compartments stem from living ones", got=g, threshold=t)
    return ["scaler0" if case["scaler"] == 0 else "scaled", f"dead{min(nd, 4)}", "few" if L < 3 else "many"]


@st.composite
def strat_long(draw):
    return {"sys": draw(S.system()), "seed": draw(gen.SEED), "parts": draw(st.sampled_from([8, 4, 12, 6, 3])), "kill": draw(st.sampled_from([0.5, 0.2, 0.7, 0.05])),
            "revive": draw(st.sampled_from([16, 1, 4, 0])), "steps": draw(st.integers(1, 2000)), "bound": draw(st.sampled_from([0.05, 0.2, 0.01])),
            "scaler": draw(st.sampled_from([1.0, 0.8, 0.5]))}


def check_long(case):
    """all histories of dying and reviving end in valid phases"""
    s = case["sys"]
    f = S.finder(s, case["seed"], case["parts"], kill_threshold=case["kill"], max_revive_per_compartment=case["revive"], max_steps=case["steps"], interval=97,
                 acceptance_Js=0.05, Js_step_upper_bound=case["bound"], revive_scaler=case["scaler"], random_std=2.0)
    p = f.run()
    ensure(p.volumes.shape == (case["parts"],) and p.fractions.shape == (case["parts"], S.ncomp(s)), "shape", got=p.fractions.shape)
    ensure(np.all(np.isfinite(p.fractions)) and np.all(p.fractions >= 0) and np.all(p.volumes > 0) and abs(p.volumes.sum() - 1) < 1e-10, "valid phases", got=(p.volumes, p.fractions))
    left = f.diagnostics["revive_count_left"]
    full = case["revive"] * case["parts"]
    ensure(-case["parts"] < left <= full, "revives stay within the budget", got=left, want=full)
    if left == full:
        raise Trivial("nothing died")
    return "exhausted" if left <= 0 else "left"


@st.composite
def strat_wide(draw, combo):
    case = draw(model.strat(combo, True))
    case.update(aj=draw(st.sampled_from([1.0, 10.0])), seed=draw(gen.SEED), budget=draw(st.sampled_from([0, 16, 1])), scaler=draw(st.sampled_from([1.0, 0.5, 0.0])))
    return case


def check_wide(case):
    """both ensembles, polydispersed mixtures, constraints: the state is known from the model until the first dead compartment would be revived"""
    M = case["M"]
    path = model.follow(case, case["steps"])
    if case["budget"]:
        path = [s for s in path if s["live"].all()]
    if not path or path[-1]["after"].all():
        raise Trivial("nothing died")
    k, s = len(path), path[-1]
    after, tol = s["after"], s["tol"]
    f = model.build(case, rng(case["seed"]), revive=case["budget"], revive_scaler=case["scaler"])
    f.reinitialize_from_omegas(model.fields(case))
    p = f.run(max_steps=k)
    ensure(f.diagnostics["revive_count_left"] == case["budget"] * M, "nothing was revived yet", got=f.diagnostics["revive_count_left"])
    rows = s["phi"].T[after]
    ensure(model.close(p.fractions[after], rows, tol), "living compartments are returned as they are", got=p.fractions, want=s["phi"].T)
    c = np.array([np.abs(rows - r).max(axis=1).argmin() for r in p.fractions])
    ensure(model.close(p.fractions, rows[c], 10 * tol), "dead compartments are replaced by copies of living ones", got=p.fractions, want=rows)
    J = s["J"][after] / s["J"][after].sum()
    ensure(np.all(p.volumes > 0) and abs(p.volumes.sum() - 1) < 1e-10, "volumes are positive and add up", got=p.volumes)
    ensure(model.close(p.mean_fractions, J @ rows, 10 * tol), "replacing conserves the composition of the living compartments", got=p.mean_fractions, want=J @ rows)
    apart = len(rows) == 1 or np.abs(rows[:, None] - rows[None]).max(axis=2)[~np.eye(len(rows), dtype=bool)].min() > 1e-5
    if apart:
        got = np.array([p.volumes[c == q].sum() for q in range(len(rows))])
        ensure(model.close(got, J, tol), "a living compartment and its copies share its volume", got=got, want=J)
    if case["budget"]:
        # the next step revives exactly the dead ones
        f.run(max_steps=1)
        nd = int((~after).sum())
        ensure(f.diagnostics["revive_count_left"] == case["budget"] * M - nd, "every dead compartment costs one revive", got=f.diagnostics["revive_count_left"], dead=nd)
        if case["aw"] == 0:
            # fields are frozen, so the revived ones are visible: the step starts from them with unit volume
            w0, w = model.fields(case), f.omegas.copy()
            ensure(np.array_equal(w[:, after], w0[:, after]), "living compartments keep their fields", got=w, want=w0)
            mid, half = 0.5 * (w0.max(axis=1) + w0.min(axis=1)), 0.5 * (w0.max(axis=1) - w0.min(axis=1))
            ensure(np.all(np.abs(w - mid[:, None])[:, ~after] <= case["scaler"] * half[:, None] * (1 + 1e-12) + 1e-12),
                   "revived fields are drawn from the scaled range of the present fields", got=w[:, ~after], centre=mid, half=half)
            m = model.model(case, w)
            m.J = np.where(after, s["J"], 1.0)
            m.step()
            if m.ok() and np.abs(m.J - m.kill).min() > 1e-7:
                ensure(all(abs(f.diagnostics[d] - m.diag[d]) <= 100 * tol * (1 + abs(m.diag[d])) for d in model.DIAG), "revived compartments start with unit volume",
                       got={d: f.diagnostics[d] for d in model.DIAG}, want=m.diag)
    return [case["ens"], f"dead{min(4, int((~after).sum()))}", "budget" if case["budget"] else "no budget"]


@st.composite
def strat_law(draw):
    n = draw(st.integers(2, 3))
    return {"sys": {"kind": "fh", "counts": [1] * n, "chis": draw(gen.symmetric(n, -2, 4)), "sizes": [1.0] * n, "phi": draw(gen.mild_composition(n, 0.2))},
            "M": draw(st.sampled_from([300, 500])), "wseed": draw(gen.SEED), "std": draw(st.sampled_from([1.0, 0.5])), "seed": draw(gen.SEED),
            "scaler": draw(st.sampled_from([1.0, 0.5, 2.0])), "bound": 0.3}


def check_law(case):
    """with many compartments at once the law of the revived fields is visible"""
    f = make(case, acceptance_omega=0.0, kill_threshold=0.99, revive_scaler=case["scaler"])
    w = fields(case)
    f.run(max_steps=2, interval=2)
    new = np.any(f.omegas != w, axis=0)
    k = int(new.sum())
    if k < 60:
        raise Trivial("few compartments died")
    mid, half = 0.5 * (w.max(axis=1) + w.min(axis=1)), 0.5 * (w.max(axis=1) - w.min(axis=1))
    z = (f.omegas[:, new] - mid[:, None]) / (case["scaler"] * half[:, None])
    ensure(np.abs(z).max() <= 1 + 1e-9, "revived fields are drawn from the scaled range of the present fields", got=np.abs(z).max())
    ensure(len(np.unique(z)) == z.size, "every revived field is drawn anew")
    ensure(np.abs(z.mean(axis=1)).max() <= 7 * np.sqrt(1 / 3 / k), "revived fields are centred", got=z.mean(axis=1))
    ensure(np.abs((z**2).mean(axis=1) - 1 / 3).max() <= 7 * np.sqrt(4 / 45 / k), "revived fields are uniform in the range", got=(z**2).mean(axis=1))
    ensure(np.abs((z[0] * z[1]).mean()) <= 7 * np.sqrt(1 / 9 / k), "revived fields of different features are independent", got=(z[0] * z[1]).mean())
    ensure(np.abs((z[:, 1:] * z[:, :-1]).mean(axis=1)).max() <= 7 * np.sqrt(1 / 9 / (k - 1)), "revived fields of different compartments are independent")


@st.composite
def strat_draw(draw):
    return {**draw(strat_law()), "quantile": draw(gen.ratio(0.08, 0.4, 100)), "std": draw(st.sampled_from([0.05, 0.02, 0.1])), "bound": draw(st.sampled_from([0.9, 0.95]))}


def check_draw(case):
    """with many compartments at once it is visible that the copied ones are chosen at random"""
    ref = make(case, acceptance_omega=0.0, kill_threshold=0.0)
    p0 = ref.run(max_steps=1, interval=1)
    J = p0.volumes * case["M"]
    t = float(np.quantile(J, case["quantile"]))
    dead, large = J <= t, np.flatnonzero(J > 2 * t)
    k, L = int(dead.sum()), len(large)
    if k < 20 or L < 20 or np.abs(J - t).min() < 1e-9:
        raise Trivial("few compartments died")
    f = make(case, acceptance_omega=0.0, kill_threshold=t)
    p = f.run(max_steps=1, interval=1)
    rows = p0.fractions[~dead]
    if len(np.unique(np.round(rows, 9), axis=0)) < len(rows):
        raise Trivial("equal compartments")
    c = np.flatnonzero(~dead)[copies(p, rows)[dead]]
    ensure(len(np.unique(c)) >= min(k, L) // 4, "many different compartments are copied", got=len(np.unique(c)), dead=k, large=L)
    # the most concentrated choice of a fair draw: volumes halve with every copy, so that no compartment is chosen very often
    big = np.isin(c, large)
    if big.all():
        pos = np.searchsorted(large, c) / (L - 1) - 0.5
        ensure(abs(pos.mean()) <= 7 * np.sqrt((1 / k + 1 / L) / 12), "copied compartments are chosen irrespective of their position", got=pos.mean(), dead=k, large=L)
        ensure(abs((pos[1:] * pos[:-1]).mean()) <= 7 * np.sqrt((1 / k + 1 / L) / 144), "copied compartments are chosen independently", got=(pos[1:] * pos[:-1]).mean())
    return "large only" if big.all() else "exhausted"


PARTS = [
    Part("draw", strat_draw, check_draw, 300, 3000),
    Part("law", strat_law, check_law, 200, 2000),
    Part("steps", strat, check, 2400, 24000, warmup=S.warm_both),
    Part("long", strat_long, check_long, 1200, 12000),
] + [Part("model-" + c, lambda c=c: strat_wide(c), check_wide, 400, 4000, once=True) for c in model.COMBOS if c not in ("fh-c",)]
