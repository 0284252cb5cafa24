"""C14: diagnostics are the residuals of the returned state, and runs stop early only when all of them are small."""
import numpy as np
from hypothesis import strategies as st

import flory
from lib import gen, model, ref, systems as S
from lib.build import FAST, conv, rng
from lib.harness import Part, Trivial, ensure

RULE = (
    "part 'states*': cases construct fields whose volume fractions are known exactly (generated compositions which fill every "
    "compartment), so that the four residuals are known from the documented equations, and compare the diagnostics "
    "of a single step and the decision to stop at tolerances just above and below them; the construction is aimed at states "
    "where only one of the residuals is large. Part 'dying': runs with a generous tolerance in which compartments die in the last step before a check, earlier or not at all (judged by the returned copies). Parts 'trajectory-*' follow a complete reference model of the iteration (plain and polydispersed mixtures, both ensembles, up to two constraints, dying compartments): diagnostics after 1-30 steps, and the step at which the run stops for tolerances next to the model's residuals. Part 'criterion': the name of the criterion is generated; only 'standard' gives a result. Part 'runs': generated runs, stopped early or not. Non-trivial = "
    "a residual is finite and larger than 1e-9 (states) / stopped early (runs)"
)
QUIET = dict(progress=False, acceptance_Js=1e-4, acceptance_omega=1e-3, Js_step_upper_bound=1e-3)
KEYS = ("max_abs_incomp", "max_abs_omega_diff", "max_abs_js_diff", "max_constraint_residue")


@st.composite
def strat(draw, cons):
    mode = draw(st.sampled_from(["generic", "volume", "field", "incomp", "constraint"] if cons else ["generic", "volume", "field", "incomp"]))
    n = draw(st.integers(2, 4))
    M = 2 if mode == "volume" and n == 2 else draw(st.integers(1 if mode != "volume" else 2, 3 if mode == "volume" else 6))
    case = {"mode": mode, "n": n, "phis": [draw(gen.mild_composition(n, 0.05)) for _ in range(M)],
            "sizes": draw(gen.sizes(n, S.MILD_SIZE)), "chis": draw(gen.symmetric(n, -4, 6)),
            "off": draw(st.lists(gen.ratio(-3, 3, 100), min_size=n, max_size=n)), "shift": draw(st.sampled_from([None, 0.3, 2.5])),
            "seed": draw(gen.SEED), "delta": draw(st.sampled_from([0.01, 0.1, -0.05])), "cons": None}
    if cons:
        na = draw(st.integers(1, 2))
        case["cons"] = {"kind": cons, "Cs": [draw(st.lists(gen.ratio(-2, 2, 10), min_size=n, max_size=n)) for _ in range(na)],
                        "Ts": draw(st.lists(gen.ratio(-1, 1, 10), min_size=na, max_size=na)), "kappa": draw(st.sampled_from([1.0, 0.0, 2.5]))}
    return case


def construct(case):
    """(phi_means, chis, omegas) and the expected residuals of the first step"""
    n, l = case["n"], np.array(case["sizes"])
    phi = np.array(case["phis"])
    chis = np.array(case["chis"])
    off = np.array(case["off"])
    mode = case["mode"]
    if mode in ("field", "incomp", "constraint"):
        phi = np.repeat(phi[:1], len(phi), axis=0)
        if mode == "constraint":
            off = chis @ phi[0]
    if mode == "incomp":
        phi = phi * (1 + case["delta"])
        chis = np.zeros((n, n))
        off = np.zeros(n)
    mean = phi.mean(axis=0)
    lw = -np.log(phi / mean) / l
    M = len(phi)
    if mode == "volume":
        # choose the interactions such that the fields are exactly consistent: chi phi^m + xi_m = lw^m + c
        iu = [(i, j) for i in range(n) for j in range(i, n)]
        A = np.zeros((n * M, len(iu) + M + n))
        b = np.zeros(n * M)
        for m in range(M):
            for i in range(n):
                r = m * n + i
                for k, (a, c) in enumerate(iu):
                    A[r, k] = (phi[m, c] if a == i else 0) + (phi[m, a] if c == i and a != c else 0)
                A[r, len(iu) + m] = 1
                A[r, len(iu) + M + i] = -1
                b[r] = lw[m, i]
        x, *_ = np.linalg.lstsq(A, b, rcond=None)
        if np.abs(A @ x - b).max() > 1e-10:
            return None
        for k, (a, c) in enumerate(iu):
            chis[a, c] = chis[c, a] = x[k]
        off = x[len(iu) + M:]
    w = lw + off
    return mean, chis, w, phi


def expected(phi, chis, w, l, cons):
    pot, vol, res = 0.0, 0.0, 0.0
    if cons is not None:
        C, T, k = np.array(cons["Cs"]), np.array(cons["Ts"]), cons["kappa"]
        r = phi @ C.T - T
        if cons["kind"] == "local":
            pot = 2 * k * r @ C
            vol = k * (r ** 2).sum(axis=1)
            res = np.abs(r).max()
        else:
            R = r.sum(axis=0)
            pot = np.broadcast_to(2 * k * R @ C, w.shape)
            vol = 2 * k * r @ R
            res = np.abs(R / len(phi)).max()
    field = phi @ chis + pot
    xi = (w - field).mean(axis=1)
    err = np.abs(field + xi[:, None] - w).max()
    le = 0.5 * np.einsum("mi,ij,mj->m", phi, chis, phi) - (phi / l).sum(axis=1) + vol - ((field + xi[:, None]) * phi).sum(axis=1)
    return err, np.abs(le - le.mean()).max(), res


def make(case, mean, chis):
    n = case["n"]
    cons = None
    kw = {}
    if case["shift"] is not None:
        kw["additional_chis_shift"] = case["shift"]
    if case["cons"]:
        cls = flory.LinearLocalConstraint if case["cons"]["kind"] == "local" else flory.LinearGlobalConstraint
        cons = cls(n, np.array(case["cons"]["Cs"]), np.array(case["cons"]["Ts"]))
        kw["constraint_elasticity"] = case["cons"]["kappa"]
    if case["mode"] == "incomp":
        kw["additional_chis_shift"] = 0.1
    fe = flory.FloryHuggins(n, chis, case["sizes"])
    return flory.CoexistingPhasesFinder(fe.interaction, fe.entropy, flory.CanonicalEnsemble(n, mean), cons, num_part=len(case["phis"]),
                                        rng=rng(case["seed"]), **QUIET, **kw)


def check(case):
    if case["mode"] == "constraint" and case["cons"]:
        case = {**case, "cons": {**case["cons"], "kappa": 0.0}}
    got = construct(case)
    if got is None:
        raise Trivial("no consistent fields")
    mean, chis, w, phi = got
    l = np.array(case["sizes"])
    f = make(case, mean, chis)
    f.reinitialize_from_omegas(w.T)
    p = f.run(max_steps=1, tolerance=1e-300)
    d = f.diagnostics
    M = len(phi)
    ensure(d["steps"] == 1, "one step was requested", got=d["steps"])
    ensure(np.abs(p.fractions - phi).max() < 1e-9, "volume fractions follow from the fields", got=p.fractions, want=phi)
    ensure(abs(d["max_abs_incomp"] - np.abs(p.fractions.sum(axis=1) - 1).max()) < 1e-12,
           "reported incompressibility is that of the returned phases", got=d["max_abs_incomp"], want=np.abs(p.fractions.sum(axis=1) - 1).max())
    scale = 1e-9 * ref.scale_of(chis, w)
    if case["mode"] != "incomp":
        err, js, res = expected(phi, chis, w, l, case["cons"])
        ensure(abs(d["max_abs_omega_diff"] - err) < scale * 20, "reported field error", got=d["max_abs_omega_diff"], want=err)
        ensure(abs(d["max_abs_js_diff"] - js) < scale * 20, "reported volume error", got=d["max_abs_js_diff"], want=js)
        ensure(abs(d["max_constraint_residue"] - res) < scale, "reported residue of constraints", got=d["max_constraint_residue"], want=res)
    elif case["cons"] is None:
        ensure(d["max_abs_incomp"] > d["max_abs_omega_diff"] and d["max_abs_js_diff"] < 1e-9, "only the incompressibility is violated", got=d)
    worst = max(d[k] for k in KEYS)
    if not worst > 1e-9:
        raise Trivial("stationary")
    which = [k for k in KEYS if d[k] == worst][0]
    # decision to stop: just above the largest residual it stops after the first step, just below it goes on
    for fac in (1.01, 0.99):
        f.reinitialize_from_omegas(w.T)
        f.run(max_steps=3, interval=1, tolerance=fac * worst)
        if fac > 1:
            ensure(f.diagnostics["steps"] == 1, "stops as soon as all residuals are below the tolerance", got=f.diagnostics, tol=fac * worst)
        else:
            ensure(f.diagnostics["steps"] > 1, "does not stop while a residual exceeds the tolerance", got=f.diagnostics, tol=fac * worst, before={k: d[k] for k in KEYS})
    others = max(d[k] for k in KEYS if k != which)
    return [case["mode"], "largest:" + which, "alone" if others < 1e-3 * worst else "mixed"]


@st.composite
def strat_runs(draw):
    return {"sys": draw(S.system(poly=False)), "seed": draw(gen.SEED), "parts": draw(st.sampled_from([8, 4, 2, 6])),
            "tol": draw(st.sampled_from([1e-2, 1e-3, 1e-4, 1e-5])), "interval": draw(st.integers(1, 60)), "steps": draw(st.one_of(st.sampled_from([30_000, 20_000]), st.integers(1000, 30_000), st.integers(1, 4000))),
            "kill": draw(st.sampled_from([0.0, 0.05, 0.2])), "revive": draw(st.sampled_from([0, 1, 16]))}


def check_runs(case):
    s = case["sys"]
    f = S.finder(s, case["seed"], case["parts"], max_steps=case["steps"], interval=case["interval"], tolerance=case["tol"],
                 kill_threshold=case["kill"], max_revive_per_compartment=case["revive"], random_std=2.0)
    p = f.run()
    d = f.diagnostics
    blocks = -(-case["steps"] // case["interval"])
    full = blocks * max(1, case["steps"] // blocks)
    ensure(1 <= d["steps"] <= full, "number of steps", got=d["steps"], want=full)
    ensure(np.abs(p.fractions.sum(axis=1) - 1).max() <= d["max_abs_incomp"] + 1e-12, "reported incompressibility covers all returned phases",
           got=np.abs(p.fractions.sum(axis=1) - 1).max(), want=d["max_abs_incomp"])
    if d["steps"] == full:
        raise Trivial("not stopped early")
    for k in KEYS:
        ensure(d[k] < case["tol"], "stopped early although a residual exceeds the tolerance", key=k, got=d)
    mu = S.mus(p.fractions, s)
    ensure(np.ptp(mu, axis=0).max() <= 16 * case["tol"], "stopped early in a state which is not balanced", got=np.ptp(mu, axis=0), tol=case["tol"])
    ensure(np.abs(p.volumes @ p.fractions - s["phi"]).max() <= case["tol"] + 1e-10, "stopped early in a state which does not conserve material")
    return f"kill{case['kill'] > 0}"


@st.composite
def strat_dying(draw):
    n = draw(st.integers(2, 4))
    return {"sys": {"kind": "fh", "counts": [1] * n, "chis": draw(gen.symmetric(n, -3, 6)), "sizes": draw(gen.sizes(n, S.MILD_SIZE)),
                    "phi": draw(gen.mild_composition(n, 0.08))},
            "M": draw(st.integers(2, 8)), "wseed": draw(gen.SEED), "std": draw(st.sampled_from([1.0, 0.5, 2.0])), "seed": draw(gen.SEED),
            "quantile": draw(gen.ratio(0.05, 0.95, 100)), "k": draw(st.sampled_from([1, 2, 1, 3, 5, 9])), "bound": draw(st.sampled_from([0.1, 0.02, 0.3]))}


def check_dying(case):
    """with a generous tolerance, only a compartment that dies in the last step of a block keeps the run going"""
    M, k = case["M"], case["k"]
    w = np.random.default_rng(case["wseed"]).normal(0, case["std"], (S.ncomp(case["sys"]), M))

    def run(steps, interval, kill, tol):
        f = S.finder(case["sys"], case["seed"], M, acceptance_Js=10.0, Js_step_upper_bound=case["bound"], acceptance_omega=0.0, kill_threshold=kill,
                     max_revive_per_compartment=0)
        f.reinitialize_from_omegas(w)
        p = f.run(max_steps=steps, interval=interval, tolerance=tol)
        return f.diagnostics, p

    _, p0 = run(k, k, 0.0, 1e-300)
    if np.abs(p0.fractions[:, None] - p0.fractions[None]).max(axis=2)[~np.eye(M, dtype=bool)].min() < 1e-9:
        raise Trivial("equal compartments")
    J = np.sort(p0.volumes * M)
    q = min(M - 2, int(case["quantile"] * (J < 0.99).sum()))
    t = 0.5 * (J[q] + J[q + 1])
    if not (0 < J[q] < t - 1e-6 < t + 1e-6 < J[q + 1] and t < 0.999):
        raise Trivial("no threshold between the volumes")

    def living(steps):
        # dead compartments are replaced by copies, so different rows are living compartments
        return M if steps == 0 else len(np.unique(run(steps, steps, t, 1e-300)[1].fractions, axis=0))

    before, after = living(k - 1), living(k)
    d, _ = run(3 * k, k, t, 1e9)
    ensure(d["max_abs_incomp"] < 1e9, "residuals are below the tolerance", got=d)
    if before != after:
        ensure(d["steps"] > k, "does not stop when a compartment died in the last step", got=d, before=before, after=after)
        return "died-last"
    ensure(d["steps"] == k, "stops when all residuals are small and no compartment died in the last step", got=d, before=before, after=after)
    return "died-earlier" if after < M else "nobody-died"


@st.composite
def strat_traj(draw, combo):
    case = draw(model.strat(combo, draw(st.integers(0, 2)) == 0))
    case.update(interval=draw(st.integers(1, 6)), pick=draw(st.integers(0, 11)), fac=draw(st.sampled_from([1.001, 0.999])))
    return case


def check_traj(case):
    """diagnostics and the decision to stop against the model of the whole iteration"""
    path = model.follow(case, case["steps"])
    if not path:
        raise Trivial("not followed")
    k, s = len(path), path[-1]
    f = model.build(case)
    f.reinitialize_from_omegas(model.fields(case))
    p = f.run(max_steps=k)
    d = f.diagnostics
    ensure(d["steps"] == k, "number of steps", got=d["steps"], want=k)
    for key in KEYS:
        ensure(model.close(d[key], s["diag"][key], s["tol"]), "diagnostics are the residuals of the state", key=key, got=d, want=s["diag"], steps=k)
    ensure(model.close(p.fractions[s["after"]], s["phi"].T[s["after"]], s["tol"]), "returned fractions are those of the state", got=p.fractions, want=s["phi"].T)
    # stopping: residuals count at the checks only
    b = case["interval"]
    checks = [(j, max(path[j - 1]["diag"].values()), path[j - 1]["live"].sum() == path[j - 1]["after"].sum()) for j in range(b, k + 1, b)]
    if not checks:
        return [case["ens"], "short"]
    tol = case["fac"] * checks[case["pick"] % len(checks)][1]
    if tol <= 1e-7 or any(abs(w - tol) < 1e-4 * tol for _, w, _ in checks):
        return [case["ens"], "tie"]
    want = next((j for j, w, safe in checks if w < tol and safe), checks[-1][0])
    f.reinitialize_from_omegas(model.fields(case))
    f.run(max_steps=checks[-1][0], interval=b, tolerance=tol)
    ensure(f.diagnostics["steps"] == want, "stops at the first check at which all residuals are below the tolerance and no compartment just died", got=f.diagnostics, want=want, tol=tol, checks=checks)
    return [case["ens"], "stopped" if want < checks[-1][0] else "ran through", "died" if not s["after"].all() else "all living"]


@st.composite
def strat_criterion(draw):
    return {"sys": draw(S.system(poly=False)), "seed": draw(gen.SEED), "parts": draw(st.sampled_from([4, 2, 6, 1])),
            "name": draw(st.one_of(st.sampled_from(["standard", "Standard", "", "none", "incomp", "standard ", "strict"]), st.text(max_size=8))),
            "steps": draw(st.integers(1, 400)), "interval": draw(st.integers(1, 60)), "tol": draw(st.sampled_from([1e-2, 1e-5, 1e9, 0.3]))}


def check_criterion(case):
    """"standard" is what is used by default; a criterion which does not exist is an error, never a result"""
    def run(**kw):
        f = S.finder(case["sys"], case["seed"], case["parts"], max_steps=case["steps"], interval=case["interval"], tolerance=case["tol"], **kw)
        return f.run(), f.diagnostics

    if case["name"] == "standard":
        (p, d), (q, e) = run(), run(convergence_criterion="standard")
        ensure(np.array_equal(p.fractions, q.fractions) and np.array_equal(p.volumes, q.volumes), "the standard criterion is the default", got=q, want=p)
        ensure(all(d[k] == e[k] for k in KEYS + ("steps",)), "the standard criterion is the default", got=e, want=d)
        return "standard"
    try:
        p, _ = run(convergence_criterion=case["name"])
    except ValueError:
        return "rejected"
    ensure(False, "an undefined convergence criterion gives a result", name=case["name"], got=p)


PARTS = [
    Part("criterion", strat_criterion, check_criterion, 150, 1500),
    Part("states", lambda: strat(None), check, 800, 12000, warmup=S.warm_fh),
    Part("dying", strat_dying, check_dying, 1200, 12000),
    Part("runs", strat_runs, check_runs, 800, 12000),
    Part("states-local", lambda: strat("local"), check, 300, 4000, once=True),
    Part("states-global", lambda: strat("global"), check, 300, 4000, once=True),
] + [Part("trajectory-" + c, lambda c=c: strat_traj(c), check_traj, 500, 5000, once=True) for c in model.COMBOS]
