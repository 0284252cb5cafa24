"""C17: a reused finder behaves like a new one."""
import numpy as np
from hypothesis import strategies as st

import flory
from lib import gen, systems as S
from lib.build import rng
from lib.harness import Part, Trivial, ensure

RULE = (
    "cases are histories of 2-8 operations on one finder (runs of 1-60 steps, runs from fields that diverge, exchanging interaction, entropy, ensemble or "
    "constraints with or without individual options and reset of the budget, re-initialisations), followed by a re-initialisation and "
    "a run, compared bit for bit with a finder newly created with the parts and options in effect. Parts 'histories-*' do the same with both ensembles exchanged for each other, polydispersed mixtures and several constraints with individual options. Non-trivial = the history "
    "contains a run and an exchange"
)


def DIVERGE(draw):
    return {"value": draw(st.sampled_from(["nan", "inf", "-inf", "-2000", "2000", "-300"])), "all": draw(st.booleans()), "steps": draw(st.integers(1, 30))}


def diverge(f, op):
    """a run from hopeless fields leaves nothing behind"""
    w = np.array(f.omegas)
    w[:] = np.where(np.isfinite(w), w, 0.0)
    if op["all"]:
        w[:] = float(op["value"])
    else:
        w[0, -1] = float(op["value"])
    f.reinitialize_from_omegas(w)
    try:
        with np.errstate(all="ignore"):
            f.run(max_steps=op["steps"])
    except ZeroDivisionError:
        pass


@st.composite
def strat(draw):
    n = draw(st.integers(2, 4))

    def chis():
        return draw(gen.symmetric(n, -3, 6))

    def sizes():
        return draw(gen.sizes(n, S.MILD_SIZE))

    def phi():
        return draw(gen.mild_composition(n, 0.08))

    def cons():
        if draw(st.integers(0, 2)) == 0:
            return None
        return {"C": draw(st.lists(st.sampled_from([1.0, 0.0, -1.0, 0.5]), min_size=n, max_size=n)), "T": draw(gen.ratio(-0.5, 0.8, 10))}

    shift = st.sampled_from([None, 0.3, 2.0])
    case = {"n": n, "parts": draw(st.sampled_from([4, 6, 2, 8])), "seed": draw(gen.SEED), "chis": chis(), "sizes": sizes(), "phi": phi(), "cons": cons(),
            "shift": draw(shift), "ela": draw(shift), "kill": draw(st.sampled_from([0.0, 0.3, 0.8])), "revive": draw(st.sampled_from([16, 2, 0]))}
    ops = []
    for _ in range(draw(st.integers(2, 8))):
        k = draw(st.sampled_from(["run", "run", "run", "interaction", "interaction", "entropy", "ensemble", "ensemble", "constraints", "constraints", "random", "omegas", "phis", "diverge"]))
        op = {"op": k}
        if k == "run":
            op["steps"] = draw(st.integers(1, 60))
        elif k == "diverge":
            op.update(DIVERGE(draw))
        elif k == "interaction":
            op.update(chis=chis(), shift=draw(shift), reset=draw(st.booleans()))
        elif k == "entropy":
            op.update(sizes=sizes(), reset=draw(st.booleans()))
        elif k == "ensemble":
            op.update(phi=phi(), reset=draw(st.booleans()))
        elif k == "constraints":
            op.update(cons=cons(), ela=draw(shift), how=draw(st.sampled_from(["kwargs", "individual", "tuple", "tuple-common"])), reset=draw(st.booleans()))
        ops.append(op)
    case["ops"] = ops
    case["end"] = draw(st.sampled_from(["random", "omegas", "phis"]))
    case["steps"] = draw(st.integers(1, 120))
    return case


def _cons(c, n):
    return None if c is None else flory.LinearLocalConstraint(n, np.array([c["C"]]), np.array([c["T"]]))


def build(n, parts, gen_, chis, sizes, phi, cons, shift, ela, kill, revive):
    kw = {}
    if shift is not None:
        kw["additional_chis_shift"] = shift
    if ela is not None:
        kw["constraint_elasticity"] = ela
    fe = flory.FloryHuggins(n, chis, sizes)
    return flory.CoexistingPhasesFinder(fe.interaction, fe.entropy, flory.CanonicalEnsemble(n, phi), _cons(cons, n), num_part=parts, rng=gen_,
                                        kill_threshold=kill, max_revive_per_compartment=revive, random_std=2.0, progress=False, tolerance=1e-12,
                                        acceptance_Js=0.01, acceptance_omega=0.02, Js_step_upper_bound=0.02, interval=20, **kw)


def start(f, how, seed, n, M):
    g = np.random.default_rng(seed)
    if how == "random":
        f.reinitialize_random()
    elif how == "omegas":
        f.reinitialize_from_omegas(g.normal(size=(n, M)) * 2)
    else:
        f.reinitialize_from_phis(g.dirichlet(np.ones(n), size=M).T)


def check(case):
    n, M = case["n"], case["parts"]
    g1 = rng(case["seed"])
    cur = {k: case[k] for k in ("chis", "sizes", "phi", "cons", "shift", "ela")}
    f = build(n, M, g1, kill=case["kill"], revive=case["revive"], **cur)
    ran = changed = 0
    for op in case["ops"]:
        k = op["op"]
        if k == "run":
            try:
                f.run(max_steps=op["steps"])
            except ZeroDivisionError:  # after a run that diverged
                pass
            ran += 1
        elif k == "diverge":
            diverge(f, op)
            ran += 1
        elif k == "interaction":
            kw = {} if op["shift"] is None else {"additional_chis_shift": op["shift"]}
            f.set_interaction(flory.FloryHugginsInteraction(n, op["chis"]), if_reset_revive=op["reset"], **kw)
            cur.update(chis=op["chis"], shift=case["shift"] if op["shift"] is None else op["shift"])
            changed += 1
        elif k == "entropy":
            f.set_entropy(flory.IdealGasEntropy(n, op["sizes"]), if_reset_revive=op["reset"])
            cur.update(sizes=op["sizes"])
            changed += 1
        elif k == "ensemble":
            f.set_ensemble(flory.CanonicalEnsemble(n, op["phi"]), if_reset_revive=op["reset"])
            cur.update(phi=op["phi"])
            changed += 1
        elif k == "constraints":
            c = _cons(op["cons"], n)
            kw = {} if op["ela"] is None else {"constraint_elasticity": op["ela"]}
            if c is None or op["how"] == "kwargs":
                f.set_constraints(c, if_reset_revive=op["reset"], **kw)
            elif op["how"] == "individual":
                f.set_constraints(c, if_reset_revive=op["reset"], kwargs_individual=kw, constraint_elasticity=7.7 if kw else case["ela"] or 1.0)
            elif op["how"] == "tuple":
                f.set_constraints((c,), if_reset_revive=op["reset"], kwargs_individual=(kw,) if kw else None)
            else:
                f.set_constraints([c], if_reset_revive=op["reset"], kwargs_individual=[kw], constraint_elasticity=7.7 if kw else case["ela"] or 1.0)
            cur.update(cons=op["cons"], ela=case["ela"] if op["ela"] is None else op["ela"])
            changed += 1
        else:
            start(f, k, case["seed"] + 11, n, M)
    g2 = rng(case["seed"] + 1)
    new = build(n, M, g2, kill=case["kill"], revive=case["revive"], **cur)
    g1.bit_generator.state = g2.bit_generator.state
    start(f, case["end"], case["seed"] + 12, n, M)
    start(new, case["end"], case["seed"] + 12, n, M)
    a, b = f.run(max_steps=case["steps"]), new.run(max_steps=case["steps"])
    for x, y, what in ((a.volumes, b.volumes, "volumes"), (a.fractions, b.fractions, "fractions"), (f.omegas, new.omegas, "fields")):
        ensure(np.array_equal(x, y, equal_nan=True), f"{what} of a reused finder equal those of a new one", got=x, want=y)
    da, db = ({k: v for k, v in d.items() if k != "time"} for d in (f.diagnostics, new.diagnostics))
    ensure(list(da) == list(db) and all(np.array_equal(da[k], db[k], equal_nan=True) for k in da), "diagnostics of a reused finder equal those of a new one", got=da, want=db)
    if not (ran and changed):
        raise Trivial("nothing was reused")
    return [case["end"], "constrained" if cur["cons"] else "free"]


# --- wider families: other ensembles, polydispersed mixtures, several constraints ---------------------------------------------------

FAMILY = {
    "grand": ("fh", ["canonical", "grand"], [""]),
    "grand-constrained": ("fh", ["grand"], ["", "L", "G"]),
    "poly": ("poly", ["canonical", "grand"], ["", "G"]),
    "several": ("fh", ["canonical"], ["", "G", "LG", "GL", "LL"]),
    "three": ("fh", ["canonical"], ["GLG", "GLG", "GLG", ""]),
    "four": ("fh", ["canonical"], ["LGGL"]),
}


@st.composite
def strat_family(draw, name):
    kind, ens, cons = FAMILY[name]
    counts = [1] * draw(st.integers(2, 3)) if kind == "fh" else draw(st.sampled_from([[1, 2], [2, 1], [2, 1, 1], [2, 2]]))
    nf, n = len(counts), sum(counts)
    shift = st.sampled_from([None, 0.3, 2.0])
    number = st.sampled_from([None, 0.5, 2.0])

    def part(k):
        if k == "interaction":
            return draw(gen.symmetric(nf, -3, 6))
        if k == "entropy":
            return draw(gen.sizes(n, S.MILD_SIZE))
        if k == "ensemble":
            return [draw(st.sampled_from(ens)), draw(gen.mild_composition(n, 0.08))]
        return [{"kind": c, "Cs": [draw(st.lists(st.sampled_from([1.0, 0.0, -1.0, 0.5]), min_size=nf, max_size=nf)) for _ in range(draw(st.integers(1, 2)))],
                 "T": draw(gen.ratio(-0.5, 0.8, 10)), "ela": draw(number), "acc": draw(number)} for c in draw(st.sampled_from(cons))]

    names = ["interaction", "entropy", "ensemble", "constraints"]
    case = {"counts": counts, "parts": draw(st.sampled_from([4, 6, 2, 1])), "seed": draw(gen.SEED), **{k: part(k) for k in names},
            "shift": draw(shift), "ela": draw(number), "acc": draw(number), "kill": draw(st.sampled_from([0.0, 0.3, 0.8])), "revive": draw(st.sampled_from([16, 2, 0]))}
    ops = []
    for _ in range(draw(st.integers(2, 7))):
        k = draw(st.sampled_from(["run", "run", "random", "omegas", "phis", "diverge"] + names))
        op = {"op": k}
        if k == "run":
            op["steps"] = draw(st.integers(1, 60))
        elif k == "diverge":
            op.update(DIVERGE(draw))
        elif k in names:
            op.update(value=part(k), shift=draw(shift), ela=draw(number), reset=draw(st.booleans()), individual=draw(st.booleans()))
        ops.append(op)
    case.update(ops=ops, end=draw(st.sampled_from(["random", "omegas", "phis"])), steps=draw(st.integers(1, 100)))
    return case


def piece(k, v, counts):
    nf, n = len(counts), sum(counts)
    plain = nf == n
    if k == "interaction":
        return flory.FloryHugginsInteraction(n, v) if plain else flory.FloryHugginsBlockInteraction(nf, v, counts)
    if k == "entropy":
        return flory.IdealGasEntropy(n, v) if plain else flory.IdealGasPolydispersedEntropy(nf, v, counts)
    if k == "ensemble":
        return (flory.CanonicalEnsemble if v[0] == "canonical" else flory.GrandCanonicalEnsemble)(n, v[1])
    return [(flory.LinearLocalConstraint if c["kind"] == "L" else flory.LinearGlobalConstraint)(nf, np.array(c["Cs"]), np.full(len(c["Cs"]), c["T"])) for c in v]


def options(**kw):
    names = {"shift": "additional_chis_shift", "ela": "constraint_elasticity", "acc": "constraint_acceptance_ratio"}
    return {names[k]: v for k, v in kw.items() if v is not None}


def check_family(case):
    counts, M = case["counts"], case["parts"]
    nf = len(counts)
    default = options(shift=case["shift"], ela=case["ela"], acc=case["acc"])

    def create(g, cur, **kw):
        cs = piece("constraints", cur["constraints"], counts)
        return flory.CoexistingPhasesFinder(*(piece(k, cur[k], counts) for k in ("interaction", "entropy", "ensemble")), cs or None, num_part=M, rng=g,
                                            kill_threshold=case["kill"], max_revive_per_compartment=case["revive"], random_std=1.0, progress=False, tolerance=1e-12,
                                            acceptance_Js=0.01, acceptance_omega=0.02, Js_step_upper_bound=0.02, interval=20, **kw)

    g1 = rng(case["seed"])
    cur = {k: case[k] for k in ("interaction", "entropy", "ensemble", "constraints")}
    f = create(g1, cur, **default)
    opt = {"shift": case["shift"], "cons": [(case["ela"], case["acc"])] * len(cur["constraints"])}
    ran = changed = 0
    for op in case["ops"]:
        k = op["op"]
        if k == "run":
            try:
                f.run(max_steps=op["steps"])
            except ZeroDivisionError:
                pass
            ran += 1
        elif k == "diverge":
            diverge(f, op)
            ran += 1
        elif k in cur:
            v = op["value"]
            changed += 1
            cur[k] = v
            if k == "constraints":
                cs = piece(k, v, counts)
                kw = {"kwargs_individual": [options(ela=c["ela"], acc=c["acc"]) for c in v]} if op["individual"] and cs else {}
                f.set_constraints(cs[0] if len(cs) == 1 and not kw else (cs or None), if_reset_revive=op["reset"], **kw, **options(ela=op["ela"]))
                # individual options first, then those of the call, then the defaults of the finder
                common = case["ela"] if op["ela"] is None else op["ela"]
                opt["cons"] = [((common if c["ela"] is None else c["ela"]), (case["acc"] if c["acc"] is None else c["acc"])) if kw else (common, case["acc"]) for c in v]
            else:
                kw = options(shift=op["shift"]) if k == "interaction" else {}
                getattr(f, "set_" + k)(piece(k, v, counts), if_reset_revive=op["reset"], **kw)
                if k == "interaction":
                    opt["shift"] = case["shift"] if op["shift"] is None else op["shift"]
        else:
            start(f, k, case["seed"] + 11, nf, M)
    g2 = rng(case["seed"] + 1)
    new = create(g2, cur, **options(shift=opt["shift"]))
    if cur["constraints"]:
        new.set_constraints(piece("constraints", cur["constraints"], counts), kwargs_individual=[options(ela=e, acc=a) for e, a in opt["cons"]])
    g1.bit_generator.state = g2.bit_generator.state
    start(f, case["end"], case["seed"] + 12, nf, M)
    start(new, case["end"], case["seed"] + 12, nf, M)
    try:
        b = new.run(max_steps=case["steps"])
    except ZeroDivisionError:
        raise Trivial("diverging iteration")
    a = f.run(max_steps=case["steps"])
    for x, y, what in ((a.volumes, b.volumes, "volumes"), (a.fractions, b.fractions, "fractions"), (f.omegas, new.omegas, "fields")):
        ensure(np.array_equal(x, y, equal_nan=True), f"{what} of a reused finder equal those of a new one", got=x, want=y)
    da, db = ({k: v for k, v in d.items() if k != "time"} for d in (f.diagnostics, new.diagnostics))
    ensure(list(da) == list(db) and all(np.array_equal(da[k], db[k], equal_nan=True) for k in da), "diagnostics of a reused finder equal those of a new one", got=da, want=db)
    if not (ran and changed):
        raise Trivial("nothing was reused")
    return [case["end"], cur["ensemble"][0], "".join(c["kind"] for c in cur["constraints"]) or "free"]


def warm():
    for c in (None, {"C": [1.0, 0.0], "T": 0.5}):
        build(2, 2, rng(0), [[0, 2.0], [2.0, 0]], [1.0, 1.0], [0.5, 0.5], c, None, None, 0.0, 1).run(max_steps=2)


PARTS = [Part("histories", strat, check, 2400, 24000, warmup=warm)] + [
    Part("histories-" + k, lambda k=k: strat_family(k), check_family, 700, 7000, once=True) for k in FAMILY]
