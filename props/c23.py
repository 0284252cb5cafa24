"""C23: parts which do not fit are rejected and leave everything as it was."""
import numpy as np
from hypothesis import strategies as st

import flory
from flory.common import ComponentNumberError, FeatureNumberError
from lib import gen, systems as S
from lib.build import rng
from lib.harness import Part, Trivial, ensure

RULE = (
    "cases are (a) histories in which a finder is interleaved with rejected calls (interaction, entropy, ensemble, constraints, "
    "start fields of a wrong size, individual options for another number of constraints) and must then continue bit for bit like a twin which never saw these calls, (b) finders and "
    "free energies constructed from parts whose numbers of components or features disagree, and (c) values of a wrong shape given "
    "to constructors and setters. Non-trivial = at least one call had to be rejected"
)


def must_raise(exc, fn, what):
    try:
        fn()
    except exc:
        return
    except Exception as e:
        ensure(False, f"{what}: rejected with the documented error", got=type(e).__name__, want=getattr(exc, "__name__", str(exc)))
    ensure(False, f"{what}: must be rejected")


OTHER = st.sampled_from([1, -1, 2, 3])


@st.composite
def strat_hist(draw):
    n = draw(st.integers(2, 3))
    ops = []
    for _ in range(draw(st.integers(1, 6))):
        k = draw(st.sampled_from(["run", "interaction", "block", "entropy", "poly", "ensemble", "grand", "constraint", "tuple", "options", "omegas", "phis"]))
        op = {"op": k, "d": draw(OTHER)}
        if k == "run":
            op["steps"] = draw(st.integers(1, 30))
        op["reset"] = draw(st.booleans())
        op["shape"] = draw(st.sampled_from(["rows", "cols", "flat", "transposed", "scalar"]))
        ops.append(op)
    return {"n": n, "parts": draw(st.sampled_from([4, 5, 2, 7])), "seed": draw(gen.SEED), "chis": draw(gen.symmetric(n, -3, 6)),
            "sizes": draw(gen.sizes(n, S.MILD_SIZE)), "phi": draw(gen.mild_composition(n, 0.1)), "cons": draw(st.booleans()),
            "kill": draw(st.sampled_from([0.0, 0.4, 0.8])), "ops": ops, "steps": draw(st.integers(1, 60))}


def make(case):
    n = case["n"]
    fe = flory.FloryHuggins(n, case["chis"], case["sizes"])
    g = rng(case["seed"])
    cons = flory.LinearLocalConstraint(n, np.array([[1.0] + [0.0] * (n - 1)]), np.array([0.4])) if case["cons"] else None
    f = flory.CoexistingPhasesFinder(fe.interaction, fe.entropy, flory.CanonicalEnsemble(n, case["phi"]), cons, num_part=case["parts"], rng=g,
                                     kill_threshold=case["kill"], max_revive_per_compartment=3, random_std=2.0, progress=False, tolerance=1e-12,
                                     acceptance_Js=0.01, acceptance_omega=0.02, Js_step_upper_bound=0.02, interval=20)
    return f, g


def _field(shape, n, M):
    if shape == "rows":
        return np.ones((n + 1, M))
    if shape == "cols":
        return np.ones((n, M + 1))
    if shape == "flat":
        return np.ones(n * M)
    if shape == "transposed":
        return np.ones((M, n)) if M != n else np.ones((M, n, 1))
    return 1.0


def check_hist(case):
    n, M = case["n"], case["parts"]
    a, ga = make(case)
    b, gb = make(case)
    rejected = ran = 0
    for op in case["ops"]:
        k, kw = op["op"], {"if_reset_revive": op["reset"]}
        m = n + op["d"]
        if m < 1:
            m = n + 1
        if k == "run":
            a.run(max_steps=op["steps"])
            b.run(max_steps=op["steps"])
            ran += 1
            continue
        rejected += 1
        if k == "interaction":
            must_raise(FeatureNumberError, lambda: a.set_interaction(flory.FloryHugginsInteraction(m, 1.5), **kw), "interaction of another size")
        elif k == "block":
            # as many components as the finder, but fewer features
            must_raise(FeatureNumberError, lambda: a.set_interaction(flory.FloryHugginsBlockInteraction(n - 1, 2.0, [1] * (n - 2) + [2]), **kw), "interaction with another number of features")
        elif k == "entropy":
            must_raise((ComponentNumberError, FeatureNumberError), lambda: a.set_entropy(flory.IdealGasEntropy(m), **kw), "entropy of another size")
        elif k == "poly":
            counts, exc = (([1] * (n - 2) + [2], FeatureNumberError) if op["d"] > 1 else ([1] * (n - 1) + [2], ComponentNumberError))
            must_raise(exc, lambda: a.set_entropy(flory.IdealGasPolydispersedEntropy(len(counts), None, counts), **kw), "entropy with another grouping")
        elif k == "ensemble":
            must_raise(ComponentNumberError, lambda: a.set_ensemble(flory.CanonicalEnsemble(m), **kw), "ensemble of another size")
        elif k == "grand":
            must_raise(ComponentNumberError, lambda: a.set_ensemble(flory.GrandCanonicalEnsemble(m, 0.3), **kw), "ensemble of another size")
        elif k == "constraint":
            cls = flory.LinearLocalConstraint if op["d"] > 0 else flory.LinearGlobalConstraint
            must_raise(FeatureNumberError, lambda: a.set_constraints(cls(m, [1.0] * m, 0.2), **kw), "constraint of another size")
        elif k == "tuple":
            good = flory.LinearLocalConstraint(n, [1.0] * n, 0.3)
            bad = flory.LinearGlobalConstraint(m, [1.0] * m, 0.2)
            must_raise(FeatureNumberError, lambda: a.set_constraints((good, bad) if op["d"] > 0 else (bad, good), **kw), "one constraint of another size")
        elif k == "options":
            # individual options for fewer or more constraints than there are
            cs = [flory.LinearLocalConstraint(n, [1.0] + [0.0] * (n - 1), 0.3), flory.LinearGlobalConstraint(n, [0.0] * (n - 1) + [1.0], 0.2)]
            opts = [{"constraint_elasticity": 0.5}] * {1: 1, -1: 0, 2: 3, 3: 4}[op["d"]]
            must_raise(ValueError, lambda: a.set_constraints(cs, kwargs_individual=opts if op["reset"] else tuple(opts), **kw), "individual options for another number of constraints")
        else:
            fn = a.reinitialize_from_omegas if k == "omegas" else a.reinitialize_from_phis
            must_raise(ValueError, lambda: fn(_field(op["shape"], n, M)), f"{k} of the shape '{op['shape']}'")
    ensure(np.array_equal(a.omegas, b.omegas, equal_nan=True), "rejected calls leave the fields untouched", got=a.omegas, want=b.omegas)
    p, q = a.run(max_steps=case["steps"]), b.run(max_steps=case["steps"])
    for x, y, what in ((p.volumes, q.volumes, "volumes"), (p.fractions, q.fractions, "fractions"), (a.omegas, b.omegas, "fields")):
        ensure(np.array_equal(x, y, equal_nan=True), f"{what} are those of a finder which never saw the rejected calls", got=x, want=y)
    da, db = ({k: v for k, v in f.diagnostics.items() if k != "time"} for f in (a, b))
    ensure(list(da) == list(db) and all(np.array_equal(da[k], db[k], equal_nan=True) for k in da), "diagnostics are those of a finder which never saw the rejected calls", got=da, want=db)
    ensure(str(ga.bit_generator.state) == str(gb.bit_generator.state), "rejected calls draw no random numbers")
    if not rejected:
        raise Trivial("nothing was rejected")
    return ["ran before" if ran else "fresh", "constrained" if case["cons"] else "free"]


@st.composite
def strat_construct(draw):
    counts = draw(st.lists(st.integers(1, 3), min_size=1, max_size=3))
    other = draw(st.lists(st.integers(1, 3), min_size=1, max_size=3))
    return {"counts": counts, "other": other, "which": draw(st.sampled_from(["interaction", "entropy", "ensemble", "constraint", "constraints", "free energy", "criterion"])),
            "flat": draw(st.booleans()), "seed": draw(gen.SEED), "grand": draw(st.booleans())}


def check_construct(case):
    c, o = case["counts"], case["other"]
    n, nf, m, mf = sum(c), len(c), sum(o), len(o)

    def inter(k):
        return flory.FloryHugginsInteraction(sum(k), 1.0) if case["flat"] else flory.FloryHugginsBlockInteraction(len(k), 1.0, k)

    def entr(k):
        return flory.IdealGasEntropy(sum(k)) if case["flat"] else flory.IdealGasPolydispersedEntropy(len(k), None, k)

    def ens(k):
        return flory.GrandCanonicalEnsemble(k, 0.2) if case["grand"] else flory.CanonicalEnsemble(k)

    def cons(k):
        return flory.LinearLocalConstraint(k, [1.0] * k, 0.3)

    if case["flat"]:
        nf, mf = n, m
    w = case["which"]
    g = rng(case["seed"])
    before = str(g.bit_generator.state)
    kw = dict(num_part=3, rng=g, progress=False)
    F = flory.CoexistingPhasesFinder
    if w == "free energy":
        bad = m != n
        args, exc = (lambda: flory.FreeEnergyBase(inter(o), entr(c))), ComponentNumberError
    elif w == "interaction":
        bad = mf != nf
        args, exc = (lambda: F(inter(o), entr(c), ens(n), **kw)), FeatureNumberError
    elif w == "entropy":
        bad = m != n or mf != nf
        args, exc = (lambda: F(inter(c), entr(o), ens(n), **kw)), (ComponentNumberError, FeatureNumberError)
    elif w == "ensemble":
        bad = m != n
        args, exc = (lambda: F(inter(c), entr(c), ens(m), **kw)), ComponentNumberError
    elif w == "constraint":
        bad = mf != nf
        args, exc = (lambda: F(inter(c), entr(c), ens(n), cons(mf), **kw)), FeatureNumberError
    elif w == "constraints":
        bad = mf != nf
        args, exc = (lambda: F(inter(c), entr(c), ens(n), [cons(nf), cons(mf)], **kw)), FeatureNumberError
    else:
        f = F(inter(c), entr(c), ens(n), convergence_criterion="strict", **kw)
        if case["flat"] and not case["grand"]:
            must_raise(ValueError, lambda: f.run(max_steps=2, interval=1), "unknown convergence criterion")
            return [w]
        raise Trivial("criterion")
    if bad:
        must_raise(exc, args, f"{w} which does not fit")
        ensure(str(g.bit_generator.state) == before, "a rejected construction draws no random numbers")
        return [w]
    args()  # consistent parts are accepted
    raise Trivial("parts fit")


@st.composite
def strat_values(draw):
    n = draw(st.integers(2, 4))
    kind = draw(st.sampled_from(["chis", "fh chis", "chis_feat", "sizes", "fh sizes", "poly sizes", "phi_means", "scaled_activity", "Cs", "Ts", "Cs3", "num_comp", "phases"]))
    return {"n": n, "kind": kind, "how": draw(st.sampled_from(["construct", "set"])), "d": draw(st.sampled_from([1, 2, -1])),
            "counts": draw(st.lists(st.integers(1, 3), min_size=n, max_size=n)), "ndim": draw(st.booleans()), "glob": draw(st.booleans())}


def check_values(case):
    n, kind, d = case["n"], case["kind"], case["d"]
    m = n + d
    if m == 1:
        m = n + 1  # a single value is spread over all entries: legal
    construct = case["how"] == "construct"
    mat = np.full((m, m), 0.7) if not case["ndim"] else np.full((n, m), 0.7)
    vec = np.full(m, 0.7) if not case["ndim"] else np.full((2, n), 0.7)
    good_m = np.full((n, n), 0.25) + np.eye(n)
    good_v = np.linspace(0.1, 1.0, n)
    good_v /= good_v.sum()
    cons = flory.LinearGlobalConstraint if case["glob"] else flory.LinearLocalConstraint

    def chk(build, attr, good, bad, view=lambda o: o):
        if construct:
            must_raise(ValueError, lambda: build(bad), f"{kind} of the shape {np.shape(bad)}")
            return
        o = build(good)
        old = np.array(getattr(o, attr))
        must_raise(ValueError, lambda: setattr(o, attr, bad), f"{kind} of the shape {np.shape(bad)}")
        ensure(np.array_equal(getattr(o, attr), old), f"{kind}: a rejected value leaves the old one", got=getattr(o, attr), want=old)

    if kind == "chis":
        chk(lambda v: flory.FloryHugginsInteraction(n, v), "chis", good_m, mat)
    elif kind == "fh chis":
        chk(lambda v: flory.FloryHuggins(n, v), "chis", good_m, mat)
    elif kind == "chis_feat":
        chk(lambda v: flory.FloryHugginsBlockInteraction(n, v, case["counts"]), "chis_feat", good_m, mat)
    elif kind == "sizes":
        chk(lambda v: flory.IdealGasEntropy(n, v), "sizes", good_v, vec)
    elif kind == "fh sizes":
        chk(lambda v: flory.FloryHuggins(n, 0.0, v), "sizes", good_v, vec)
    elif kind == "poly sizes":
        t = sum(case["counts"])
        bad = np.full(t + abs(d), 0.7)
        chk(lambda v: flory.IdealGasPolydispersedEntropy(n, v, case["counts"]), "sizes", np.full(t, 1.5), bad)
    elif kind == "phi_means":
        chk(lambda v: flory.CanonicalEnsemble(n, v), "phi_means", good_v, vec)
    elif kind == "scaled_activity":
        chk(lambda v: flory.GrandCanonicalEnsemble(n, v), "scaled_activity", good_v, vec)
    elif kind == "Cs":
        chk(lambda v: cons(n, v, 0.3), "Cs", good_m[:2], np.full((2, m), 0.5))
    elif kind == "Ts":
        chk(lambda v: cons(n, good_m[:2], v), "Ts", good_v[:2], np.full(3 if d > 0 else 4, 0.5))
    elif kind == "Cs3":
        must_raise(ValueError, lambda: cons(n, np.ones((1, 2, n)), 0.3), "coefficients with three indices")
    elif kind == "num_comp":
        must_raise(ValueError, lambda: flory.CanonicalEnsemble(-abs(d) + 1), "no components")
        must_raise(ValueError, lambda: flory.GrandCanonicalEnsemble(-abs(d) + 1, 1.0), "no components")
    else:
        v, f = np.full(n, 0.5), np.full((n, 3), 1 / 3)
        bad = [(np.full(n + 1, 0.5), f), (v[:, None], f), (v, f[0]), (v, f[None]), (0.5, f)][case["n"] % 5 if case["ndim"] else abs(d) % 5]
        cls = flory.common.PhasesResult if case["glob"] else flory.common.Phases
        must_raise(ValueError, lambda: cls(*bad), "phases whose volumes and compositions disagree")
    return [kind]


def warm():
    for c in (False, True):
        f, _ = make({"n": 2, "parts": 2, "seed": 0, "chis": [[0, 2.0], [2.0, 0]], "sizes": [1.0, 1.0], "phi": [0.5, 0.5], "cons": c, "kill": 0.0})
        f.run(max_steps=2)


PARTS = [Part("histories", strat_hist, check_hist, 1600, 16000, warmup=warm),
         Part("constructors", strat_construct, check_construct, 800, 4000, warmup=warm),
         Part("values", strat_values, check_values, 800, 4000, warmup=warm)]
