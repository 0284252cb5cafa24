"""C16: results are reproducible and finders, inputs and results are independent of each other."""
import numpy as np
from hypothesis import strategies as st

import flory
from lib import gen, model, systems as S
from lib.build import FAST, rng
from lib.harness import Part, Trivial, ensure

RULE = (
    "cases draw two mixtures with options (kill thresholds and revives, so that random numbers are used during runs) and a schedule of "
    "1-6 run/disturb operations; disturbing overwrites every array which was handed in or handed out, changes the parameter objects in place and assigns other values to the "
    "parameter objects. Compared bit for bit with undisturbed, isolated runs. Parts 'objects-*' do so for both ensembles, polydispersed mixtures and all kinds of constraints. Non-trivial = something was disturbed or "
    "interleaved and at least one step was made"
)
OPT = dict(progress=False, tolerance=1e-12)


@st.composite
def spec(draw):
    s = draw(S.system(poly=False))
    return {"sys": s, "seed": draw(gen.SEED), "parts": draw(st.sampled_from([4, 6, 8, 2])), "kill": draw(st.sampled_from([0.0, 0.3, 0.8])),
            "std": draw(st.sampled_from([2.0, 5.0])), "init": draw(st.sampled_from(["random", "omegas", "phis"])), "local": draw(st.booleans())}


@st.composite
def strat(draw):
    return {"specs": [draw(spec()), draw(spec())],
            "ops": draw(st.lists(st.fixed_dictionaries({"op": st.sampled_from(["run", "run", "disturb", "numpy", "swap"]), "who": st.integers(0, 1),
                                                        "steps": st.integers(1, 60)}), min_size=1, max_size=6))}


def overwrite(*arrays):
    """change the arrays which a parameter object shows to the user, where these can be changed"""
    for a in arrays:
        if isinstance(a, np.ndarray) and a.flags.writeable:
            a[...] = 2.5


class One:
    """a finder together with everything that the user still holds"""

    def __init__(self, sp):
        s = sp["sys"]
        self.n, self.M = S.ncomp(s), sp["parts"]
        self.chis = np.array(s["chis"], dtype=float)
        self.sizes = np.array(s["sizes"], dtype=float)
        self.phi = np.array(s["phi"], dtype=float)
        self.fe = flory.FloryHuggins(self.n, self.chis, self.sizes)
        self.ens = flory.CanonicalEnsemble(self.n, self.phi)
        self.cons = None
        self.held = [self.chis, self.sizes, self.phi]
        if sp["local"]:
            C = np.array([[1.0] + [0.0] * (self.n - 1)])
            T = np.array([s["phi"][0]])
            self.cons = flory.LinearLocalConstraint(self.n, C, T)
            self.held += [C, T]
        self.f = flory.CoexistingPhasesFinder(self.fe.interaction, self.fe.entropy, self.ens, self.cons, num_part=self.M, rng=rng(sp["seed"]),
                                              kill_threshold=sp["kill"], random_std=sp["std"], acceptance_Js=0.01, acceptance_omega=0.02,
                                              Js_step_upper_bound=0.02, **OPT)
        g = np.random.default_rng(sp["seed"] + 5)
        if sp["init"] == "omegas":
            w = g.normal(size=(self.n, self.M))
            self.f.reinitialize_from_omegas(w)
            self.held.append(w)
        elif sp["init"] == "phis":
            w = g.uniform(size=(self.n, self.M))
            self.f.reinitialize_from_phis(w)
            self.held.append(w)
        self.results = []

    def run(self, steps):
        inputs = [a.copy() for a in self.held]
        p = self.f.run(max_steps=steps, interval=25)
        for a, b in zip(inputs, self.held):
            ensure(np.array_equal(a, b, equal_nan=True), "inputs are not modified by a run")
        d = {k: v for k, v in self.f.diagnostics.items() if k != "time"}
        self.results.append((p, p.volumes.copy(), p.fractions.copy(), self.f.omegas.copy(), d))

    def disturb(self):
        for a in self.held:
            a[...] = 0.123
        # changes in place, and then by assignment
        self.fe.interaction.set_random_chis(1.0, 3.0, rng=rng(5))
        overwrite(self.fe.chis, self.fe.sizes, self.ens.phi_means)
        if self.cons is not None:
            overwrite(self.cons.Ts, self.cons.Cs)
        self.fe.chis = 7.5
        self.fe.sizes = 9.0
        self.ens.phi_means = np.arange(1.0, self.n + 1) / (self.n * (self.n + 1) / 2)
        if self.cons is not None:
            self.cons.Ts = 0.9
            self.cons.Cs = -1.0
        for r in self.results:
            # overwrite what the user got, including the diagnostics
            r[0].volumes[...] = -3.0
            r[0].fractions[...] = -4.0
        if self.f.diagnostics:
            self.f.diagnostics["max_abs_incomp"] = 1e9

    def compare(self, other, what, phases=True):
        ensure(len(self.results) == len(other.results), "number of results")
        for a, b in zip(self.results, other.results):
            for x, y, name in zip(a[1:4], b[1:4], ("volumes", "fractions", "fields")):
                ensure(np.array_equal(x, y, equal_nan=True), f"{name} {what}", got=x, want=y)
            ensure(list(a[4]) == list(b[4]) and all(np.array_equal(a[4][k], b[4][k], equal_nan=True) for k in a[4]), f"diagnostics {what}", got=a[4], want=b[4])


def check(case):
    plain = []
    for k in (0, 1):
        o = One(case["specs"][k])
        for op in case["ops"]:
            if op["op"] == "run" and op["who"] == k:
                o.run(op["steps"])
        plain.append(o)
    # results of earlier runs are not changed by later ones
    for o in plain:
        for p, v, fr, *_ in o.results:
            ensure(np.array_equal(p.volumes, v, equal_nan=True) and np.array_equal(p.fractions, fr, equal_nan=True), "results are not changed by later runs")
    # the same once more
    for k in (0, 1):
        o = One(case["specs"][k])
        for op in case["ops"]:
            if op["op"] == "run" and op["who"] == k:
                o.run(op["steps"])
        o.compare(plain[k], "differ between identical repetitions")
    # interleaved and disturbed
    state0 = np.random.get_state()
    both = [One(case["specs"][0]), One(case["specs"][1])]
    ensure(_same_state(state0, np.random.get_state()), "the global random numbers of numpy are untouched")
    n_dist = n_run = 0
    for op in case["ops"]:
        o = both[op["who"]]
        if op["op"] == "run":
            st0 = np.random.get_state()
            o.run(op["steps"])
            ensure(_same_state(st0, np.random.get_state()), "the global random numbers of numpy are untouched")
            n_run += 1
        elif op["op"] == "disturb":
            o.disturb()
            n_dist += 1
        elif op["op"] == "numpy":
            np.random.seed(op["steps"])
            n_dist += 1
        else:
            # a third, short-lived finder made from the very same parameter objects
            g = flory.CoexistingPhasesFinder(o.fe.interaction, o.fe.entropy, o.ens, o.cons, num_part=o.M, rng=rng(3), **OPT)
            g.run(max_steps=op["steps"])
            n_dist += 1
    for k in (0, 1):
        both[k].compare(plain[k], "depend on what else happens in the process")
    if n_run == 0:
        raise Trivial("no run")
    return ["disturbed" if n_dist else "interleaved"]


@st.composite
def strat_wide(draw, combo):
    case = draw(model.strat(combo, draw(st.booleans())))
    case.update(seed=draw(gen.SEED), revive=draw(st.sampled_from([16, 2, 0])), init=draw(st.sampled_from(["random", "omegas", "phis"])),
                ops=draw(st.lists(st.tuples(st.sampled_from(["run", "run", "disturb", "random", "again"]), st.integers(1, 30)), min_size=3, max_size=6)))
    return case


def check_wide(case):
    """other ensembles, polydispersed mixtures and constraints: objects and arrays may be changed after construction"""
    counts = case["counts"]
    nf, n, M = len(counts), len(case["sizes"]), case["M"]

    def history(disturbed):
        chis, sizes, amount, cnt = np.array(case["chis"]), np.array(case["sizes"]), np.array(case["amount"]), np.array(counts)
        held = [chis, sizes, amount]
        if nf == n:
            i, e = flory.FloryHugginsInteraction(n, chis), flory.IdealGasEntropy(n, sizes)
        else:
            i, e = flory.FloryHugginsBlockInteraction(nf, chis, cnt), flory.IdealGasPolydispersedEntropy(nf, sizes, cnt)
            held.append(cnt)
        ens = (flory.CanonicalEnsemble if case["ens"] == "canonical" else flory.GrandCanonicalEnsemble)(n, amount)
        cs = []
        for c in case["cons"]:
            C, T = np.array(c["Cs"]), np.array(c["Ts"])
            cs.append((flory.LinearLocalConstraint if c["kind"] == "local" else flory.LinearGlobalConstraint)(nf, C, T))
            held += [C, T]
        f = flory.CoexistingPhasesFinder(i, e, ens, cs or None, num_part=M, rng=rng(case["seed"]), progress=False, tolerance=1e-300, interval=10, random_std=0.7,
                                         acceptance_Js=case["aj"], acceptance_omega=case["aw"], Js_step_upper_bound=case["bound"], kill_threshold=case["kill"],
                                         max_revive_per_compartment=case["revive"])
        h = np.random.default_rng(case["wseed"])
        if case["init"] != "random":
            w = h.uniform(size=(nf, M))
            (f.reinitialize_from_omegas if case["init"] == "omegas" else f.reinitialize_from_phis)(w)
            held.append(w)
        out, given = [], []
        for op, k in case["ops"]:
            if op == "run":
                before = [a.copy() for a in held]
                try:
                    p = f.run(max_steps=k)
                except ZeroDivisionError:
                    raise Trivial("diverging iteration")
                ensure(all(np.array_equal(a, b) for a, b in zip(before, held)), "inputs are not modified by a run")
                given.append(p)
                d = f.diagnostics
                out.append([p.volumes.copy(), p.fractions.copy(), f.omegas.copy(), [float(v) for q, v in d.items() if q != "time"]])
            elif op == "random":
                f.reinitialize_random()
                out.append([f.omegas.copy()])
            elif disturbed and op == "disturb":
                for a in held:
                    a[...] = 1
                # changes in place, and then by assignment
                if nf == n:
                    i.set_random_chis(1.0, 3.0, rng=rng(5))
                overwrite(i.chis, e.sizes, ens.phi_means if case["ens"] == "canonical" else ens.scaled_activity)
                if nf != n:
                    overwrite(i.chis_feat)
                for c in cs:
                    overwrite(c.Ts, c.Cs)
                if nf == n:
                    i.chis = 3.3
                else:
                    i.chis_feat = 3.3
                e.sizes = 2.2
                if case["ens"] == "canonical":
                    ens.phi_means = np.arange(1.0, n + 1) / (n * (n + 1) / 2)
                else:
                    ens.scaled_activity = 0.3
                for c in cs:
                    c.Ts = 0.77
                    c.Cs = -1.0
                for p in given:
                    p.volumes[...] = -3.0
                    p.fractions[...] = -4.0
                for d in (f.diagnostics,):
                    d.clear()
            elif disturbed and op == "again":
                # another finder made of the same objects
                g = flory.CoexistingPhasesFinder(i, e, ens, cs or None, num_part=M, rng=rng(1), progress=False, random_std=0.3)
                g.run(max_steps=min(k, 5))
        return out

    state = np.random.get_state()
    a, b, c = history(False), history(False), history(True)
    ensure(_same_state(state, np.random.get_state()), "the global random numbers of numpy are untouched")
    for other, what in ((b, "differ between identical repetitions"), (c, "depend on objects and arrays changed after construction")):
        ensure(len(a) == len(other), "number of results")
        for x, y in zip(a, other):
            ensure(len(x) == len(y) and all(np.array_equal(u, v, equal_nan=True) for u, v in zip(x, y)), "results " + what, got=y, want=x)
    kinds = [o for o, _ in case["ops"]]
    if "run" not in kinds or not {"disturb", "again"} & set(kinds):
        raise Trivial("not disturbed")
    return [case["ens"], "died" if case["kill"] else "all living"]


def _same_state(a, b):
    return a[0] == b[0] and np.array_equal(a[1], b[1]) and a[2:] == b[2:]


@st.composite
def strat_short(draw):
    return {"sys": draw(S.system(poly=False, max_comp=3)), "seed": draw(gen.SEED), "parts": draw(st.sampled_from([4, 6])), "steps": draw(st.integers(1, 400)),
            "lists": draw(st.booleans())}


def check_short(case):
    """the function interface with equal seeds"""
    s = case["sys"]
    out = []
    for _ in range(2):
        a = [s["chis"], s["phi"], s["sizes"]] if case["lists"] else [np.array(s["chis"]), np.array(s["phi"]), np.array(s["sizes"])]
        b = [np.array(x) for x in a]
        p = flory.find_coexisting_phases(S.ncomp(s), a[0], a[1], sizes=a[2], num_part=case["parts"], rng=rng(case["seed"]),
                                         **{**FAST, "max_steps": case["steps"], "interval": 50})
        for x, y in zip(a, b):
            ensure(np.array_equal(x, y), "arguments are not modified")
        out.append(p)
    ensure(np.array_equal(out[0].volumes, out[1].volumes) and np.array_equal(out[0].fractions, out[1].fractions), "equal seeds give equal results",
           got=out[0].fractions, want=out[1].fractions)


def warm():
    S.warm_fh()
    o = One({"sys": {"counts": [1, 1], "chis": [[0, 2.0], [2.0, 0]], "sizes": [1.0, 1.0], "phi": [0.5, 0.5]}, "seed": 0, "parts": 2, "kill": 0.0,
             "std": 1.0, "init": "random", "local": True})
    o.run(3)


PARTS = [
    Part("histories", strat, check, 900, 12000, warmup=warm),
    Part("function", strat_short, check_short, 400, 4000),
] + [Part("objects-" + c, lambda c=c: strat_wide(c), check_wide, 400, 4000, once=True) for c in model.COMBOS if c not in ("fh-c", "fh-c-L")]
