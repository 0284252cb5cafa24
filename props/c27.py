"""C27: the one-call interface gives what the explicit pipeline gives."""
import numpy as np
from hypothesis import strategies as st

import flory
from lib import gen, systems as S
from lib.build import FAST, rng
from lib.harness import Part, Trivial, ensure

RULE = (
    "cases draw a mixture (1-6 components, sizes given or not, interactions as matrix, integer matrix or number), a seed and any subset of "
    "the options of the finder, and compare the one-call interface with construction, run, clustering, sorting and normalisation done "
    "step by step. Part 'defaults' leaves the number of steps and most other options at their defaults in runs that cannot converge early. Non-trivial = the result was compared and at least one option was given"
)

OPTS = {"num_part": [4, 9, 16], "max_steps": [37, 500, 4000.5, 3], "tolerance": [1e-3, 1e-8], "interval": [10, 33], "random_std": [0.5, 2.0, 0.02, 0.1], "acceptance_Js": [0.002, 0.0],
        "acceptance_omega": [0.02, 0.005], "Js_step_upper_bound": [0.01, 0.0001], "kill_threshold": [0.1, 0.01], "revive_scaler": [0.5, 1.0],
        "max_revive_per_compartment": [0, 2], "additional_chis_shift": [0.2, 3.0], "convergence_criterion": ["standard"]}


@st.composite
def strat(draw):
    n = draw(st.sampled_from([1, 2, 3, 4, 2, 3, 5, 6]))
    opts = {}
    for k, v in OPTS.items():
        if draw(st.booleans()):
            opts[k] = draw(st.sampled_from(v))
    opts.setdefault("max_steps", draw(st.sampled_from([2000, 100])))
    opts.setdefault("interval", 50)
    form = draw(st.sampled_from(["matrix", "number", "int", "list", "asym"]))
    return {"n": n, "chis": draw(gen.symmetric(n, -3, 7)), "form": form, "sizes": draw(gen.maybe_sizes(n, S.MILD_SIZE)), "phi": draw(gen.mild_composition(n, 0.05)),
            "seed": draw(gen.SEED), "opts": opts, "cons": n > 1 and draw(st.integers(0, 5)) == 0, "rng": draw(st.integers(0, 5)) != 5, "kw": draw(st.booleans())}


def check(case):
    n = case["n"]
    m = np.array(case["chis"])
    chis = {"matrix": m, "list": case["chis"], "number": float(m[0, -1]), "int": m.astype(int), "asym": np.triu(m) * 2 - np.diag(np.diag(m))}[case["form"]]
    phi = np.array(case["phi"])
    opts = {"progress": False, **case["opts"]}
    cons = flory.LinearLocalConstraint(n, [1.0] + [0.0] * (n - 1), float(phi[0])) if case["cons"] else None
    if cons is not None:
        opts["constraints"] = cons
    keep = [np.array(chis, float), phi.copy(), None if case["sizes"] is None else np.array(case["sizes"])]
    sizes = None if case["sizes"] is None else np.array(case["sizes"])
    g = rng(case["seed"]) if case["rng"] else None
    if case["kw"]:
        r = flory.find_coexisting_phases(num_comp=n, chis=chis, phi_means=phi, sizes=sizes, rng=g, **opts)
    else:
        r = flory.find_coexisting_phases(n, chis, phi, sizes, rng=g, **opts)
    ensure(isinstance(r, flory.common.PhasesResult), "kind of the result", got=type(r).__name__)
    ensure(np.array_equal(np.array(chis, float), keep[0]) and np.array_equal(phi, keep[1]) and (sizes is None or np.array_equal(sizes, keep[2])), "arguments are not modified")
    ensure(r.fractions.shape == (r.num_phases, n) and r.num_phases >= 1, "one composition per phase", got=r.fractions.shape)
    finite = np.all(np.isfinite(r.fractions))
    if finite:
        ensure(abs(r.volumes.sum() - 1) < 1e-9 and np.all(r.volumes >= 0), "volumes are a share of the whole", got=r.volumes)
        q = r.sort()
        ensure(np.array_equal(q.volumes, r.volumes) and np.array_equal(q.fractions, r.fractions), "phases are sorted", got=r.fractions, want=q.fractions)
    want_steps = opts.get("max_steps", np.inf)
    ensure(0 < r.info["steps"] <= np.ceil(want_steps), "step limit is respected", got=r.info["steps"], want=want_steps)
    if not case["rng"]:
        return ["without generator"]
    fe = flory.FloryHuggins(n, chis, sizes)
    f = flory.CoexistingPhasesFinder(fe.interaction, fe.entropy, flory.CanonicalEnsemble(n, phi), opts.pop("constraints", None), rng=rng(case["seed"]), **opts)
    raw = f.run()
    if not np.all(np.isfinite(raw.fractions)):
        raise Trivial("diverged")
    p = raw.get_clusters().sort().normalize()
    ensure(p.num_phases == r.num_phases, "number of phases", got=r.num_phases, want=p.num_phases)
    ensure(np.allclose(r.volumes, p.volumes, rtol=0, atol=1e-12), "volumes of the explicit pipeline", got=r.volumes, want=p.volumes)
    ensure(np.allclose(r.fractions, p.fractions, rtol=0, atol=1e-12), "compositions of the explicit pipeline", got=r.fractions, want=p.fractions)
    ensure(np.allclose(r.mean_fractions, raw.mean_fractions, atol=1e-9), "clustering keeps the average composition", got=r.mean_fractions, want=raw.mean_fractions)
    da, db = ({k: v for k, v in d.items() if k != "time"} for d in (r.info, f.diagnostics))
    ensure(da.keys() == db.keys() and all(np.isclose(da[k], db[k], rtol=1e-12, atol=1e-15, equal_nan=True) for k in da), "information are the diagnostics of the run", got=da, want=db)
    ensure("time" in r.info and r.info["time"] >= 0, "information contains the time")
    return ["constrained" if case["cons"] else "free", "sizes" if sizes is not None else "unit sizes", f"phases={min(r.num_phases, 3)}"]


@st.composite
def strat_def(draw):
    n = draw(st.sampled_from([2, 1]))
    opts = {"num_part": draw(st.sampled_from([2, 3])), "tolerance": 1e-200}
    for k in ("acceptance_omega", "random_std", "kill_threshold", "acceptance_Js"):
        if draw(st.integers(0, 3)) == 0:
            opts[k] = draw(st.sampled_from(OPTS[k]))
    return {"n": n, "chis": draw(gen.symmetric(n, -1, 4)), "form": "matrix", "sizes": draw(gen.maybe_sizes(n, S.MILD_SIZE)), "phi": draw(gen.mild_composition(n, 0.2)),
            "seed": draw(gen.SEED), "opts": opts, "cons": False, "rng": True, "kw": draw(st.booleans())}


def warm():
    S.warm_fh()
    flory.find_coexisting_phases(2, 3.0, [0.5, 0.5], max_steps=2, progress=False, rng=rng(0), constraints=flory.LinearLocalConstraint(2, [1.0, 0.0], 0.5))


PARTS = [Part("defaults", strat_def, check, 8, 80, warmup=warm), Part("one call", strat, check, 2400, 24000, warmup=warm)]
