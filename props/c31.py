"""C31: re-initialising puts a finder into the documented start state."""
import numpy as np
from hypothesis import strategies as st

import flory
from lib import gen, model, systems as S
from lib.build import rng
from lib.harness import Part, Trivial, ensure

RULE = (
    "cases draw a mixture (plain or polydispersed, either ensemble, with or without constraints), a history of 0-4 operations (deadly runs, failed and successful "
    "re-initialisations), then a re-initialisation from fields, from compositions or at random, given in different containers; the fields "
    "are compared with the documented ones and the next 1-5 steps with a reference model that starts with equal volumes, all compartments alive and "
    "vanishing multipliers. Non-trivial = the history contains a run"
)
CONTAINERS = ["array", "list", "tuple", "float32", "fortran", "strided", "int", "reversed"]


@st.composite
def strat(draw, combo):
    case = draw(model.strat(combo, draw(st.booleans())))
    case["steps"] = min(case["steps"], 5)
    ops = []
    for _ in range(draw(st.integers(0, 4))):
        k = draw(st.sampled_from(["run", "run", "run", "random", "omegas", "phis", "wrong"]))
        ops.append([k, draw(st.integers(1, 30)) if k == "run" else draw(gen.SEED)])
    case.update(ops=ops, end=draw(st.sampled_from(["omegas", "phis", "random", "construct"])), container=draw(st.sampled_from(CONTAINERS)), revive=draw(st.sampled_from([0, 0, 16, 3])),
                random_std=draw(st.sampled_from([0.5, 0.0, 1.0])), seed=draw(gen.SEED), default_parts=draw(st.integers(0, 5)) == 0)
    if case["default_parts"]:
        case["M"] = 8 * len(case["sizes"])
    return case


def wrap(x, container):
    """the same numbers in another container; returns (what to hand over, the numbers in it)"""
    if container == "list":
        return x.tolist(), x
    if container == "tuple":
        return tuple(map(tuple, x.tolist())), x
    if container == "float32":
        y = x.astype(np.float32)
        return y, y.astype(float)
    if container == "fortran":
        return x.copy(order="F"), x
    if container == "strided":
        y = np.zeros((x.shape[0], 2 * x.shape[1]))
        y[:, ::2] = x
        return y[:, ::2], x
    if container == "reversed":
        y = x[::-1, ::-1].copy()
        return y[::-1, ::-1], x
    if container == "int":
        y = np.rint(x).astype(int)
        return y, y.astype(float)
    return x.copy(), x


def check(case):
    nf, M, n = len(case["counts"]), case["M"], len(case["sizes"])
    g = rng(case["seed"])
    f = model.build({**case, "M": None if case["default_parts"] else M}, g, revive=case["revive"], random_std=case["random_std"])
    full = case["revive"] * M
    ensure(np.shape(f.omegas) == (nf, M), "one field per feature and compartment", got=np.shape(f.omegas), want=(nf, M), default=case["default_parts"])
    ran = 0
    for k, v in case["ops"] if case["end"] != "construct" else []:
        h = np.random.default_rng(v)
        if k == "run":
            try:
                f.run(max_steps=v)
            except ZeroDivisionError:
                raise Trivial("diverging iteration")
            ran += 1
        elif k == "random":
            f.reinitialize_random()
        elif k == "omegas":
            f.reinitialize_from_omegas(h.normal(size=(nf, M)))
        elif k == "phis":
            f.reinitialize_from_phis(h.uniform(size=(nf, M)))
        else:
            for bad in (np.zeros((nf + 1, M)), np.zeros((nf, M + 1)), np.zeros(nf), np.zeros((M + 1, nf))):
                try:
                    (f.reinitialize_from_omegas if v % 2 else f.reinitialize_from_phis)(bad)
                except ValueError:
                    continue
                ensure(False, "fields of a wrong shape are rejected", shape=bad.shape)
    end = case["end"]
    if end == "omegas":
        arg, w = wrap(model.fields(case), case["container"])
        f.reinitialize_from_omegas(arg)
    elif end == "phis":
        arg, phi = wrap(np.random.default_rng(case["wseed"]).uniform(0, 2 if case["container"] == "int" else 1, size=(nf, M)), case["container"])
        w = np.array(case["chis"]) @ phi
        f.reinitialize_from_phis(arg)
    else:
        if end == "random":
            before = f.omegas.copy()
            f.reinitialize_random()
            if case["random_std"] > 0 and not ran:
                ensure(not np.array_equal(before, f.omegas), "random fields are drawn anew")
        w = f.omegas.copy()
        ensure(np.all(np.isfinite(w)) and (case["random_std"] > 0 or not w.any()) and np.abs(w).max() <= 8 * case["random_std"], "random fields have the given amplitude", got=w)
    tol = 1e-13 * (1 + np.abs(w).max())
    ensure(np.shape(f.omegas) == (nf, M) and f.omegas.dtype == float and np.abs(f.omegas - w).max() <= tol, "start fields", how=end, container=case["container"], got=f.omegas, want=w)
    if end in ("omegas", "phis") and isinstance(arg, np.ndarray):
        arg[...] = 3
        ensure(np.abs(f.omegas - w).max() <= tol, "the finder keeps its own copy of the start fields", got=f.omegas, want=w)
    # the following steps start with equal volumes, all compartments alive and vanishing multipliers
    path = follow(case, w)
    if not path:
        raise Trivial("not followed")
    k, s = len(path), path[-1]
    p = f.run(max_steps=k)
    d = f.diagnostics
    ensure(model.close(f.omegas, s["w"], s["tol"]), "steps after re-initialisation follow from the start state: fields", steps=k, got=f.omegas, want=s["w"])
    ensure(model.close(p.fractions[s["after"]], s["phi"].T[s["after"]], s["tol"]), "steps after re-initialisation follow from the start state: fractions", steps=k, got=p.fractions, want=s["phi"].T)
    if s["after"].all():
        ensure(model.close(p.volumes, s["J"] / s["J"].sum(), s["tol"]), "steps after re-initialisation follow from the start state: volumes", steps=k, got=p.volumes, want=s["J"] / s["J"].sum())
    for key in model.DIAG:
        ensure(model.close(d[key], s["diag"][key], s["tol"]), "steps after re-initialisation follow from the start state: residuals", key=key, got=d, want=s["diag"])
    ensure(d["revive_count_left"] == full, "the revive budget is full after re-initialisation", got=d["revive_count_left"], want=full)
    if not ran and end not in ("construct",):
        raise Trivial("no run before")
    return [end, case["container"], case["ens"], "default-parts" if case["default_parts"] else "given-parts"]


def follow(case, w):
    # only as far as no compartment has died, because the dead ones would be revived at random
    path = model.follow(case, case["steps"], w)
    if case["revive"] > 0:
        path = [p for p in path if p["live"].all()]
    return path


PARTS = [Part("start-" + c, lambda c=c: strat(c), check, 500, 5000, once=True) for c in model.COMBOS]
