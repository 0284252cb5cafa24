"""C06: evaluation is per phase, validates its input and has no side effects."""
import numpy as np
from hypothesis import strategies as st

from flory.common import VolumeFractionError
from lib import fe, gen
from lib.harness import Part, Trivial, ensure

RULE = (
    "cases draw a mixture, a batch of compositions with leading shape (), (P,), (P,Q) or (0,) and a container kind; "
    "every evaluation on the batch is compared with the evaluation of each phase alone. Invalid batches carry one "
    "negative entry or a wrong number of components. Non-trivial = batch of at least two phases / an invalid batch"
)

FUNCS = ["free_energy_density", "jacobian", "jacobian_k", "hessian", "hessian_k", "chemical_potentials",
         "exchange_chemical_potentials", "pressure", "num_unstable_modes", "num_unstable_modes_f", "is_stable"]


def call(f, name, arg, k):
    if name == "jacobian_k":
        return f.jacobian(arg, k)
    if name == "hessian_k":
        return f.hessian(arg, k)
    if name in ("exchange_chemical_potentials", "pressure"):
        return getattr(f, name)(arg, k)
    if name == "num_unstable_modes_f":
        return f.num_unstable_modes(arg, conserved=False)
    return getattr(f, name)(arg)


@st.composite
def strat(draw):
    m = draw(fe.model(5))
    n = fe.num_comp(m)
    lead = draw(st.sampled_from([[1], [2], [3], [5], [1, 2], [2, 2], [2, 3], [3, 1]]))
    k = int(np.prod(lead))
    return {"model": m, "lead": lead, "phis": [draw(gen.composition(n)) for _ in range(k)],
            "how": draw(st.sampled_from(fe.CONTAINERS)), "index": draw(st.integers(0, n - 1))}


def check(case):
    m = case["model"]
    n = fe.num_comp(m)
    f = fe.build(m)
    chis0, sizes0 = np.array(f.interaction.chis), np.array(f.entropy.sizes)
    flat = np.array(case["phis"], float)
    batch = flat.reshape(case["lead"] + [n])
    arg = fe.present(batch.tolist(), case["how"])
    before = np.array(arg, copy=True)
    k = case["index"]
    for name in FUNCS:
        if n < 2 and name in ("num_unstable_modes", "is_stable", "jacobian_k", "hessian_k"):
            continue
        res = np.asarray(call(f, name, arg, k))
        ensure(np.array_equal(np.array(arg), before), f"{name} leaves its input alone")
        single = [np.asarray(call(f, name, row, k)) for row in flat]
        per = np.array([s.reshape(res.shape[len(case["lead"]):]) for s in single])
        per = per.reshape(tuple(case["lead"]) + per.shape[1:])
        ensure(res.shape == per.shape, f"{name}: one result per phase", got=res.shape, want=per.shape)
        if res.dtype.kind in "bi" and per.dtype.kind in "bi":
            # counts may flip at exactly singular Hessians only
            same = np.array_equal(res, per)
            if not same:
                e = np.linalg.eigvalsh(np.asarray(f.hessian(batch, 0 if name != "num_unstable_modes_f" else None)))
                ensure(np.abs(e).min() < 1e-9 * np.abs(e).max(), f"{name} of a batch equals {name} of each phase", got=res, want=per)
        else:
            sc = max(1.0, float(np.abs(per[np.isfinite(per)]).max(initial=0)))
            ensure(fe.close(res, per, sc, 1e-12), f"{name} of a batch equals {name} of each phase", got=res, want=per)
    ensure(np.array_equal(chis0, f.interaction.chis) and np.array_equal(sizes0, f.entropy.sizes), "evaluation does not change the model")
    if flat.shape[0] < 2:
        raise Trivial("single phase")
    return [str(len(case["lead"])), case["how"]]


@st.composite
def strat_bad(draw):
    m = draw(fe.model(5))
    n = fe.num_comp(m)
    kind = draw(st.sampled_from(["negative", "short", "long", "transposed"]))
    P = draw(st.integers(1, 4))
    ph = [draw(gen.composition(n)) for _ in range(P)]
    if kind == "negative":
        i, j = draw(st.integers(0, P - 1)), draw(st.integers(0, n - 1))
        ph[i][j] = -draw(st.sampled_from([1e-12, 1e-3, 0.5, 1.0, 7.0]))
    elif kind == "short":
        ph = [p[:-1] for p in ph]
    elif kind == "long":
        ph = [p + [draw(st.sampled_from([0.0, 0.5]))] for p in ph]
    else:
        P2 = n + draw(st.integers(1, 2))
        ph = [list(x) for x in zip(*[draw(gen.composition(n)) for _ in range(P2)])]
    return {"model": m, "kind": kind, "phis": ph, "single": draw(st.booleans()) and kind != "transposed",
            "index": draw(st.integers(0, n - 1)), "func": draw(st.sampled_from(FUNCS + ["equilibration_error", "check_volume_fractions"]))}


def check_bad(case):
    m = case["model"]
    n = fe.num_comp(m)
    if n < 2:
        raise Trivial("one component")
    f = fe.build(m)
    ph = case["phis"]
    if case["single"]:
        ph = [p for p in ph if case["kind"] != "negative" or min(p) < 0][0]
    a = np.array(ph)
    before = a.copy()
    try:
        r = call(f, case["func"], a, case["index"])
    except VolumeFractionError as e:
        ensure(isinstance(e, ValueError), "the error is a ValueError")
    else:
        ensure(False, f"{case['func']} must reject invalid volume fractions", kind=case["kind"], got=r)
    ensure(np.array_equal(a, before), "rejected input is left alone")
    return [case["kind"], case["func"]]


PARTS = [
    Part("batch", strat, check, 1600, 16000),
    Part("invalid", strat_bad, check_bad, 3000, 30000),
]
