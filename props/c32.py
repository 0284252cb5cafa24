"""C32: suspicious input and unreliable results are announced, and nothing else is."""
import contextlib
import logging

import numpy as np
from hypothesis import strategies as st

import flory
from lib import gen, model, systems as S
from lib.build import rng
from lib.harness import Part, Trivial, ensure

RULE = (
    "part 'input' assigns sequences of interaction matrices and mean fractions (symmetric or not, complete or not, also by one entry or slightly) to new and existing objects and "
    "compares whether a warning was logged; part 'result' follows runs in which compartments die with a reference model and compares whether "
    "the result was announced as unreliable (fewer than half of the compartments living). Non-trivial = a warning was due, or nothing was due for an unusual input"
)


class _Catch(logging.Handler):
    def __init__(self):
        super().__init__(logging.WARNING)
        self.records = []

    def emit(self, record):
        self.records.append(record)


@contextlib.contextmanager
def warnings_logged():
    h, root = _Catch(), logging.getLogger()
    before = logging.root.manager.disable
    logging.disable(logging.NOTSET)
    root.addHandler(h)
    try:
        yield h.records
    finally:
        root.removeHandler(h)
        logging.disable(before)


@st.composite
def strat(draw):
    n = draw(st.integers(2, 5))
    ops = []
    for _ in range(draw(st.integers(1, 5))):
        k = draw(st.sampled_from(["interaction", "block", "free-energy", "canonical", "grand"]))
        op = {"kind": k, "new": draw(st.booleans())}
        if k in ("canonical", "grand"):
            op["phi"] = draw(gen.mild_composition(n, 0.02))
            op["off"] = draw(st.sampled_from([0.0, 0.0, 0.3, -0.2, 0.001, 1e-3, -0.9]))
            op["where"] = draw(st.integers(0, n - 1))
        else:
            op["chis"] = draw(gen.symmetric(n, -5, 5))
            op["off"] = draw(st.sampled_from([0.0, 0.0, 1.0, -0.01, 0.5, 30.0]))
            i = draw(st.integers(0, n - 2))
            op["where"] = draw(st.sampled_from([[i, n - 1], [n - 1, i]]))
        ops.append(op)
    return {"n": n, "ops": ops}


def check(case):
    n = case["n"]
    zero = np.zeros((n, n))
    with warnings_logged() as rec:
        obj = {"interaction": flory.FloryHugginsInteraction(n, zero), "block": flory.FloryHugginsBlockInteraction(n, zero, 2),
               "free-energy": flory.FloryHuggins(n, zero), "canonical": flory.CanonicalEnsemble(n), "grand": flory.GrandCanonicalEnsemble(n, np.ones(n))}
        ensure(not rec, "default objects are built silently", got=[r.getMessage() for r in rec])
    due_any = False
    for op in case["ops"]:
        k = op["kind"]
        with warnings_logged() as rec:
            if k in ("canonical", "grand"):
                v = np.array(op["phi"])
                v[op["where"]] += op["off"]
                if k == "grand":
                    if op["new"]:
                        obj[k] = flory.GrandCanonicalEnsemble(n, np.abs(v))
                    else:
                        obj[k].scaled_activity = np.abs(v)
                elif op["new"]:
                    obj[k] = flory.CanonicalEnsemble(n, v)
                else:
                    obj[k].phi_means = v
                due = k == "canonical" and op["off"] != 0
            else:
                v = np.array(op["chis"])
                v[tuple(op["where"])] += op["off"]
                if not op["new"]:
                    setattr(obj[k], "chis_feat" if k == "block" else "chis", v)
                elif k == "interaction":
                    obj[k] = flory.FloryHugginsInteraction(n, v)
                elif k == "block":
                    obj[k] = flory.FloryHugginsBlockInteraction(n, v, 2)
                else:
                    obj[k] = flory.FloryHuggins(n, v)
                due = op["off"] != 0
        ensure(bool(rec) == due, "a warning is logged exactly if the interactions are not symmetric or the fractions do not fill the volume",
               op=op, got=[r.getMessage() for r in rec], due=due)
        due_any |= due
    return "announced" if due_any else "silent"


def check_result(case):
    path = model.follow(case, case["steps"])
    if not path:
        raise Trivial("not followed")
    k, M = len(path), case["M"]
    f = model.build(case)
    f.reinitialize_from_omegas(model.fields(case))
    with warnings_logged() as rec:
        f.run(max_steps=k)
    living = int(path[-1]["after"].sum())
    ensure(bool(rec) == (living < M // 2), "the result is announced as unreliable exactly if fewer than half of the compartments are living", living=living, of=M,
           got=[r.getMessage() for r in rec])
    if living == M:
        raise Trivial("all living")
    return "announced" if rec else "still enough"


@st.composite
def strat_result(draw):
    case = draw(model.strat("fh-c", True))
    case["M"] = draw(st.sampled_from([4, 8, 5, 6, 12, 3, 7]))
    case["kill"] = draw(st.sampled_from([0.97, 0.9, 0.99]))
    return case


PARTS = [Part("input", strat, check, 4000, 60000), Part("result", strat_result, check_result, 3000, 30000, warmup=S.warm_fh)]
