"""C13: constraints hold in the result and the result is the constrained equilibrium."""
import numpy as np
from hypothesis import strategies as st

import flory
from lib import gen, systems as S
from lib.build import FAST, conv, rng, run_open
from lib.harness import Part, Trivial, ensure

RULE = (
    "cases draw a mixture, an ensemble, one or two constraint objects (local and/or global, each with 1-2 rows of "
    "coefficients -2..2 on features), targets compatible with a generated composition, constraint_elasticity and "
    "constraint_acceptance_ratio. Non-trivial = the run converged and (local) coefficients are not all equal"
)


def independent(rows, have, nf):
    """repair the drawn rows so that they neither repeat each other nor the filling condition"""
    out = []
    for r in rows:
        cand = [r] + [[float(k == q) for q in range(nf)] for k in range(nf)]
        sv = [np.linalg.svd(np.array(have + out + [c]), compute_uv=False).min() for c in cand]
        out.append(cand[0] if sv[0] > 0.2 else cand[int(np.argmax(sv))])
    return out


@st.composite
def strat(draw, combo, gc, poly):
    need = len(combo) + 1
    if poly:
        counts = draw(st.sampled_from([[1, 2], [2, 1], [2, 2], [1, 1, 2], [1, 2, 1]]))
    else:
        counts = [1] * draw(st.integers(max(need + 1, 3), 4))
    n, nf = sum(counts), len(counts)
    v = draw(st.sampled_from([3.0, 2.0, 1.0]))
    s = {"kind": "poly" if poly else "fh", "counts": counts, "chis": draw(gen.symmetric(nf, -v, 2 * v, None if draw(st.integers(0, 3)) == 0 else 0.0)),
         "sizes": draw(gen.sizes(n, S.MILD_SIZE)), "phi": draw(gen.mild_composition(n, 0.1))}
    budget = nf - 1
    cons, have = [], [[1.0] * nf]
    for k, kind in enumerate(combo):
        rest = len(combo) - k - 1
        rows = draw(st.integers(1, 2)) if budget - rest >= 3 and kind == "local" else 1
        budget -= rows
        Cs = [draw(st.lists(st.sampled_from([1.0, 0.0, -1.0, 0.5, 2.0, -0.7]), min_size=nf, max_size=nf)) for _ in range(rows)]
        Cs = independent(Cs, have, nf)
        have = have + Cs
        cons.append({"kind": kind, "Cs": Cs})
    return {"sys": s, "cons": cons, "gc": gc, "la": draw(st.lists(gen.ratio(-1.5, 1.0, 100), min_size=n, max_size=n)),
            "seed": draw(gen.SEED), "parts": draw(st.sampled_from([4, 8, 3, 6])), "tol": draw(st.sampled_from([1e-6, 1e-7, 1e-5])),
            "ela": draw(st.sampled_from([None, 0.5, 2.0, 0.0, 5.0])), "acc": draw(st.sampled_from([None, 2.0, 0.5])),
            "row1d": draw(st.booleans())}


def check(case):
    s = case["sys"]
    n, nf, l, tol = S.ncomp(s), S.nfeat(s), np.array(s["sizes"]), case["tol"]
    target = S.feat_sum(s["phi"], s["counts"])
    i, e, ens = S.objects(s)
    la = np.array(case["la"])
    if case["gc"]:
        ens = flory.GrandCanonicalEnsemble(n, np.exp(la))
    cons, rows_local, rows_all = [], [], []
    for c in case["cons"]:
        C = np.array(c["Cs"])
        T = C @ target
        cls = flory.LinearLocalConstraint if c["kind"] == "local" else flory.LinearGlobalConstraint
        cons.append(cls(nf, C[0], T[0]) if case["row1d"] and len(C) == 1 else cls(nf, C, T))
        rows_all.append((c["kind"], C, T))
        if c["kind"] == "local":
            rows_local.append(C)
    kw = {}
    if case["ela"] is not None:
        kw["constraint_elasticity"] = case["ela"]
    if case["acc"] is not None:
        kw["constraint_acceptance_ratio"] = case["acc"]
    f = flory.CoexistingPhasesFinder(i, e, ens, cons[0] if len(cons) == 1 else tuple(cons), num_part=case["parts"],
                                     rng=rng(case["seed"]), **{**FAST, "max_steps": 60_000, "tolerance": tol, "random_std": 2.0}, **kw)
    p = run_open(f)
    if not conv(f, tol):
        raise Trivial("not converged")
    fr = p.fractions
    feat = S.feat_sum(fr, s["counts"])
    ensure(np.abs(fr.sum(axis=1) - 1).max() <= 1.01 * tol + 1e-12, "every phase is filled completely", got=fr.sum(axis=1))
    if not case["gc"]:
        ensure(np.abs(p.volumes @ fr - s["phi"]).max() <= tol + 1e-10, "material is conserved", got=p.volumes @ fr, want=s["phi"])
    for kind, C, T in rows_all:
        if kind == "local":
            r = np.abs(feat @ C.T - T).max()
            ensure(r <= 1.01 * tol + 1e-12, "local constraint holds in every phase", got=r, tol=tol)
        else:
            r = np.abs((p.volumes @ feat) @ C.T - T).max()
            ensure(r <= 1.01 * tol + tol * np.abs(C).sum(), "global constraint holds on average", got=r, tol=tol)
    # constrained equilibrium: stationary up to one multiplier per row
    idx = S.feat_index(s["counts"])
    lt = S.log_terms(fr, s)
    chi = np.array(S.full_chis(s))
    bulk = -0.5 * np.einsum("mi,ij,mj->m", fr, chi, fr) - (fr / l).sum(axis=1)
    one = np.ones((1, n))
    loc = np.concatenate(rows_local)[:, idx] if rows_local else np.zeros((0, n))
    basis = np.concatenate([one, loc])
    glo = [C[:, idx] for k, C, T in rows_all if k == "global"]
    if np.linalg.matrix_rank(basis, tol=1e-6) < len(basis):
        raise Trivial("constraints repeat the filling condition")
    if not case["gc"]:
        d = lt - lt[[0]]
    else:
        # D^m = -(xi_m + local multipliers) - global multipliers (common to all compartments)
        d = lt - la / l
        if glo:
            G = np.concatenate(glo)
            if np.linalg.matrix_rank(np.concatenate([basis, G]), tol=1e-6) < len(basis) + len(G):
                raise Trivial("constraints repeat the filling condition")
            co, *_ = np.linalg.lstsq(np.concatenate([basis, G]).T, d.mean(axis=0), rcond=None)
            d = d - (co[len(basis):] @ G)
    co, *_ = np.linalg.lstsq(basis.T, d.T, rcond=None)
    res = np.abs(basis.T @ co - d.T).max()
    amp = 20 * (1 + np.abs(loc).max() if len(loc) else 1)
    ensure(res <= amp * tol, "phases are in equilibrium apart from the forces of the constraints", got=res, tol=tol)
    # multipliers: xi = -co[0], eta = -co[1:]; the pressure including them is the same everywhere
    T = np.concatenate([T for k, C, T in rows_all if k == "local"]) if rows_local else np.zeros(0)
    sv = np.linalg.svd(basis, compute_uv=False)
    gp = bulk + co[0] + (T @ co[1:] if len(T) else 0)
    ensure(np.ptp(gp) <= (100 * amp / min(1.0, sv.min())) * tol, "pressure including the constraints is the same in all phases", got=gp, tol=tol)
    return ["multi" if p.get_clusters().num_phases > 1 else "single"]


def warm():
    S.warm_fh()


COMBOS = [(("local",), False, False), (("global",), True, False), (("local",), True, False), (("local", "local"), False, False),
          (("local", "global"), True, False), (("global",), False, False), (("local",), False, True), (("global",), True, True)]


def _part(combo, gc, poly):
    name = "-".join(combo) + ("-grand" if gc else "-canonical") + ("-poly" if poly else "")
    return Part(name, lambda: strat(combo, gc, poly), check, 120, 2400, warmup=warm, nontrivial_floor=0.3, once=True)


PARTS = [_part(*c) for c in COMBOS]
