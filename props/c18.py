"""C18: names do not matter: relabelling components, features or compartments relabels the result."""
import numpy as np
from hypothesis import strategies as st

import flory
from lib import gen, model, systems as S
from lib.build import rng
from lib.harness import Part, Trivial, ensure

RULE = (
    "cases draw a mixture with initial fields and run it 1-400 steps next to relabelled or repeated versions of itself (components permuted, "
    "features permuted, components within a feature permuted, compartments permuted, every compartment repeated). Parts 'relabel-*' do the same with both ensembles, constraints and dying compartments. "
    "Non-trivial = the relabelling is not the identity"
)
TOL = 1e-7


@st.composite
def strat(draw):
    kind = draw(st.sampled_from(["fh", "fh", "poly"]))
    counts = [1] * draw(st.integers(2, 5)) if kind == "fh" else draw(st.lists(st.integers(1, 3), min_size=2, max_size=3))
    nf, n = len(counts), sum(counts)
    M = draw(st.integers(1, 7))
    return {"sys": {"kind": kind, "counts": counts, "chis": draw(gen.symmetric(nf, -4, 7)), "sizes": draw(gen.sizes(n, S.MILD_SIZE)),
                    "phi": draw(gen.mild_composition(n, 0.05))},
            "w": [draw(st.lists(gen.ratio(-2, 2, 100), min_size=M, max_size=M)) for _ in range(nf)],
            "fperm": draw(st.permutations(range(nf))), "cperm": draw(st.permutations(range(max(counts)))),
            "mperm": draw(st.permutations(range(M))), "rep": draw(st.integers(2, 3)), "steps": draw(st.integers(1, 400)),
            "init": draw(st.sampled_from(["omegas", "phis"]))}


def run(s, w, steps, init):
    w = np.array(w, float)
    f = S.finder(s, 0, w.shape[1], acceptance_Js=1e-4, acceptance_omega=5e-3, Js_step_upper_bound=1e-3, tolerance=1e-13, kill_threshold=0.0)
    if init == "omegas":
        f.reinitialize_from_omegas(w)
    else:
        p = np.exp(w)
        f.reinitialize_from_phis(p / p.sum(axis=0))
    p = f.run(max_steps=steps, interval=steps)
    return p, f


def check(case):
    s, steps, init = case["sys"], case["steps"], case["init"]
    counts = s["counts"]
    w = np.array(case["w"])
    nf, M = w.shape
    p, f = run(s, w, steps, init)
    if not np.all(np.isfinite(p.fractions)):
        raise Trivial("not finite")
    labels = []

    def same(q, g, cidx, fidx, midx, what, volscale=1.0):
        ensure(np.allclose(q.fractions, p.fractions[np.ix_(midx, cidx)], atol=TOL), f"fractions follow {what}", got=q.fractions, want=p.fractions[np.ix_(midx, cidx)])
        ensure(np.allclose(q.volumes, p.volumes[midx] * volscale, atol=TOL), f"volumes follow {what}", got=q.volumes, want=p.volumes[midx] * volscale)
        ensure(np.allclose(g.omegas, f.omegas[np.ix_(fidx, midx)], atol=TOL * 10), f"fields follow {what}", got=g.omegas, want=f.omegas[np.ix_(fidx, midx)])
        for k in ("max_abs_incomp", "max_abs_omega_diff", "max_abs_js_diff"):
            ensure(abs(g.diagnostics[k] - f.diagnostics[k]) < TOL * 10, f"{k} does not depend on {what}", got=g.diagnostics[k], want=f.diagnostics[k])

    allm, allf, allc = list(range(M)), list(range(nf)), list(range(sum(counts)))
    first = np.concatenate([[0], np.cumsum(counts)]).astype(int)
    # features (components of plain mixtures)
    fp = case["fperm"]
    if list(fp) != allf:
        cidx = [i for r in fp for i in range(first[r], first[r + 1])]
        t = {"kind": s["kind"], "counts": [counts[r] for r in fp], "chis": [[s["chis"][a][b] for b in fp] for a in fp],
             "sizes": [s["sizes"][i] for i in cidx], "phi": [s["phi"][i] for i in cidx]}
        q, g = run(t, w[list(fp)], steps, init)
        same(q, g, cidx, list(fp), allm, "the order of components")
        labels.append("features")
    # components within a feature
    if s["kind"] == "poly":
        cidx = [first[r] + j for r in allf for j in case["cperm"] if j < counts[r]]
        if cidx != allc:
            t = {**s, "sizes": [s["sizes"][i] for i in cidx], "phi": [s["phi"][i] for i in cidx]}
            q, g = run(t, w, steps, init)
            same(q, g, cidx, allf, allm, "the order of components within a feature")
            labels.append("components")
    mp = list(case["mperm"])
    if mp != allm:
        q, g = run(s, w[:, mp], steps, init)
        same(q, g, allc, allf, mp, "the order of compartments")
        labels.append("compartments")
    midx = allm * case["rep"]
    q, g = run(s, w[:, midx], steps, init)
    same(q, g, allc, allf, midx, "repetition of all compartments", 1.0 / case["rep"])
    if M > 1:
        labels.append("repeated")
    if not labels:
        raise Trivial("identity")
    return labels


@st.composite
def strat_wide(draw, combo):
    case = draw(model.strat(combo, draw(st.integers(0, 2)) == 0))
    counts, M = case["counts"], case["M"]
    case.update(fperm=draw(st.permutations(range(len(counts)))), cperm=draw(st.permutations(range(max(counts)))), mperm=draw(st.permutations(range(M))),
                rep=draw(st.integers(2, 3)), rows=draw(st.booleans()))
    return case


def check_wide(case):
    """both ensembles, constraints and dying compartments"""
    path = model.follow(case, case["steps"])
    if not path:
        raise Trivial("not followed")
    k, tol = len(path), 10 * path[-1]["tol"]
    counts, w = case["counts"], model.fields(case)
    nf, M = w.shape
    n = sum(counts)

    def run(c, w):
        f = model.build({**c, "M": w.shape[1]})
        f.reinitialize_from_omegas(w)
        p = f.run(max_steps=k)
        return f, p

    f, p = run(case, w)
    after = path[-1]["after"]
    labels = []

    def same(g, q, cidx, fidx, midx, what):
        a = after[midx]
        ensure(model.close(g.omegas, f.omegas[np.ix_(fidx, midx)], tol), f"fields follow {what}", got=g.omegas, want=f.omegas[np.ix_(fidx, midx)])
        ensure(model.close(q.fractions[a], p.fractions[np.ix_(midx, cidx)][a], tol), f"fractions follow {what}", got=q.fractions, want=p.fractions[np.ix_(midx, cidx)])
        for key in model.DIAG:
            ensure(model.close(g.diagnostics[key], f.diagnostics[key], tol), f"{key} does not depend on {what}", got=g.diagnostics, want=f.diagnostics)
        if after.all():
            v = p.volumes[midx]
            ensure(model.close(q.volumes, v / v.sum(), tol), f"volumes follow {what}", got=q.volumes, want=v / v.sum())

    allm, allf, allc = list(range(M)), list(range(nf)), list(range(n))
    first = np.concatenate([[0], np.cumsum(counts)]).astype(int)
    fp = list(case["fperm"])
    if fp != allf:
        cidx = [i for r in fp for i in range(first[r], first[r + 1])]
        t = {**case, "counts": [counts[r] for r in fp], "chis": [[case["chis"][a][b] for b in fp] for a in fp], "sizes": [case["sizes"][i] for i in cidx],
             "amount": [case["amount"][i] for i in cidx], "cons": [{**c, "Cs": [[row[r] for r in fp] for row in c["Cs"]]} for c in case["cons"]]}
        same(*run(t, w[fp]), cidx, fp, allm, "the order of components")
        labels.append("features")
    cidx = [first[r] + j for r in allf for j in case["cperm"] if j < counts[r]]
    if cidx != allc:
        t = {**case, "sizes": [case["sizes"][i] for i in cidx], "amount": [case["amount"][i] for i in cidx]}
        same(*run(t, w), cidx, allf, allm, "the order of components within a feature")
        labels.append("components")
    mp = list(case["mperm"])
    if mp != allm:
        same(*run(case, w[:, mp]), allc, allf, mp, "the order of compartments")
        labels.append("compartments")
    if any(len(c["Ts"]) > 1 for c in case["cons"]):
        t = {**case, "cons": [{**c, "Cs": c["Cs"][::-1], "Ts": c["Ts"][::-1]} for c in case["cons"]]}
        same(*run(t, w), allc, allf, allm, "the order of conditions in a constraint")
        labels.append("conditions")
    if not any(c["kind"] == "global" for c in case["cons"]):
        # the elastic energy of a global constraint counts the whole system, so its strength depends on the number of compartments
        same(*run(case, w[:, allm * case["rep"]]), allc, allf, allm * case["rep"], "repetition of all compartments")
        labels += ["repeated"] if M > 1 else []
    if not labels:
        raise Trivial("identity")
    return labels + ["died" if not after.all() else "all living"]


PARTS = [Part("relabel", strat, check, 2400, 30000, warmup=S.warm_both)] + [
    Part("relabel-" + c, lambda c=c: strat_wide(c), check_wide, 400, 4000, once=True) for c in model.COMBOS if c not in ("fh-c", "poly-c")]
