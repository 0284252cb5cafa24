"""C04: stability analysis counts the negative curvature directions."""
import numpy as np
from hypothesis import strategies as st

from lib import fe, gen, ref
from lib.harness import Part, Trivial, ensure

RULE = (
    "cases draw a mixture and positive compositions; the count is compared with the inertia of an independently "
    "built Hessian restricted to the constant-volume plane (orthonormal basis, so no component is singled out). "
    "Non-trivial = every eigenvalue is clearly away from zero; labels give the number of unstable modes"
)
STRONG = st.sampled_from([1.0, 1.0, 3.0, 8.0])


@st.composite
def strat(draw):
    m = draw(fe.model())
    n = fe.num_comp(m)
    boost = draw(STRONG)
    c = m["chis"]
    m["chis"] = [[x * boost for x in r] for r in c] if isinstance(c, list) else c * boost
    return {"model": m, "phis": draw(fe.phases(n)), "single": draw(st.booleans()),
            "conserved": draw(st.sampled_from([None, True, False])), "how": draw(st.sampled_from(fe.CONTAINERS))}


def plane_basis(n):
    """orthonormal basis of {v: sum v = 0}"""
    q, _ = np.linalg.qr(np.column_stack([np.ones(n), np.eye(n)[:, : n - 1]]))
    return q[:, 1:]


def check(case):
    m = case["model"]
    n = fe.num_comp(m)
    if n < 2:
        raise Trivial("one component")
    f = fe.build(m)
    chis, sizes = fe.ref_chis(m), fe.ref_sizes(m)
    raw = case["phis"][:1] if case["single"] else case["phis"]
    arg = fe.present(raw[0] if case["single"] else raw, case["how"])
    kw = {} if case["conserved"] is None else {"conserved": case["conserved"]}
    got = np.asarray(f.num_unstable_modes(arg, **kw))
    stable = np.asarray(f.is_stable(arg, **kw))
    shape = () if case["single"] else (len(raw),)
    ensure(got.shape == shape and stable.shape == shape, "one answer per phase", got=got.shape)
    got, stable = got.reshape(-1), stable.reshape(-1)
    labels, clear = [], False
    for a, p in enumerate(raw):
        h = np.array(ref.hess(p, chis, sizes))
        # scaling by a congruence keeps the inertia and improves the conditioning
        if case["conserved"] is False:
            d = np.sqrt(np.array(p) * np.array(sizes))
            e = np.linalg.eigvalsh(h * np.outer(d, d))
            raw_e = np.linalg.eigvalsh(h)
        else:
            b = plane_basis(n)
            r = b.T @ h @ b
            raw_e = e = np.linalg.eigvalsh(r)
        # the terms of the Hessian, before they cancel each other, set the scale of rounding
        scale = max(np.abs(raw_e).max(), float((1 / (np.array(p) * np.array(sizes))).max()), float(np.abs(chis).max()))
        if np.abs(e).min() < 1e-7 * np.abs(raw_e).max() or np.abs(raw_e).min() < 1e-9 * scale:
            continue
        want = int((e < 0).sum())
        ensure(int(got[a]) == want, "number of unstable modes", got=int(got[a]), want=want, eig=e.tolist())
        ensure(bool(stable[a]) == (want == 0), "stable exactly when there is no unstable mode", got=bool(stable[a]), want=want)
        clear = True
        labels.append(f"modes{want}")
    if not clear:
        raise Trivial("near-singular")
    return sorted(set(labels))


@st.composite
def strat_binary(draw):
    return {"chi": draw(gen.ratio(-4, 8, 100)), "sizes": draw(gen.sizes(2)), "x": draw(gen.ratio(0.002, 0.998)),
            "diag": [draw(gen.ratio(-3, 3, 10)), draw(gen.ratio(-3, 3, 10))]}


def check_binary(case):
    """spinodal of a binary mixture in closed form and by finite displacements"""
    import flory

    x, (l1, l2) = case["x"], case["sizes"]
    d1, d2 = case["diag"]
    chi = case["chi"]
    f = flory.FloryHuggins(2, [[d1, chi], [chi, d2]], case["sizes"])
    eff = chi - 0.5 * (d1 + d2)
    curv = 1 / (l1 * x) + 1 / (l2 * (1 - x)) - 2 * eff
    if abs(curv) < 1e-6:
        raise Trivial("on the spinodal")
    s = bool(f.is_stable([x, 1 - x]))
    ensure(s == (curv > 0), "binary mixture is locally stable outside the spinodal only", got=s, curvature=curv)
    ensure(int(f.num_unstable_modes([x, 1 - x])) == int(curv < 0), "one unstable mode inside the spinodal")
    # what a user relies on: splitting slightly lowers the energy inside, raises it outside
    e = 0.02 * min(x, 1 - x)
    fx = lambda y: float(f.free_energy_density([y, 1 - y]))
    split = 0.5 * (fx(x + e) + fx(x - e)) - fx(x)
    if abs(curv) > 0.05 * (1 / (l1 * x) + 1 / (l2 * (1 - x)) + 2 * abs(eff)):
        ensure((split > 0) == s, "small splits lower the free energy exactly when unstable", split=split, stable=s)
    return "stable" if s else "unstable"


@st.composite
def strat_marginal(draw):
    two = st.integers(-2, 4).map(lambda k: 2.0**k)
    return {"sizes": [draw(two), draw(two)], "diag": [draw(st.integers(-6, 6)) / 4, draw(st.integers(-6, 6)) / 4], "conserved": draw(st.sampled_from([None, True, False])), "copies": draw(st.integers(0, 3))}


def check_marginal(case):
    """exactly on the spinodal (all numbers are representable) nothing is unstable"""
    import flory

    l1, l2 = case["sizes"]
    d1, d2 = case["diag"]
    if case["conserved"] is False:
        f, x = flory.FloryHuggins(1, [[-2.0 / l1]], [l1]), [0.5]
    else:
        chi = 0.5 * (2 / l1 + 2 / l2 + d1 + d2)
        f, x = flory.FloryHuggins(2, [[d1, chi], [chi, d2]], case["sizes"]), [0.5, 0.5]
    kw = {} if case["conserved"] is None else {"conserved": case["conserved"]}
    arg = x if case["copies"] == 0 else [x] * case["copies"]
    ensure(np.all(np.asarray(f.num_unstable_modes(arg, **kw)) == 0) and np.all(f.is_stable(arg, **kw)), "a vanishing curvature is not an unstable mode", got=f.num_unstable_modes(arg, **kw))
    return "marginal"


PARTS = [
    Part("marginal", strat_marginal, check_marginal, 200, 2000),
    Part("inertia", strat, check, 3000, 40000),
    Part("binary", strat_binary, check_binary, 1500, 15000),
]
