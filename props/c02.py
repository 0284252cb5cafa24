"""C02: Jacobian and Hessian are the exact derivatives of the free energy."""
import numpy as np
from hypothesis import strategies as st

from lib import fe, gen, ref
from lib.harness import Part, ensure

RULE = (
    "cases draw a mixture (plain/block/polydispersed, unequal sizes), strictly positive compositions and a "
    "dependent component (or none; also counted from the end); the reported derivatives are compared with hand-written formulas and with "
    "finite differences of the reported free energy itself along a generated direction; non-trivial = at least "
    "two components"
)


@st.composite
def strat(draw):
    m = draw(fe.model())
    n = fe.num_comp(m)
    return {"model": m, "phis": draw(fe.phases(n)), "how": draw(st.sampled_from(fe.CONTAINERS)),
            "single": draw(st.booleans()),
            "index": draw(st.one_of(st.none(), st.integers(0, n - 1), st.integers(-n, n - 1)))}


def reduce_vec(g, k):
    return [x - g[k] for i, x in enumerate(g) if i != k]


def reduce_mat(h, k):
    n = len(h)
    idx = [i for i in range(n) if i != k]
    return [[h[i][j] - h[i][k] - h[k][j] + h[k][k] for j in idx] for i in idx]


def check(case):
    m = case["model"]
    n = fe.num_comp(m)
    f = fe.build(m)
    chis, sizes = fe.ref_chis(m), fe.ref_sizes(m)
    k = case["index"]
    ph = case["phis"][0] if case["single"] else case["phis"]
    arg = fe.present(ph, case["how"])
    j = np.asarray(f.jacobian(arg, k) if k is not None else f.jacobian(arg))
    h = np.asarray(f.hessian(arg, k) if k is not None else f.hessian(arg))
    gs, hs, gt, ht = [], [], [], []
    for p in case["phis"]:
        g, hh = ref.grad(p, chis, sizes), ref.hess(p, chis, sizes)
        # size of the terms which make up every single entry
        a, b = np.abs(np.array(g, float)), np.abs(np.array(hh, float))
        if k is not None:
            q = k % n
            a = np.delete(a + a[q], q)
            b = np.delete(np.delete(b + b[[q]] + b[:, [q]] + b[q, q], q, 0), q, 1)
        gt.append(a)
        ht.append(b)
        gs.append(g if k is None else reduce_vec(g, k % n))
        hs.append(hh if k is None else reduce_mat(hh, k % n))
    nn = n if k is None else n - 1
    gs = np.array(gs, float).reshape(len(gs), nn)
    hs = np.array(hs, float).reshape(len(hs), nn, nn)
    gt, ht = np.array(gt).reshape(gs.shape), np.array(ht).reshape(hs.shape)
    if case["single"]:
        gs, hs, gt, ht = gs[0], hs[0], gt[0], ht[0]
    sc = ref.scale_of(chis) * max(1.0, ref.scale_of(ph))
    ensure(j.shape == gs.shape and np.all(np.abs(j - gs) <= 1e-11 * (gt + sc)), "Jacobian equals the derivative", got=j, want=gs, index=k)
    ensure(h.shape == hs.shape and np.all(np.abs(h - hs) <= 1e-11 * (ht + sc)), "Hessian equals the second derivative", got=h, want=hs, index=k)
    ensure(np.array_equal(h, np.swapaxes(h, -1, -2)) or np.allclose(h, np.swapaxes(h, -1, -2), rtol=1e-12), "Hessian is symmetric", got=h)
    if n < 2:
        from lib.harness import Trivial
        raise Trivial("one component")
    return [m["kind"], "conserved" if k is not None else "free"]


@st.composite
def strat_fd(draw):
    m = draw(fe.model())
    n = fe.num_comp(m)
    return {"model": m, "phi": draw(gen.mild_composition(n)),
            "dir": draw(st.lists(gen.ratio(-1, 1, 10), min_size=n, max_size=n)),
            "index": draw(st.one_of(st.none(), st.integers(-n, n - 1)))}


def check_fd(case):
    """model-free: only the reported free energy and derivatives take part"""
    m = case["model"]
    f = fe.build(m)
    p = np.array(case["phi"])
    v = np.array(case["dir"])
    k = case["index"]
    if k is not None:
        v[k] -= v.sum()  # stay on the simplex
    if not np.any(v):
        from lib.harness import Trivial
        raise Trivial("zero direction")
    v = v / np.abs(v).max()
    eps = 1e-3 * p.min()
    F = lambda t: float(f.free_energy_density(p + t * v))
    # five point stencils
    d1 = (-F(2 * eps) + 8 * F(eps) - 8 * F(-eps) + F(-2 * eps)) / (12 * eps)
    red = v if k is None else np.delete(v, k)
    j = np.asarray(f.jacobian(p, k)) if k is not None else np.asarray(f.jacobian(p))
    h = np.asarray(f.hessian(p, k)) if k is not None else np.asarray(f.hessian(p))
    sizes = np.array(fe.ref_sizes(m))
    sc = ref.scale_of(fe.ref_chis(m)) + float((1 / sizes).max()) * (1 + abs(np.log(p.min())))
    tol1 = 1e-12 * sc / eps * 20 + 1e-8 * sc
    ensure(abs(d1 - j @ red) <= tol1, "directional derivative of the free energy equals Jacobian", got=float(j @ red), want=d1)
    J = lambda t: np.asarray(f.jacobian(p + t * v, k) if k is not None else f.jacobian(p + t * v))
    d2 = (-J(2 * eps) + 8 * J(eps) - 8 * J(-eps) + J(-2 * eps)) / (12 * eps)
    sc2 = sc + float((1 / (sizes * p)).max())
    ensure(fe.close(h @ red, d2, sc2, 1e-8 + 1e-12 / eps), "derivative of the Jacobian equals Hessian", got=h @ red, want=d2)
    return m["kind"]


PARTS = [
    Part("formula", strat, check, 3000, 40000),
    Part("differences", strat_fd, check_fd, 1500, 20000),
]
