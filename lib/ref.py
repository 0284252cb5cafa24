"""Independent reference models, written with plain Python loops from the
documentation (docs/source/theory.rst, docs/notes), not from the code."""
import math

import numpy as np


def xlx(x):
    return 0.0 if x == 0 else x * math.log(x)


def free_energy(phi, chis, sizes):
    n = len(phi)
    f = 0.0
    for i in range(n):
        f += xlx(phi[i]) / sizes[i]
        for j in range(n):
            f += 0.5 * chis[i][j] * phi[i] * phi[j]
    return f


def grad(phi, chis, sizes):
    n = len(phi)
    out = []
    for i in range(n):
        lg = -math.inf if phi[i] == 0 else math.log(phi[i])
        g = (lg + 1.0) / sizes[i]
        for j in range(n):
            g += 0.5 * (chis[i][j] + chis[j][i]) * phi[j]
        out.append(g)
    return out


def hess(phi, chis, sizes):
    n = len(phi)
    h = [[0.5 * (chis[i][j] + chis[j][i]) for j in range(n)] for i in range(n)]
    for i in range(n):
        h[i][i] += 1.0 / (phi[i] * sizes[i])
    return h


def mu(phi, chis, sizes):
    """chemical potential per volume of every component (notes)"""
    n = len(phi)
    f = free_energy(phi, chis, sizes)
    s = 0.0
    for i in range(n):
        s += (xlx(phi[i]) + phi[i]) / sizes[i]
        for j in range(n):
            s += chis[i][j] * phi[i] * phi[j]
    return [f - s + g for g in grad(phi, chis, sizes)]


def scale_of(*arrays):
    """magnitude used for relative comparisons"""
    m = 1.0
    for a in arrays:
        a = np.abs(np.asarray(a, float))
        a = a[np.isfinite(a)]
        if a.size:
            m = max(m, float(a.max()))
    return m


def expand_blocks(mat, counts):
    idx = [r for r, c in enumerate(counts) for _ in range(c)]
    return [[mat[r][s] for s in idx] for r in idx]


# ---------------------------------------------------------------- binary mixtures
def binary_coexistence(chi_eff, l1, l2):
    """common tangent of f(x) = x ln x/l1 + (1-x) ln(1-x)/l2 + chi_eff x (1-x)

    Returns (x_low, x_high) or None when f is convex.  Works with the exact
    conditions (equal slopes and intercepts), solved by bisection on convex branches.
    """
    def fp(x):  # derivative
        return (math.log(x) + 1) / l1 - (math.log1p(-x) + 1) / l2 + chi_eff * (1 - 2 * x)

    def f(x):
        return x * math.log(x) / l1 + (1 - x) * math.log1p(-x) / l2 + chi_eff * x * (1 - x)

    # spinodal points: 1/(l1 x) + 1/(l2 (1-x)) = 2 chi
    if chi_eff <= 0:
        return None
    a = 2 * chi_eff
    # a x (1-x) = (1-x)/l1 + x/l2  ->  -a x^2 + (a + 1/l1 - 1/l2) x - 1/l1 = 0
    b = a + 1 / l1 - 1 / l2
    disc = b * b - 4 * a / l1
    if disc <= 0:
        return None
    s1 = (b - math.sqrt(disc)) / (2 * a)
    s2 = (b + math.sqrt(disc)) / (2 * a)
    if not (0 < s1 < s2 < 1):
        return None

    def inv_low(m):  # fp(x) = m on (0, s1), fp increasing
        lo, hi = -800.0, math.log(s1)
        for _ in range(200):
            mid = 0.5 * (lo + hi)
            if fp(math.exp(mid)) < m:
                lo = mid
            else:
                hi = mid
        return math.exp(0.5 * (lo + hi))

    def inv_high(m):  # on (s2, 1); use y = 1 - x in log space
        def fpy(y):
            return (math.log1p(-y) + 1) / l1 - (math.log(y) + 1) / l2 + chi_eff * (2 * y - 1)

        lo, hi = -800.0, math.log(1 - s2)  # fpy decreasing in y
        for _ in range(200):
            mid = 0.5 * (lo + hi)
            if fpy(math.exp(mid)) > m:
                lo = mid
            else:
                hi = mid
        return math.exp(0.5 * (lo + hi))  # y

    def gap(m):
        x1 = inv_low(m)
        y2 = inv_high(m)
        # f at x2 = 1-y2 without cancellation
        f2 = (1 - y2) * math.log1p(-y2) / l1 + y2 * math.log(y2) / l2 + chi_eff * y2 * (1 - y2)
        return (f2 - m * (1 - y2)) - (f(x1) - m * x1)  # decreasing in m

    m_lo, m_hi = fp(s2), fp(s1)  # both branches exist for slopes in between
    for _ in range(200):
        m = 0.5 * (m_lo + m_hi)
        if gap(m) > 0:
            m_lo = m
        else:
            m_hi = m
    m = 0.5 * (m_lo + m_hi)
    return inv_low(m), 1 - inv_high(m)
