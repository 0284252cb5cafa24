"""User-defined parts written against the documented interfaces only (property C30)."""
import numpy as np
from numba import float64, int32
from numba.experimental import jitclass

from flory.constraint import ConstraintBase
from flory.ensemble import EnsembleBase
from flory.entropy import EntropyBase
from flory.interaction import InteractionBase


@jitclass([("_chis", float64[:, ::1]), ("_cubic", float64[::1]), ("_coef", float64)])
class CubicCompiled:
    """u = 1/2 phi chi phi + sum_r k_r phi_r^3"""

    def __init__(self, chis, cubic, coef):
        self._chis = chis
        self._cubic = cubic
        self._coef = coef

    @property
    def num_feat(self):
        return self._chis.shape[0]

    def potential(self, phis_feat):
        ans = self._chis @ phis_feat
        for r in range(self._chis.shape[0]):
            ans[r] += 3 * self._cubic[r] * phis_feat[r] ** 2
        return ans

    def volume_derivative(self, potential, phis_feat):
        ans = np.zeros_like(phis_feat[0])
        quad = self._chis @ phis_feat
        for r in range(self._chis.shape[0]):
            ans += 0.5 * quad[r] * phis_feat[r] + self._cubic[r] * phis_feat[r] ** 3
        return ans

    def incomp_coef(self, phis_feat):
        return self._coef


class Cubic(InteractionBase):
    """the uncompiled methods are component based: feature and component are the same"""

    def __init__(self, chis, cubic, num_comp=None):
        super().__init__(len(chis) if num_comp is None else num_comp)
        self.chis, self.cubic = np.array(chis, float), np.array(cubic, float)

    def _compiled_impl(self, *, stiffness: float = 1.0):
        n = len(self.chis)
        coef = self.chis.sum() + (stiffness - self.chis.min() + 6 * np.abs(self.cubic).max()) * n * n
        return CubicCompiled(self.chis.copy(), self.cubic.copy(), coef)

    def _energy_impl(self, phis):
        phis = np.asarray(phis, float)
        return 0.5 * np.einsum("...i,ij,...j->...", phis, self.chis, phis) + (self.cubic * phis**3).sum(axis=-1)

    def _jacobian_impl(self, phis):
        phis = np.asarray(phis, float)
        return phis @ self.chis + 3 * self.cubic * phis**2

    def _hessian_impl(self, phis):
        phis = np.asarray(phis, float)
        return self.chis + 6 * (self.cubic * phis)[..., None] * np.eye(len(self.chis))


@jitclass([("_sizes", float64[::1]), ("_g", float64[:, ::1])])
class CopolymerCompiled:
    """component i of size l_i consists of features r with shares g_ir"""

    def __init__(self, sizes, g):
        self._sizes = sizes
        self._g = g

    @property
    def num_comp(self):
        return self._g.shape[0]

    @property
    def num_feat(self):
        return self._g.shape[1]

    def partition(self, phis_comp, omegas, Js):
        n, nf = self._g.shape
        Qs = np.zeros(n)
        total = Js.sum()
        for i in range(n):
            w = np.zeros_like(omegas[0])
            for r in range(nf):
                w += self._g[i, r] * omegas[r]
            phis_comp[i] = np.exp(-self._sizes[i] * w)
            Qs[i] = (phis_comp[i] * Js).sum() / total
        return Qs

    def comp_to_feat(self, phis_feat, phis_comp):
        n, nf = self._g.shape
        for r in range(nf):
            phis_feat[r] = self._g[0, r] * phis_comp[0]
            for i in range(1, n):
                phis_feat[r] += self._g[i, r] * phis_comp[i]

    def volume_derivative(self, phis_comp):
        ans = np.zeros_like(phis_comp[0])
        for i in range(self._g.shape[0]):
            ans -= phis_comp[i] / self._sizes[i]
        return ans


class Copolymer(EntropyBase):
    def __init__(self, sizes, g):
        super().__init__(len(sizes))
        self.sizes, self.g = np.array(sizes, float), np.array(g, float)

    def _compiled_impl(self):
        return CopolymerCompiled(self.sizes.copy(), self.g.copy())

    def _energy_impl(self, phis):
        phis = np.asarray(phis, float)
        return (phis * np.log(phis) / self.sizes).sum(axis=-1)

    def _jacobian_impl(self, phis):
        phis = np.asarray(phis, float)
        return (np.log(phis) + 1) / self.sizes

    def _hessian_impl(self, phis):
        phis = np.asarray(phis, float)
        return (1 / (phis * self.sizes))[..., None] * np.eye(len(self.sizes))


@jitclass([("_means", float64[::1]), ("_activity", float64[::1]), ("_open", int32[::1])])
class MixedCompiled:
    """some components are exchanged with a reservoir, the amount of the others is fixed"""

    def __init__(self, means, activity, is_open):
        self._means = means
        self._activity = activity
        self._open = is_open

    @property
    def num_comp(self):
        return self._means.shape[0]

    def normalize(self, phis_comp, Qs, masks):
        incomp = -1.0 * np.ones_like(phis_comp[0])
        for i in range(self._means.shape[0]):
            factor = self._means[i] / Qs[i]
            if self._open[i]:
                factor = self._activity[i]
            phis_comp[i] = factor * phis_comp[i] * masks
            incomp += phis_comp[i]
        incomp *= masks
        return incomp


class Mixed(EnsembleBase):
    def __init__(self, means, activity, is_open):
        super().__init__(len(means))
        self.data = np.array(means, float), np.array(activity, float), np.array(is_open, np.int32)

    def _compiled_impl(self):
        return MixedCompiled(*(d.copy() for d in self.data))


@jitclass([("_h", float64[::1]), ("_potential", float64[:, ::1]), ("_volume", float64[::1]), ("_C", float64[::1]), ("_T", float64), ("_on", float64),
           ("_multiplier", float64[::1]), ("_residue", float64[::1])])
class FieldCompiled:
    """an external field h_r on the features, and optionally one local linear constraint"""

    def __init__(self, h, C, T, on):
        self._h = h
        self._C = C
        self._T = T
        self._on = on
        self._potential = np.zeros((h.shape[0], 1))
        self._volume = np.zeros(1)
        self._multiplier = np.zeros(1)
        self._residue = np.zeros(1)

    @property
    def num_feat(self):
        return self._h.shape[0]

    @property
    def potential(self):
        return self._potential

    @property
    def volume_derivative(self):
        return self._volume

    def initialize(self, num_part):
        self._potential = np.zeros((self._h.shape[0], num_part))
        self._volume = np.zeros(num_part)
        self._multiplier = np.zeros(num_part)
        self._residue = np.zeros(num_part)

    def prepare(self, phis_feat, Js, masks):
        self._residue = np.full(phis_feat.shape[1], -self._T)
        for r in range(self._h.shape[0]):
            self._residue += self._C[r] * phis_feat[r]
        self._residue *= masks * self._on
        force = self._multiplier + 2.0 * self._residue
        self._volume = self._residue * (self._multiplier + self._residue)
        for r in range(self._h.shape[0]):
            self._potential[r] = (self._h[r] + force * self._C[r]) * masks
            self._volume += self._h[r] * phis_feat[r] * masks

    def evolve(self, step, masks):
        self._multiplier += step * self._residue
        self._multiplier *= masks
        return np.abs(self._residue).max()


class Field(ConstraintBase):
    def __init__(self, h, C=None, T=0.0):
        super().__init__(len(h))
        self.h, self.T, self.on = np.array(h, float), float(T), 0.0 if C is None else 1.0
        self.C = np.zeros(len(h)) if C is None else np.array(C, float)

    def _compiled_impl(self):
        return FieldCompiled(self.h.copy(), self.C.copy(), self.T, self.on)
