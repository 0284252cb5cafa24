"""Shared generator for free-energy cases (properties C01-C06)."""
import numpy as np
from hypothesis import strategies as st

import flory

from . import gen, ref


@st.composite
def model(draw, max_comp=6):
    """a free energy: plain Flory-Huggins or block interaction with polydispersity"""
    kind = draw(st.sampled_from(["fh", "fh", "block", "poly", "block1"]))
    if kind == "fh":
        n = draw(st.one_of(st.integers(1, max_comp), st.integers(1, max_comp), st.integers(1, max_comp), st.integers(max_comp + 1, max_comp + 8)))
        counts = [1] * n
    else:
        nf = draw(st.sampled_from([1, 2, 3, 2, 3, 5]))
        counts = draw(st.lists(st.sampled_from([1, 2, 3, 1, 2, 3, 5, 0]), min_size=nf, max_size=nf).filter(any))
        if kind == "block1":  # the same number for all features, given as integer
            counts = [max(counts[0], 1)] * nf
    nf, n = len(counts), sum(counts)
    if draw(st.integers(0, 7)) == 0:
        chis = draw(gen.ratio(-4, 4, 100))
    elif draw(st.integers(0, 3)) == 0:
        chis = draw(gen.any_matrix(nf))
    else:
        chis = draw(gen.symmetric(nf))
    scale = draw(st.sampled_from([1, 1, 1, 1, 1, 1, 0.001, 20, 400]))
    if scale != 1:
        chis = [[x * scale for x in r] for r in chis] if isinstance(chis, list) else chis * scale
    sz = draw(st.one_of(st.none(), gen.ANY_SIZE, gen.sizes(n, gen.ANY_SIZE), gen.sizes(n, gen.ANY_SIZE)))
    # objects may be built with other parameters, which are then replaced by assignment
    before = draw(st.sampled_from([None, None, None, "all", "diagonal", "sizes"]))
    return {"kind": kind, "counts": counts, "chis": chis, "sizes": sz, "before": before}


def _other(chis, before):
    """other interactions than the ones which are assigned later, with equal diagonal in case of 'diagonal'"""
    a = np.array(chis, dtype=float)
    if before == "sizes" or (a.ndim == 0 and before == "diagonal"):
        return a
    if before == "all":
        return a + 1.25
    b = np.full(a.shape, 0.75)
    np.fill_diagonal(b, np.diag(a))
    return b


def num_comp(m):
    return sum(m["counts"])


def build(m):
    before = m.get("before")
    if not before:
        return _build(m)
    chis, sizes = m["chis"], m["sizes"]
    if m["kind"] == "poly":
        chis = ref_chis(m)
    f = _build({**m, "sizes": [1.5 + i for i in range(num_comp(m))]}, _other(chis, before))
    # reading everything once must not matter
    f.free_energy_density(np.full(num_comp(m), 1 / num_comp(m)))
    if m["kind"] == "fh":
        f.chis, f.sizes = chis, 1.0 if sizes is None else sizes
    else:
        f.entropy.sizes = 1.0 if sizes is None else sizes
        if m["kind"] == "poly":
            f.interaction.chis = chis
        else:
            f.interaction.chis_feat = chis
    return f


def _build(m, chis=None):
    nf, n = len(m["counts"]), sum(m["counts"])
    if chis is None:
        chis = ref_chis(m) if m["kind"] == "poly" else m["chis"]
    if m["kind"] == "fh":
        return flory.FloryHuggins(n, chis, m["sizes"])
    counts = m["counts"][0] if m["kind"] == "block1" else m["counts"]
    entropy = flory.IdealGasPolydispersedEntropy(nf, m["sizes"], counts)
    if m["kind"] == "poly":
        # component-wise interaction together with polydispersed entropy
        inter = flory.FloryHugginsInteraction(n, chis)
    else:
        inter = flory.FloryHugginsBlockInteraction(nf, chis, counts)
    return flory.FreeEnergyBase(inter, entropy)


def ref_chis(m):
    nf = len(m["counts"])
    c = m["chis"]
    if not isinstance(c, list):
        c = [[c] * nf for _ in range(nf)]
    sym = [[0.5 * (c[i][j] + c[j][i]) for j in range(nf)] for i in range(nf)]
    return ref.expand_blocks(sym, m["counts"])


def ref_sizes(m):
    n = num_comp(m)
    s = m["sizes"]
    if s is None:
        return [1.0] * n
    if not isinstance(s, list):
        return [float(s)] * n
    return list(s)


@st.composite
def phases(draw, n, zeros=False, max_phases=4, normalized=None):
    """list of compositions; not all of them need to sum to one"""
    k = draw(st.one_of(st.integers(1, max_phases), st.integers(1, max_phases), st.integers(1, max_phases), st.integers(max_phases + 1, max_phases + 8)))
    elem = gen.composition_with_zeros(n) if zeros else gen.composition(n)
    out = [draw(elem) for _ in range(k)]
    if normalized is None:
        normalized = draw(st.integers(0, 3)) > 0
    if not normalized:
        out = [[x * f for x in p] for p, f in zip(out, draw(st.lists(gen.ratio(0.2, 2.0, 10), min_size=k, max_size=k)))]
    return out


def present(p, how):
    """the same numbers in different legal containers"""
    if how == "list":
        return p
    a = np.array(p, dtype=float)
    if how == "fortran":
        return np.asfortranarray(a)
    if how == "strided":
        b = np.zeros(a.shape[:-1] + (2 * a.shape[-1],))
        b[..., ::2] = a
        return b[..., ::2]
    if how == "readonly":
        a.setflags(write=False)
        return a
    return a


CONTAINERS = ["list", "array", "fortran", "strided", "readonly"]


def close(got, want, scale, tol=1e-10):
    got = np.asarray(got, float)
    want = np.asarray(want, float)
    if got.shape != want.shape:
        return False
    fin = np.isfinite(want)
    if not np.array_equal(np.isfinite(got), fin):
        return False
    if not np.array_equal(got[~fin], want[~fin], equal_nan=True):
        return False
    return bool(np.all(np.abs(got[fin] - want[fin]) <= tol * scale))
