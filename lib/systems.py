"""Generators and builders for finder runs (properties C08-C19, C27, C28)."""
import numpy as np
from hypothesis import strategies as st

import flory

from . import gen, ref
from .build import FAST, conv, rng

MILD_SIZE = st.sampled_from([1.0, 1.0, 1.0, 2.0, 3.0, 5.0, 1.5, 0.5])


@st.composite
def system(draw, max_comp=4, min_comp=2, poly=True, strength=None):
    """a canonical mixture which is neither stiff nor degenerate"""
    poly = poly and draw(st.integers(0, 2)) == 0
    if poly:
        nf = draw(st.sampled_from([2, 3, 2, 3, 2, 3, 4]))
        counts = draw(st.lists(st.sampled_from([1, 2, 1, 2, 1, 2, 4]), min_size=nf, max_size=nf))
        if nf == 3 and sum(counts) == 3:
            counts[draw(st.integers(0, 2))] = 2
    else:
        n = draw(st.integers(min_comp, max_comp))
        if max_comp >= 4 and draw(st.integers(0, 9)) == 0:
            n = draw(st.integers(max_comp + 1, max_comp + 4))  # now and then more components
        counts = [1] * n
    nf, n = len(counts), sum(counts)
    s = draw(st.sampled_from([3.0, 4.0, 2.0, 5.0, 1.0])) if strength is None else strength
    diag = None if draw(st.integers(0, 3)) == 0 else 0.0
    chis = draw(gen.symmetric(nf, -s, 2 * s, diag))
    return {
        "kind": "poly" if poly else "fh",
        "counts": counts,
        "chis": chis,
        "sizes": draw(gen.sizes(n, MILD_SIZE)),
        "phi": draw(gen.mild_composition(n, 0.08)),
    }


def ncomp(s):
    return sum(s["counts"])


def nfeat(s):
    return len(s["counts"])


def objects(s):
    """interaction, entropy, canonical ensemble"""
    n, nf = ncomp(s), nfeat(s)
    if s["kind"] == "fh":
        f = flory.FloryHuggins(n, s["chis"], s["sizes"])
        return f.interaction, f.entropy, flory.CanonicalEnsemble(n, s["phi"])
    return (
        flory.FloryHugginsBlockInteraction(nf, s["chis"], s["counts"]),
        flory.IdealGasPolydispersedEntropy(nf, s["sizes"], s["counts"]),
        flory.CanonicalEnsemble(n, s["phi"]),
    )


def full_chis(s):
    return ref.expand_blocks(s["chis"], s["counts"])


def finder(s, seed, parts, **kw):
    i, e, c = objects(s)
    return flory.CoexistingPhasesFinder(i, e, c, num_part=parts, rng=rng(seed), **{**FAST, **kw})


def feat_index(counts):
    return [r for r, c in enumerate(counts) for _ in range(c)]


def feat_sum(x, counts):
    """(..., N_C) -> (..., N_S)"""
    x = np.asarray(x, float)
    out = np.zeros(x.shape[:-1] + (len(counts),))
    for i, r in enumerate(feat_index(counts)):
        out[..., r] += x[..., i]
    return out


def log_terms(fr, s):
    """ln(phi_i)/l_i + sum_j chi_ij phi_j for every phase (constant up to xi_m at equilibrium)"""
    fr = np.asarray(fr, float)
    return np.log(fr) / np.array(s["sizes"]) + fr @ np.array(full_chis(s))


def mus(fr, s):
    c = full_chis(s)
    return np.array([ref.mu(p, c, s["sizes"]) for p in np.asarray(fr)])


def energy(fr, s):
    c = full_chis(s)
    return np.array([ref.free_energy(p, c, s["sizes"]) for p in np.asarray(fr)])


def warm_fh():
    s = {"kind": "fh", "counts": [1, 1], "chis": [[0, 3.0], [3.0, 0]], "sizes": [1.0, 2.0], "phi": [0.4, 0.6]}
    f = finder(s, 0, 8, max_steps=50, interval=25)
    f.run().get_clusters()


def warm_poly():
    s = {"kind": "poly", "counts": [1, 2], "chis": [[0, 3.0], [3.0, 0]], "sizes": [1.0, 2.0, 1.0], "phi": [0.4, 0.3, 0.3]}
    f = finder(s, 0, 8, max_steps=50, interval=25)
    f.run().get_clusters()


def warm_both():
    warm_fh()
    warm_poly()
