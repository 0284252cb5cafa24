"""Build flory objects from JSON cases, always through the public interface."""
import numpy as np

import flory

from .harness import Trivial

#: numerical parameters with which small systems become stationary in a few
#: thousand (very cheap) steps
FAST = dict(
    progress=False,
    acceptance_Js=0.002,
    acceptance_omega=0.02,
    Js_step_upper_bound=0.01,
    interval=500,
    tolerance=1e-7,
    max_steps=200_000,
)


def rng(seed):
    return np.random.default_rng(seed)


def conv(finder, tol):
    """whether the diagnostics say that the run ended in a stationary state"""
    d = finder.diagnostics
    return all(
        np.isfinite(d[k]) and d[k] < tol
        for k in ("max_abs_incomp", "max_abs_omega_diff", "max_abs_js_diff", "max_constraint_residue")
    )


def run_open(f, **kw):
    """run a finder that exchanges material with a reservoir: the iteration may leave all bounds (nan fields, after which
    no compartment counts as living and the run ends with a ZeroDivisionError).  Whether it does can hinge on rounding; nobody promises
    convergence for every start, so such cases are trivial (shares of converged cases are judged separately)."""
    try:
        return f.run(**kw)
    except ZeroDivisionError:
        raise Trivial("diverging iteration")


def free_energy(kind, chis, sizes, counts=None):
    """kind 'fh': FloryHuggins; 'block': block interaction + polydispersed entropy"""
    if kind == "fh":
        return flory.FloryHuggins(len(chis), chis, sizes)
    inter = flory.FloryHugginsBlockInteraction(len(chis), chis, counts)
    entr = flory.IdealGasPolydispersedEntropy(len(chis), sizes, counts)
    return flory.FreeEnergyBase(inter, entr)
