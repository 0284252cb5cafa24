"""C10: converged canonical results are mutually balanced phases."""
import numpy as np
from hypothesis import strategies as st

import flory
from lib import gen, ref, systems as S
from lib.build import FAST, conv, rng
from lib.harness import Part, Trivial, ensure

RULE = (
    "cases draw a canonical mixture (2-4 components or polydispersed, interaction strengths up to 10, sizes 0.5-5), "
    "compartments, seed, tolerance and numerical parameters (fast ones or the package defaults). Non-trivial = the run "
    "converged; labels count the phases found"
)


def judge(p, s, tol, parts, energy=True):
    m = S.mus(p.fractions, s)
    dev = np.abs(m - m.mean(axis=0)).max()
    ensure(dev <= 8 * tol, "chemical potentials are equal in all compartments", got=dev, tol=tol)
    # exchange potentials and pressure (both follow, both reported separately by users)
    lt = S.log_terms(p.fractions, s)
    ex = lt - lt[:, [0]]
    ensure(np.abs(ex - ex.mean(axis=0)).max() <= 16 * tol, "exchange chemical potentials are equal", got=ex)
    inter, entr, _ = S.objects(s)
    err = flory.FreeEnergyBase(inter, entr).equilibration_error(p.fractions)
    ensure(np.max(err) <= 8 * tol * np.sqrt(m.shape[1]), "reported equilibration error vanishes", got=err, tol=tol)
    if energy and parts >= 6:
        e = float(p.volumes @ S.energy(p.fractions, s))
        e0 = ref.free_energy(s["phi"], S.full_chis(s), s["sizes"])
        ensure(e <= e0 + 50 * tol, "phase separation never costs free energy", got=e, want=e0)


@st.composite
def strat(draw):
    return {"sys": draw(S.system()), "seed": draw(gen.SEED), "parts": draw(st.sampled_from([8, 12, 16, 6, 9, 4, 2])),
            "tol": draw(st.sampled_from([1e-7, 1e-6, 1e-8, 1e-5])), "std": draw(st.sampled_from([5.0, 2.0, 1.0])),
            "kill": draw(st.sampled_from([0.0, 0.0, 0.02])), "revive": draw(st.sampled_from([16, 2, 0])),
            "shift": draw(st.sampled_from([None, 0.2, 1.0, 3.0])), "interval": draw(st.sampled_from([500, 50, 137, 2000]))}


def check(case):
    s = case["sys"]
    kw = {} if case["shift"] is None else {"additional_chis_shift": case["shift"]}
    f = S.finder(s, case["seed"], case["parts"], tolerance=case["tol"], random_std=case["std"], kill_threshold=case["kill"],
                 max_revive_per_compartment=case["revive"], interval=case["interval"], max_steps=60_000, **kw)
    p = f.run()
    if not conv(f, case["tol"]):
        raise Trivial("not converged")
    judge(p, s, case["tol"], case["parts"])
    c = p.get_clusters()
    return [s["kind"], f"phases{c.num_phases}"]


@st.composite
def strat_default(draw):
    return {"sys": draw(S.system(max_comp=3)), "seed": draw(gen.SEED)}


def check_default(case):
    """package defaults, as in the documentation's examples"""
    s = case["sys"]
    i, e, c = S.objects(s)
    f = flory.CoexistingPhasesFinder(i, e, c, rng=rng(case["seed"]), progress=False, max_steps=300_000)
    p = f.run()
    ensure(p.num_phases == 8 * S.ncomp(s), "eight compartments per component by default", got=p.num_phases)
    if not conv(f, 1e-5):
        raise Trivial("not converged")
    judge(p, s, 1e-5, p.num_phases)
    return [s["kind"], f"phases{p.get_clusters().num_phases}"]


PARTS = [
    Part("balanced", strat, check, 900, 12000, warmup=S.warm_both, nontrivial_floor=0.6),
    Part("defaults", strat_default, check_default, 64, 800, nontrivial_floor=0.6),
]
