"""C26: the compiled parts of the iteration implement the documented model."""
import numpy as np
from hypothesis import strategies as st

import flory
from lib import gen, ref, systems as S
from lib.build import rng
from lib.harness import Part, Trivial, ensure

RULE = (
    "cases draw features with 0-13 components each, sizes, interactions, target fractions or activities, 1-6 compartments with unequal volumes "
    "(some of them dead) and fields; the compiled interaction, entropy and ensemble are driven through their documented interface and compared "
    "with the documented formulas and with the uncompiled energies, for objects constructed directly and objects modified afterwards. "
    "Non-trivial = at least two components or two compartments"
)


@st.composite
def strat(draw):
    poly = draw(st.booleans())
    counts = draw(st.lists(st.sampled_from([1, 2, 3, 1, 2, 5, 0, 13]), min_size=1, max_size=draw(st.sampled_from([4, 4, 7]))).filter(any)) if poly else [1] * draw(st.sampled_from([1, 2, 3, 4, 5, 2, 3, 4, 9]))
    n, nf = sum(counts), len(counts)
    M = draw(st.sampled_from([1, 2, 3, 4, 5, 6, 3, 4, 20]))
    return {"poly": poly, "counts": counts, "chis": draw(gen.any_matrix(nf) if draw(st.booleans()) else gen.symmetric(nf)),
            "sizes": draw(gen.sizes(n, st.one_of(gen.SIZE, st.just(0.25)))), "gc": draw(st.booleans()),
            "target": draw(st.lists(gen.ratio(0.01, 2.0, 100), min_size=n, max_size=n)), "seed": draw(gen.SEED), "M": M,
            "dead": draw(st.lists(st.booleans(), min_size=M, max_size=M)), "amp": draw(st.sampled_from([1.0, 0.2, 3.0])),
            "late": draw(st.booleans()), "redundant": draw(st.booleans()), "mus": draw(st.booleans()), "via": draw(st.booleans())}


def check(case):
    counts = case["counts"]
    n, nf, M = sum(counts), len(counts), case["M"]
    idx = S.feat_index(counts)
    l, chis, target = np.array(case["sizes"]), np.array(case["chis"]), np.array(case["target"])
    sym = 0.5 * (chis + chis.T)
    a = None if case["late"] else 0
    if case["poly"]:
        inter = flory.FloryHugginsBlockInteraction(nf, 0.3 if case["late"] else chis, counts)
        entr = flory.IdealGasPolydispersedEntropy(nf, 0.7 if case["late"] else l, counts)
        if case["late"]:
            inter.chis_feat = chis
    else:
        inter = flory.FloryHugginsInteraction(n, 0.3 if case["late"] else chis)
        entr = flory.IdealGasEntropy(n, None if case["late"] else l)
        if case["late"]:
            inter.chis = chis
    if case["late"]:
        entr.sizes = l
    if case["gc"]:
        if case["mus"]:
            ens = flory.GrandCanonicalEnsemble.from_chemical_potential(n, np.log(target / l) / l, l)
        else:
            ens = flory.GrandCanonicalEnsemble(n, 1.0 if case["late"] else target)
            if case["late"]:
                ens.scaled_activity = target
    else:
        ens = flory.CanonicalEnsemble(n, None if case["late"] else target)
        if case["late"]:
            ens.phi_means = target
    kw = {"constraint_elasticity": 3.0, "additional_chis_shift": 0.5} if case["redundant"] else {}
    ci, ce, cn = inter.compiled(**kw), entr.compiled(**kw), ens.compiled(**kw)
    ensure((ci.num_feat, ce.num_feat, ce.num_comp, cn.num_comp) == (nf, nf, n, n), "sizes of the compiled parts", got=(ci.num_feat, ce.num_feat, ce.num_comp, cn.num_comp))
    # the parts of a free energy are the same, with the same options
    fe = flory.FreeEnergyBase(inter, entr)
    fi, fs = fe.interaction_compiled(**kw), fe.entropy_compiled(**kw)
    ensure(type(fi) is type(ci) and type(fs) is type(ce) and (fi.num_feat, fs.num_feat, fs.num_comp) == (nf, nf, n), "compiled parts of the free energy")
    probe = np.ones((nf, 1))
    ensure(np.allclose(fi.incomp_coef(probe), ci.incomp_coef(probe), rtol=1e-12, atol=1e-12), "options are passed on to the parts of the free energy", got=fi.incomp_coef(probe), want=ci.incomp_coef(probe))
    if case["via"]:
        ci, ce = fi, fs
    g = rng(case["seed"])
    w = g.normal(size=(nf, M)) * case["amp"]
    masks = np.array([0.0 if d else 1.0 for d in case["dead"]])
    if not masks.any():
        masks[0] = 1.0
    J = g.uniform(0.1, 3.0, M) * masks
    w0, J0, m0 = w.copy(), J.copy(), masks.copy()
    phi = np.full((n, M), np.nan)
    Qs = ce.partition(phi, w, J)
    p = np.exp(-l[:, None] * w[idx])
    Q = (p * J).sum(axis=1) / J.sum()
    ensure(np.allclose(phi, p, rtol=1e-10, atol=1e-300), "Boltzmann factors are exp(-l w) of the field of the component's feature", got=phi, want=p)
    ensure(np.shape(Qs) == (n,) and np.allclose(Qs, Q, rtol=1e-10, atol=1e-300), "partition functions are volume averages", got=Qs, want=Q)
    inc = cn.normalize(phi, Qs, masks)
    want = (target[:, None] if case["gc"] else (target / Q)[:, None]) * p * masks
    ensure(np.allclose(phi, want, rtol=1e-10, atol=1e-300), "volume fractions of the ensemble", got=phi, want=want)
    winc = (want.sum(axis=0) - 1) * masks
    ensure(np.shape(inc) == (M,) and np.allclose(inc, winc, rtol=1e-10, atol=1e-10 * (1 + np.abs(winc).max())), "incompressibility is the excess of the sum over one", got=inc, want=winc)
    if not case["gc"]:
        ensure(np.allclose((phi * J).sum(axis=1) / J.sum(), target, rtol=1e-10), "average fractions are those of the ensemble", got=(phi * J).sum(axis=1) / J.sum(), want=target)
    feat = np.full((nf, M), np.nan)
    ce.comp_to_feat(feat, phi)
    wfeat = S.feat_sum(want.T, counts).T
    ensure(np.allclose(feat, wfeat, rtol=1e-10, atol=1e-300), "fraction of a feature is the sum over its components", got=feat, want=wfeat)
    pot = np.array(ci.potential(feat))
    wpot = sym @ wfeat
    sc = 1 + np.abs(sym).max() * wfeat.sum(axis=0).max()
    ensure(pot.shape == (nf, M) and np.allclose(pot, wpot, rtol=1e-10, atol=1e-10 * sc), "potential is the derivative of the interaction energy", got=pot, want=wpot)
    vd = np.array(ci.volume_derivative(pot, feat))
    wvd = 0.5 * np.einsum("rm,rs,sm->m", wfeat, sym, wfeat)
    sc2 = sc * (1 + wfeat.sum(axis=0).max())
    ensure(vd.shape == (M,) and np.allclose(vd, wvd, rtol=1e-10, atol=1e-10 * sc2), "volume derivative is the interaction energy density", got=vd, want=wvd)
    ent = (np.where(want > 0, want * np.log(np.where(want > 0, want, 1.0)), 0.0) / l[:, None]).sum(axis=0)
    en = np.array(flory.FreeEnergyBase(inter, entr).free_energy_density(phi.T)) - ent
    ensure(np.allclose(en, vd, rtol=1e-9, atol=1e-9 * (sc2 + np.abs(ent).max())), "compiled and uncompiled interaction energies agree", got=vd, want=en)
    ev = np.array(ce.volume_derivative(phi))
    wev = -(want / l[:, None]).sum(axis=0)
    ensure(ev.shape == (M,) and np.allclose(ev, wev, rtol=1e-10, atol=1e-300), "volume derivative of the entropy", got=ev, want=wev)
    # w is a Legendre pair with the energies: ln phi / l + w is constant per component
    ensure(np.array_equal(w, w0) and np.array_equal(J, J0) and np.array_equal(masks, m0), "fields, volumes and masks are not modified")
    ensure(np.allclose(feat, wfeat, rtol=1e-10, atol=1e-300) and np.allclose(phi, want, rtol=1e-10, atol=1e-300), "fractions are not modified by the evaluation of energies")
    # an independent repetition on the same compiled objects gives the same (they keep no state)
    phi2 = np.full((n, M), 7.0)
    Q2 = ce.partition(phi2, w, J)
    inc2 = cn.normalize(phi2, Q2, masks)
    ensure(np.array_equal(phi2, phi) and np.array_equal(inc2, inc) and np.array_equal(Q2, Qs), "compiled parts keep no state")
    if n < 2 and M < 2:
        raise Trivial("one component and one compartment")
    return ["poly" if case["poly"] else "fh", "grand" if case["gc"] else "canonical", "dead" if not masks.all() else "living"]


def warm():
    for gc in (False, True):
        for poly in (False, True):
            try:
                check({"poly": poly, "counts": [1, 1], "chis": [[0.0, 1.0], [1.0, 0.0]], "sizes": [1.0, 2.0], "gc": gc, "target": [0.5, 0.5], "seed": 0, "M": 2,
                       "dead": [False, False], "amp": 1.0, "late": False, "redundant": False, "mus": False, "via": False})
            except AssertionError:
                pass


PARTS = [Part("parts", strat, check, 16000, 240000, warmup=warm)]
