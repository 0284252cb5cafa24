"""C08: polydispersed/block descriptions are equivalent to the component-wise mixture."""
import numpy as np
from hypothesis import strategies as st

import flory
from lib import fe, gen, ref, systems as S
from lib.build import FAST, conv, rng
from lib.harness import Part, Trivial, ensure

RULE = (
    "cases draw block-structured mixtures (1-4 features, 0-3 components each, sizes per component) and compare (a) the "
    "coexisting phases found with the feature-based and with the component-wise description, (b) a mixture with a "
    "mixture in which components are split into identical twins, after a generated number of steps, (c) blocks of "
    "length one with the plain classes, (d) all thermodynamic functions, (e) sequences of matrices, symmetric or not, assigned to a block interaction. Non-trivial = both runs converged / at least one twin"
)


@st.composite
def strat_conv(draw):
    counts = draw(st.sampled_from([[1, 2], [2, 1], [2, 2], [3, 1], [1, 3], [2, 3]]))
    n = sum(counts)
    chi = draw(gen.ratio(1.0, 5.0, 10))
    chis = np.array([[0.0, chi], [chi, 0.0]])
    if draw(st.integers(0, 3)) == 0:  # a feature which no component has changes nothing
        k, v = draw(st.integers(0, 2)), draw(st.lists(gen.ratio(-1, 3, 10), min_size=2, max_size=2))
        counts = counts[:k] + [0] + counts[k:]
        chis = np.insert(np.insert(chis, k, v, axis=0), k, np.insert(np.array(v), k, 0.0), axis=1)
    return {"counts": counts, "chis": chis.tolist(),
            "sizes": draw(gen.sizes(n, st.sampled_from([1.0, 1.5, 2.0, 0.5]))),
            "phi": draw(gen.mild_composition(n, 0.2)), "seed": draw(gen.SEED), "seed2": draw(gen.SEED)}


def first_feature(x, counts):
    """fraction of the first feature that has components"""
    return S.feat_sum(x, counts)[:, [r for r, c in enumerate(counts) if c][0]]


def _sorted(c, counts):
    f0 = first_feature(c.fractions, counts)
    o = np.argsort(f0)
    return c.volumes[o], c.fractions[o]


def check_conv(case):
    a = {"kind": "poly", **{k: case[k] for k in ("counts", "chis", "sizes", "phi")}}
    b = {"kind": "fh", "counts": [1] * sum(case["counts"]), "chis": S.full_chis(a), "sizes": case["sizes"], "phi": case["phi"]}
    fa, fb = S.finder(a, case["seed"], 12, max_steps=60_000), S.finder(b, case["seed2"], 12, max_steps=60_000)
    pa, pb = fa.run(), fb.run()
    if not (conv(fa, 1e-7) and conv(fb, 1e-7)):
        raise Trivial("not converged")
    ca, cb = pa.get_clusters(0.02), pb.get_clusters(0.02)
    if ca.num_phases != cb.num_phases or ca.num_phases > 2:
        # more than two phases, near-critical, or one run stayed in a metastable state: both must be equilibria of the same mixture
        hom = float(np.ravel(S.energy(np.array([case["phi"]]), a))[0])
        for p in (pa, pb):
            mu = np.array([ref.mu(x, b["chis"], case["sizes"]) for x in p.fractions])
            ensure(np.ptp(mu, axis=0).max() < 1e-3, "both descriptions reach an equilibrium of the same mixture", got=p.fractions, mu=mu)
            ensure(energy(p, a) < hom + 1e-6, "the free energy is not above that of the homogeneous state", got=energy(p, a), want=hom)
        return "equilibria"
    va, xa = _sorted(ca, case["counts"])
    vb, xb = _sorted(cb, case["counts"])
    d = np.abs(xa - xb).max() if ca.num_phases == 1 or np.ptp(first_feature(xa, case["counts"])) > 0.1 else 0
    ensure(d < 1e-3, "phases are the same in both descriptions", got=xa, want=xb)
    if d and ca.num_phases == 2:
        ensure(np.abs(va - vb).max() < 2e-3, "volumes are the same in both descriptions", got=va, want=vb)
    return f"phases{ca.num_phases}"


def energy(p, s):
    return float(p.volumes @ S.energy(p.fractions, s))


@st.composite
def strat_twin(draw):
    s = draw(S.system(max_comp=3))
    n = S.ncomp(s)
    split = [draw(st.lists(st.integers(1, 4), min_size=1, max_size=3)) for _ in range(n)]
    return {"sys": s, "split": split, "seed": draw(gen.SEED), "parts": draw(st.integers(2, 10)), "steps": draw(st.integers(1, 200)),
            "std": draw(st.sampled_from([0.5, 2.0, 4.0])), "plain": draw(st.booleans())}


def check_twin(case):
    """identical twins share the fraction of their parent and nothing else changes"""
    s, split = case["sys"], case["split"]
    idx = S.feat_index(s["counts"])
    counts2 = [sum(len(split[i]) for i in range(len(idx)) if idx[i] == r) for r in range(len(s["counts"]))]
    # parents in order, so the components of one feature stay adjacent
    sizes2, phi2, parent, share = [], [], [], []
    for i, w in enumerate(split):
        for x in w:
            sizes2.append(s["sizes"][i])
            share.append(x / sum(w))
            phi2.append(s["phi"][i] * x / sum(w))
            parent.append(i)
    t = {"kind": "poly", "counts": counts2, "chis": s["chis"], "sizes": sizes2, "phi": phi2}
    s = {**s, "kind": s["kind"] if max(s["counts"]) > 1 or not case["plain"] else "fh"}
    if not case["plain"]:
        s["kind"] = "poly"
    kw = dict(max_steps=case["steps"], interval=10_000, tolerance=1e-12, max_revive_per_compartment=0, Js_step_upper_bound=0.004)
    fa, fb = S.finder(s, 1, case["parts"], **kw), S.finder(t, 2, case["parts"], **kw)
    om = rng(case["seed"]).normal(0, case["std"], (S.nfeat(s), case["parts"]))
    fa.reinitialize_from_omegas(om)
    fb.reinitialize_from_omegas(om)
    pa, pb = fa.run(), fb.run()
    want = pa.fractions[:, parent] * np.array(share)
    ensure(np.abs(pb.fractions - want).max() < 1e-7 * max(1.0, want.max()), "identical twins share the fraction of their parent",
           got=pb.fractions, want=want)
    ensure(np.abs(pa.volumes - pb.volumes).max() < 1e-7, "volumes do not depend on the splitting", got=pb.volumes, want=pa.volumes)
    for k in ("max_abs_incomp", "max_abs_omega_diff", "max_abs_js_diff"):
        x, y = fa.diagnostics[k], fb.diagnostics[k]
        ensure(abs(x - y) <= 1e-6 * max(1.0, abs(x)), f"{k} does not depend on the splitting", got=y, want=x)
    if max(len(w) for w in split) == 1 and s["kind"] == t["kind"]:
        raise Trivial("no twins")
    return ["twins" if max(len(w) for w in split) > 1 else "plain-vs-block", s["kind"]]


@st.composite
def strat_fn(draw):
    counts = draw(st.lists(st.sampled_from([1, 2, 3, 1, 2, 3, 0]), min_size=1, max_size=4).filter(any))
    n = sum(counts)
    return {"counts": counts, "chis": draw(gen.symmetric(len(counts))), "sizes": draw(gen.sizes(n)),
            "phis": draw(fe.phases(n)), "k": draw(st.integers(0, n - 1)), "before": draw(st.sampled_from([None, "all", "diagonal"]))}


def check_fn(case):
    counts = case["counts"]
    n = sum(counts)
    # the parameters may be assigned later
    a = fe.build({"kind": "block", "counts": counts, "chis": case["chis"], "sizes": case["sizes"], "before": case["before"]})
    full = ref.expand_blocks(case["chis"], counts)
    b = flory.FloryHuggins(n, full, case["sizes"])
    ensure(np.array_equal(np.asarray(a.interaction.chis), np.array(full)), "expanded matrix", got=a.interaction.chis, want=full)
    ensure(list(np.asarray(a.interaction.num_comp_per_feat)) == counts, "components per feature")
    ph = case["phis"]
    for name, args in [("free_energy_density", ()), ("jacobian", ()), ("hessian", ()), ("chemical_potentials", ()),
                       ("pressure", (case["k"],)), ("exchange_chemical_potentials", (case["k"],))]:
        x, y = np.asarray(getattr(a, name)(ph, *args)), np.asarray(getattr(b, name)(ph, *args))
        ensure(fe.close(x, y, ref.scale_of(y), 1e-12), f"{name} agrees with the expanded mixture", got=x, want=y)
    if n == 1:
        raise Trivial("one component")


@st.composite
def strat_assigned(draw):
    counts = draw(st.lists(st.sampled_from([1, 2, 3, 1, 2, 0]), min_size=1, max_size=4).filter(any))
    nf = len(counts)
    m = st.lists(st.lists(gen.ratio(-5, 5, 100), min_size=nf, max_size=nf), min_size=nf, max_size=nf)
    return {"counts": counts, "first": draw(st.one_of(gen.ratio(-2, 2, 10), m)), "later": draw(st.lists(st.one_of(m, gen.symmetric(nf), gen.ratio(-2, 2, 10)), max_size=3)),
            "x": draw(st.lists(st.lists(gen.ratio(0, 1, 50), min_size=4, max_size=4), min_size=nf, max_size=nf)), "shift": draw(st.sampled_from([None, 0.5]))}


def check_assigned(case):
    """whatever matrix was given last: features, components and the iteration use its symmetric part"""
    counts, nf = case["counts"], len(case["counts"])
    i = flory.FloryHugginsBlockInteraction(nf, case["first"], counts)
    x = np.array(case["x"])
    for k, m in enumerate([case["first"], *case["later"]]):
        if k:
            i.chis_feat = m
        m = np.broadcast_to(np.array(m, float), (nf, nf))
        s = 0.5 * (m + m.T)
        full = np.array(ref.expand_blocks(s.tolist(), counts))
        ensure(np.allclose(i.chis_feat, s, rtol=1e-14), "interactions of features are symmetrised", got=i.chis_feat, want=s)
        ensure(np.allclose(i.chis, full, rtol=1e-14), "interactions of components are those of their features", got=i.chis, want=full)
        c = i.compiled(**({} if case["shift"] is None else {"additional_chis_shift": case["shift"]}))
        pot = np.asarray(c.potential(x))
        ensure(np.allclose(pot, s @ x, rtol=1e-12, atol=1e-12), "the iteration uses the interactions of the features", got=pot, want=s @ x)
        u = 0.5 * (x * (s @ x)).sum(axis=0)
        ensure(np.allclose(c.volume_derivative(pot, x), u, rtol=1e-12, atol=1e-12), "the energy of the features is that of the interactions", got=c.volume_derivative(pot, x), want=u)
    if nf == 1:
        raise Trivial("one feature")
    return f"assigned{len(case['later'])}"


PARTS = [
    Part("assigned", strat_assigned, check_assigned, 800, 8000),
    Part("descriptions", strat_conv, check_conv, 320, 3000, warmup=S.warm_both, nontrivial_floor=0.6),
    Part("twins", strat_twin, check_twin, 1200, 12000),
    Part("functions", strat_fn, check_fn, 800, 8000),
]
