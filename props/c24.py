"""C24: random compositions, interaction matrices and start fields follow the documented distributions."""
import numpy as np
from hypothesis import strategies as st

import flory
from flory.common.phases import get_uniform_random_composition
from lib import gen
from lib.build import rng
from lib.harness import Part, Trivial, ensure

RULE = (
    "every case draws a configuration and a seed, takes thousands of samples and compares moments, cross moments and tails with the exact "
    "values of the documented distribution (a deviation of more than seven standard errors is a violation), besides the exact invariants "
    "(sum one, symmetry, diagonal, reproducibility by seed). Non-trivial = the distribution is not a point"
)
Z = 7.0
ASSUMPTIONS = ["statistics are compared at seven standard errors; with about 1e5 comparisons per run a false alarm has a probability below 1e-6"]


def zcheck(sample, want, what):
    """sample: (K, ...) array of independent draws of a statistic"""
    sample = np.asarray(sample, float)
    k = len(sample)
    se = sample.std(axis=0) / np.sqrt(k)
    dev = np.abs(sample.mean(axis=0) - want)
    # two counts of slack so that rare events stay quiet
    ensure(np.all(dev <= Z * se + 10.0 * np.abs(sample).max(axis=0) / k + 1e-12), f"{what}", got=sample.mean(axis=0), want=want, se=se)


@st.composite
def strat_comp(draw):
    return {"n": draw(st.sampled_from([1, 2, 3, 4, 5, 6, 7, 2, 3, 4, 5, 10, 13])), "seed": draw(gen.SEED), "how": draw(st.sampled_from(["generator", "seed"]))}


def check_comp(case):
    n, K = case["n"], 3000
    a = get_uniform_random_composition(n, case["seed"] if case["how"] == "seed" else rng(case["seed"]))
    b = get_uniform_random_composition(n, case["seed"] if case["how"] == "seed" else rng(case["seed"]))
    ensure(np.array_equal(a, b), "the same seed gives the same composition", got=a, want=b)
    g = rng(case["seed"])
    x = np.array([get_uniform_random_composition(n, g) for _ in range(K)])
    ensure(x.shape == (K, n), "one fraction per component", got=x.shape)
    ensure(np.all(x >= -1e-15), "fractions are not negative", got=x.min())
    ensure(np.abs(x.sum(axis=1) - 1).max() < 1e-12, "fractions sum to one", got=x.sum(axis=1))
    free = get_uniform_random_composition(n)
    ensure(free.shape == (n,) and abs(free.sum() - 1) < 1e-12 and np.all(free >= -1e-15), "also without a given generator", got=free)
    if n == 1:
        ensure(np.all(x == 1.0), "a single component fills everything")
        raise Trivial("one component")
    ensure(len(np.unique(x, axis=0)) == K, "a generator gives a new composition every time")
    zcheck(x, 1 / n, "mean fractions of the uniform distribution on the simplex")
    zcheck(x**2, 2 / (n * (n + 1)), "second moments of the uniform distribution on the simplex")
    i, j = np.triu_indices(n, 1)
    zcheck(x[:, i] * x[:, j], 1 / (n * (n + 1)), "cross moments of the uniform distribution on the simplex")
    zcheck(x[:, i] ** 2 * x[:, j], 2 / (n * (n + 1) * (n + 2)), "third moments of the uniform distribution on the simplex")
    for t in (0.5, 0.2, 0.05):
        if K * (1 - t) ** (n - 1) < 60:
            continue  # too rare for the normal approximation
        zcheck(x > t, (1 - t) ** (n - 1), f"share of fractions above {t} of the uniform distribution on the simplex")
    zcheck(np.sort(x, axis=1)[:, 0], 1 / n**2, "smallest fraction of the uniform distribution on the simplex")
    # serial independence of consecutive draws
    zcheck(n * n * (x[:-1:2] - 1 / n) * (x[1::2] - 1 / n), 0.0, "successive compositions are independent")
    return f"n={n}"


@st.composite
def strat_chis(draw):
    return {"n": draw(st.sampled_from([1, 2, 3, 4, 5, 2, 3, 4, 8])), "seed": draw(gen.SEED), "mean": draw(gen.ratio(-4, 4, 10)), "std": draw(st.sampled_from([1.0, 0.3, 2.5, 4.0, 0.0])),
            "diag": draw(st.sampled_from([None, True, False])), "how": draw(st.sampled_from(["interaction", "free energy", "set"])),
            "omit": draw(st.sampled_from(["", "", "mean", "std", "mean std"])), "positional": draw(st.booleans()),
            "sizes": draw(st.booleans()), "old": draw(st.sampled_from(["zero", "matrix", "uniform"]))}


def check_chis(case):
    n, K = case["n"], 600
    mean, std = case["mean"], case["std"]
    sizes = np.linspace(1.0, 2.0, n) if case["sizes"] else None
    kw = {} if case["diag"] is None else {"vanishing_diagonal": case["diag"]}
    vanishing = case["diag"] is not False
    args = {"chi_mean": mean, "chi_std": std}
    if "mean" in case["omit"]:
        mean = 0.0
        del args["chi_mean"]
    if "std" in case["omit"]:
        std = 1.0
        del args["chi_std"]
    pos = []
    if case["positional"] and case["omit"] in ("", "std"):
        pos, args = list(args.values()), {}

    def one(g):
        if case["how"] == "free energy":
            fe = flory.FloryHuggins.from_random_normal(n, *pos, sizes=sizes, rng=g, **args, **kw)
            ensure(np.array_equal(fe.sizes, np.ones(n) if sizes is None else sizes), "sizes are those given", got=fe.sizes)
            return fe.chis
        if case["how"] == "set":
            old = {"zero": 0.0, "matrix": np.arange(n * n).reshape(n, n) + np.arange(n * n).reshape(n, n).T, "uniform": 3.0}[case["old"]]
            o = flory.FloryHugginsInteraction(n, old)
            o.set_random_chis(*pos, rng=g, **args, **kw)
            return o.chis
        return flory.FloryHugginsInteraction.from_random_normal(n, *pos, rng=g, **args, **kw).chis

    a = np.array(one(rng(case["seed"])))
    ensure(np.array_equal(a, one(rng(case["seed"]))), "the same seed gives the same matrix")
    g = rng(case["seed"])
    x = np.array([one(g) for _ in range(K)])
    ensure(x.shape == (K, n, n), "square matrix", got=x.shape)
    ensure(np.array_equal(x, np.swapaxes(x, 1, 2)), "the matrix is symmetric")
    d = np.diagonal(x, axis1=1, axis2=2)
    if vanishing:
        ensure(np.all(d == 0), "the diagonal vanishes", got=d)
    i, j = np.triu_indices(n, 1 if vanishing else 0)
    v = x[:, i, j]
    if v.size == 0 or std == 0:
        ensure(np.all(np.abs(v - mean) < 1e-12), "without spread all entries are the mean", got=v)
        raise Trivial("no spread")
    ensure(len(np.unique(v)) == v.size, "all entries are drawn anew")
    y = (v - mean) / std
    zcheck(y, 0.0, "mean of the entries")
    zcheck(y**2, 1.0, "variance of the entries")
    zcheck(y**4, 3.0, "fourth moment of the entries (normal distribution)")
    zcheck(np.abs(y) > 1.0, 0.31731050786291415, "share of entries beyond one standard deviation")
    if y.shape[1] > 1:
        p, q = np.triu_indices(y.shape[1], 1)
        zcheck(y[:, p] * y[:, q], 0.0, "entries are independent")
    zcheck(y[:-1:2] * y[1::2], 0.0, "successive matrices are independent")
    # without a generator: a fresh random matrix
    o1, o2 = np.array(one(None)), np.array(one(None))
    ensure(n == 1 or not np.array_equal(o1, o2), "without a generator every matrix is new")
    return [case["how"], f"n={n}"]


@st.composite
def strat_uniform(draw):
    return {"n": draw(st.sampled_from([1, 2, 3, 4, 5, 6, 10])), "chi": draw(gen.ratio(-5, 5, 100)), "diag": draw(st.sampled_from([None, True, False])),
            "how": draw(st.sampled_from(["interaction", "free energy", "set"])), "sizes": draw(st.booleans()), "int": draw(st.booleans())}


def check_uniform(case):
    n, chi = case["n"], int(case["chi"]) if case["int"] else case["chi"]
    kw = {} if case["diag"] is None else {"vanishing_diagonal": case["diag"]}
    sizes = np.linspace(1.0, 2.0, n) if case["sizes"] else None
    if case["how"] == "free energy":
        fe = flory.FloryHuggins.from_uniform(n, chi, sizes=sizes, **kw)
        ensure(np.array_equal(fe.sizes, np.ones(n) if sizes is None else sizes), "sizes are those given", got=fe.sizes)
        x = fe.chis
    elif case["how"] == "set":
        o = flory.FloryHugginsInteraction(n, 7.5)
        o.set_uniform_chis(chi, **kw)
        x = o.chis
    else:
        o = flory.FloryHugginsInteraction.from_uniform(n, chi, **kw)
        x = o.chis
        ensure(np.array_equal(np.sort(o.independent_entries), np.sort(x[np.triu_indices(n)])), "independent entries are the upper triangle", got=o.independent_entries)
    want = np.full((n, n), float(chi))
    if case["diag"] is not False:
        np.fill_diagonal(want, 0.0)
    ensure(np.array_equal(x, want), "uniform matrix", got=x, want=want)
    if chi == 0:
        raise Trivial("all zero")
    return case["how"]


@st.composite
def strat_fields(draw):
    n = draw(st.sampled_from([1, 2, 3, 4, 1, 2, 3, 6]))
    return {"n": n, "std": draw(st.sampled_from([None, 1.0, 5.0, 0.25, 12.0])), "seed": draw(gen.SEED), "parts": draw(st.sampled_from([None, 64, 8])),
            "again": draw(st.booleans()), "rng": draw(st.sampled_from(["given", "given", "none"])), "counts": draw(st.lists(st.integers(1, 2), min_size=n, max_size=n))}


def check_fields(case):
    counts = case["counts"]
    nf, n = len(counts), sum(counts)
    K = 60
    kw = {} if case["std"] is None else {"random_std": case["std"]}
    std = 5.0 if case["std"] is None else case["std"]
    M = 8 * n if case["parts"] is None else case["parts"]
    if case["parts"] is not None:
        kw["num_part"] = M
    inter = flory.FloryHugginsBlockInteraction(nf, 1.0, counts)
    entr = flory.IdealGasPolydispersedEntropy(nf, None, counts)
    ens = flory.CanonicalEnsemble(n)

    def new(g):
        return flory.CoexistingPhasesFinder(inter, entr, ens, rng=g, progress=False, **kw)

    if case["rng"] == "none":
        f = new(None)
        x = [f.omegas.copy()]
        for _ in range(K - 1):
            f.reinitialize_random()
            x.append(f.omegas.copy())
    else:
        a, b = new(rng(case["seed"])), new(rng(case["seed"]))
        ensure(np.array_equal(a.omegas, b.omegas), "the same seed gives the same start fields")
        g = rng(case["seed"])
        f = new(g)
        x = [f.omegas.copy()]
        for _ in range(K - 1):
            if case["again"]:
                f.reinitialize_random()
            else:
                f = new(g)
            x.append(f.omegas.copy())
    x = np.array(x)
    ensure(x.shape == (K, nf, M), "one field per feature and compartment", got=x.shape, want=(K, nf, M))
    y = x / std
    ensure(len(np.unique(y)) == y.size, "all start fields are drawn anew")
    flat = y.reshape(-1)
    zcheck(flat, 0.0, "mean of the start fields")
    zcheck(flat**2, 1.0, "spread of the start fields")
    zcheck(flat**4, 3.0, "fourth moment of the start fields (normal distribution)")
    zcheck(np.swapaxes(y, 1, 2).reshape(-1, nf) ** 2, 1.0, "spread of the start fields of each feature")
    zcheck(np.swapaxes(y, 1, 2).reshape(-1, nf), 0.0, "mean of the start fields of each feature")
    zcheck((y[:, :, :-1:2] * y[:, :, 1::2]).reshape(-1), 0.0, "compartments start independently")
    if nf > 1:
        zcheck((y[:, 0] * y[:, 1]).reshape(-1), 0.0, "features start independently")
    return ["default" if case["std"] is None else "given", case["rng"]]


PARTS = [Part("compositions", strat_comp, check_comp, 480, 6000), Part("matrices", strat_chis, check_chis, 800, 10000),
         Part("uniform", strat_uniform, check_uniform, 400, 2000), Part("start fields", strat_fields, check_fields, 480, 6000)]
