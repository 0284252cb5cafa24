"""Hypothesis strategies.  Everything drawn is JSON-serialisable."""
from hypothesis import strategies as st


def ratio(lo, hi, den=1000):
    """floats on a grid, shrinking towards the simplest value of the range"""
    return st.integers(int(round(lo * den)), int(round(hi * den))).map(lambda k: k / den)


#: positive weights: mostly ordinary, sometimes tiny
WEIGHT = st.one_of(
    st.integers(1, 1000).map(float),
    st.integers(1, 1000).map(float),
    st.integers(1, 20).map(float),
    st.integers(-6, 0).map(lambda k: 10.0**k),
)
#: including vanishingly small amounts
ANY_WEIGHT = st.one_of(WEIGHT, WEIGHT, WEIGHT, WEIGHT, st.integers(-30, -7).map(lambda k: 10.0**k))


def _norm(ws):
    s = sum(ws)
    return [w / s for w in ws]


def composition(n, weight=ANY_WEIGHT):
    """strictly positive fractions which sum to one"""
    return st.lists(weight, min_size=n, max_size=n).map(_norm)


def mild_composition(n, lo=0.05):
    """fractions which sum to one, none of them smaller than about lo/n"""
    return st.lists(
        st.integers(int(1000 * lo), 1000).map(float), min_size=n, max_size=n
    ).map(_norm)


@st.composite
def composition_with_zeros(draw, n):
    ws = draw(st.lists(ANY_WEIGHT, min_size=n, max_size=n))
    mask = draw(st.lists(st.booleans(), min_size=n, max_size=n))
    if all(mask):
        mask[draw(st.integers(0, n - 1))] = False
    return _norm([0.0 if m else w for w, m in zip(ws, mask)])


@st.composite
def symmetric(draw, n, lo=-5.0, hi=5.0, diag=None):
    """symmetric matrix; diag=None draws the diagonal too"""
    e = ratio(lo, hi, 100)
    m = [[0.0] * n for _ in range(n)]
    for i in range(n):
        for j in range(i, n):
            if i == j:
                m[i][j] = draw(e) if diag is None else diag
            else:
                m[i][j] = m[j][i] = draw(e)
    return m


@st.composite
def any_matrix(draw, n, lo=-5.0, hi=5.0):
    e = ratio(lo, hi, 100)
    return [[draw(e) for _ in range(n)] for _ in range(n)]


SIZE = st.one_of(
    st.just(1.0),
    st.integers(1, 20).map(float),
    st.integers(1, 80).map(lambda k: k / 4),
)
#: including solvents smaller than a monomer and long polymers
ANY_SIZE = st.one_of(SIZE, SIZE, SIZE, SIZE, st.sampled_from([100.0, 0.1, 1000.0, 333.25, 0.01, 1e5]))


def sizes(n, elem=SIZE):
    return st.lists(elem, min_size=n, max_size=n)


@st.composite
def maybe_sizes(draw, n, elem=SIZE):
    return draw(st.one_of(st.none(), sizes(n, elem), sizes(n, elem)))


SEED = st.integers(0, 2**31 - 1)


@st.composite
def permutation(draw, n):
    return draw(st.permutations(list(range(n))))
