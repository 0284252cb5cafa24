"""C07: parameter objects always reflect the last values they were given."""
import numpy as np
from hypothesis import strategies as st

import flory
from lib import fe, gen, ref
from lib.harness import Part, Trivial, ensure

RULE = (
    "cases are histories of 1-8 operations (assign full/scalar/row/integer/asymmetric values, uniform or seeded random "
    "matrices, and in-place changes of the arrays which were handed in earlier) interleaved over two objects of the "
    "same class; after every operation both objects are compared with a plain model and with a freshly "
    "constructed object. Non-trivial = at least two effective operations"
)


def _mat(draw, n):
    k = draw(st.sampled_from(["sym", "asym", "scalar", "row", "int", "fortran"]))
    if k == "sym":
        return {"k": k, "v": draw(gen.symmetric(n))}
    if k in ("asym", "fortran"):
        return {"k": k, "v": draw(gen.any_matrix(n))}
    if k == "scalar":
        return {"k": k, "v": draw(gen.ratio(-4, 4, 10))}
    if k == "row":
        return {"k": k, "v": draw(st.lists(gen.ratio(-4, 4, 10), min_size=n, max_size=n))}
    return {"k": k, "v": [[draw(st.integers(-4, 4)) for _ in range(n)] for _ in range(n)]}


def _vec(draw, n, lo, hi):
    k = draw(st.sampled_from(["full", "scalar", "int", "strided"]))
    if k == "scalar":
        return {"k": k, "v": draw(gen.ratio(lo, hi, 100))}
    if k == "int":
        return {"k": k, "v": [draw(st.integers(max(1, int(np.ceil(lo))), int(hi))) for _ in range(n)]}
    return {"k": k, "v": [draw(gen.ratio(lo, hi, 100)) for _ in range(n)]}


def arr(val):
    """what the user passes; arrays so that they can be modified later"""
    k, v = val["k"], val["v"]
    if k == "scalar":
        return v
    a = np.array(v, dtype=int if k == "int" else float)
    if k == "fortran":
        a = np.asfortranarray(a)
    if k == "strided":
        b = np.zeros(2 * len(a))
        b[::2] = a
        a = b[::2]
    return a


def want(val, shape):
    return np.array(np.broadcast_to(np.array(val["v"], float), shape))


KINDS = ["fh", "inter", "block", "ideal", "poly", "canonical", "grand", "local", "global"]


@st.composite
def strat(draw):
    kind = draw(st.sampled_from(KINDS))
    if kind in ("block", "poly"):
        counts = draw(st.lists(st.integers(1, 3), min_size=1, max_size=3))
        nf, n = len(counts), sum(counts)
    else:
        n = draw(st.integers(1, 4))
        counts, nf = [1] * n, n
    na = draw(st.integers(1, 3))

    def init_or_set(what):
        if what == "chis":
            return _mat(draw, nf)
        if what == "sizes":
            return _vec(draw, n, 0.25, 12)
        if what == "phi":
            return _vec(draw, n, 0.01, 1)
        if what == "act":
            return _vec(draw, n, 0.01, 9)
        if what == "Cs":
            k = draw(st.sampled_from(["full", "fortran", "int", "row"]))
            if k == "row":
                return {"k": "row", "v": draw(st.lists(gen.ratio(-2, 2, 10), min_size=n, max_size=n))}
            e = st.integers(-2, 2) if k == "int" else gen.ratio(-2, 2, 10)
            return {"k": k, "v": [[draw(e) for _ in range(n)] for _ in range(na)]}
        return _vec(draw, na, 0.0, 1) if what == "Ts" else None

    fields = {"fh": ["chis", "sizes"], "inter": ["chis"], "block": ["chis"], "ideal": ["sizes"], "poly": ["sizes"],
              "canonical": ["phi"], "grand": ["act"], "local": ["Cs", "Ts"], "global": ["Cs", "Ts"]}[kind]
    extra = ["mutate"]
    if kind in ("fh", "inter"):
        extra += ["uniform", "random"]
    init = []
    for _ in range(2):
        d = {w: init_or_set(w) for w in fields}
        if kind in ("local", "global") and d["Cs"]["k"] == "row" and na > 1:
            d["Cs"] = {"k": "full", "v": [[0.5] * n for _ in range(na)]}
        if kind in ("local", "global") and d["Cs"]["k"] != "row" :
            d["Cs"]["v"] = (d["Cs"]["v"] * na)[:na]
        init.append(d)
    ops = []
    for _ in range(draw(st.integers(1, 8))):
        o = draw(st.sampled_from(fields + fields + extra))
        op = {"op": o, "obj": draw(st.integers(0, 1))}
        if o in fields:
            op["val"] = init_or_set(o)
        elif o == "uniform":
            op.update(chi=draw(st.one_of(gen.ratio(-4, 4, 10), st.integers(-4, 4))), diag=draw(st.booleans()))
        elif o == "random":
            op.update(mean=draw(gen.ratio(-3, 3, 10)), std=draw(gen.ratio(0, 3, 10)), diag=draw(st.booleans()),
                      seed=draw(gen.SEED))
        ops.append(op)
    return {"kind": kind, "counts": counts, "na": na, "init": init, "ops": ops,
            "none": draw(st.booleans())}


def sym(a):
    return 0.5 * (a + a.T)


class Obj:
    """the real object next to its model"""

    def __init__(self, case, init):
        self.kind = kind = case["kind"]
        self.counts = case["counts"]
        self.nf, self.n, self.na = len(self.counts), sum(self.counts), case["na"]
        self.handed = []
        self.model = {}
        args = {w: self._take(v) for w, v in init.items()}
        for w, v in init.items():
            self._model_set(w, v)
        n, nf = self.n, self.nf
        if kind == "fh":
            self.real = flory.FloryHuggins(n, args["chis"], args["sizes"])
        elif kind == "inter":
            self.real = flory.FloryHugginsInteraction(n, args["chis"])
        elif kind == "block":
            self.real = flory.FloryHugginsBlockInteraction(nf, args["chis"], self.counts)
        elif kind == "ideal":
            self.real = flory.IdealGasEntropy(n, args["sizes"])
        elif kind == "poly":
            self.real = flory.IdealGasPolydispersedEntropy(nf, args["sizes"], self.counts)
        elif kind == "canonical":
            if case["none"]:
                self.real = flory.CanonicalEnsemble(n)
                self.model["phi"] = np.full(n, 1 / n)
            else:
                self.real = flory.CanonicalEnsemble(n, args["phi"])
        elif kind == "grand":
            self.real = flory.GrandCanonicalEnsemble(n, args["act"])
        else:
            cls = flory.LinearLocalConstraint if kind == "local" else flory.LinearGlobalConstraint
            self.real = cls(n, args["Cs"], args["Ts"])
            want_na = 1 if init["Cs"]["k"] == "row" else self.na
            ensure(self.real.num_cons == want_na, "number of constraints", got=self.real.num_cons)

    def _take(self, val):
        a = arr(val)
        if isinstance(a, np.ndarray):
            self.handed.append(a)
        return a

    def _model_set(self, what, val):
        shape = {"chis": (self.nf, self.nf), "sizes": (self.n,), "phi": (self.n,), "act": (self.n,),
                 "Cs": (self.na, self.n), "Ts": (self.na,)}[what]
        a = want(val, shape)
        self.model[what] = sym(a) if what == "chis" else a

    def apply(self, op):
        o = op["op"]
        if o == "mutate":
            for a in self.handed:
                a[...] = 77
            return
        if o in ("uniform", "random"):
            inter = self.real.interaction if self.kind == "fh" else self.real
            if o == "uniform":
                inter.set_uniform_chis(op["chi"], vanishing_diagonal=op["diag"])
                c = np.full((self.n, self.n), float(op["chi"]))
                if op["diag"]:
                    np.fill_diagonal(c, 0)
                self.model["chis"] = c
            else:
                rng = np.random.default_rng(op["seed"])
                inter.set_random_chis(op["mean"], op["std"], vanishing_diagonal=op["diag"], rng=rng)
                c = np.array(inter.chis)
                ensure(np.array_equal(c, c.T), "random matrix is symmetric", got=c)
                if op["diag"]:
                    ensure(not np.any(np.diag(c)), "vanishing diagonal", got=c)
                # the same settings on a new object give the same matrix
                other = flory.FloryHugginsInteraction.from_random_normal(
                    self.n, op["mean"], op["std"], vanishing_diagonal=op["diag"], rng=np.random.default_rng(op["seed"]))
                ensure(np.array_equal(other.chis, c), "random matrix depends on the history of the object", got=c, want=other.chis)
                self.model["chis"] = c
            return
        v = self._take(op["val"])
        name = {"phi": "phi_means", "act": "scaled_activity", "chis": "chis_feat" if self.kind == "block" else "chis"}.get(o, o)
        setattr(self.real, name, v)
        self._model_set(o, op["val"])

    def verify(self, case):
        r, m, k = self.real, self.model, self.kind
        get = {}
        if k in ("fh", "inter"):
            get["chis"] = r.chis
        if k in ("fh", "ideal", "poly"):
            get["sizes"] = r.sizes
        if k == "block":
            get["chis"] = r.chis_feat
            full = np.array(ref.expand_blocks(m["chis"].tolist(), self.counts))
            ensure(fe.close(r.chis, full, 8, 1e-13), "component matrix follows the feature matrix", got=r.chis, want=full)
        if k == "canonical":
            get["phi"] = r.phi_means
        if k == "grand":
            get["act"] = r.scaled_activity
        if k in ("local", "global"):
            get["Cs"], get["Ts"] = r.Cs, r.Ts
        for w, v in get.items():
            ensure(fe.close(v, m[w], 8, 1e-13), f"{w} returns the last assigned value", got=v, want=m[w])
        # behaviour, not only the stored numbers
        n = self.n
        phi = np.arange(1.0, n + 1) / (n * (n + 1) / 2)
        if k == "fh":
            a, b = float(r.free_energy_density(phi)), ref.free_energy(phi, m["chis"], m["sizes"])
            ensure(abs(a - b) < 1e-11 * (10 + abs(b)), "free energy uses the last assigned values", got=a, want=b)
            ensure(fe.close(r.jacobian(phi), np.array(ref.grad(phi, m["chis"], m["sizes"])), 50, 1e-12), "Jacobian uses the last assigned values")
        if k in ("inter", "fh"):
            inter = r.interaction if k == "fh" else r
            iu = [m["chis"][i][j] for i in range(n) for j in range(i, n)]
            ensure(fe.close(inter.independent_entries, np.array(iu), 8, 1e-13), "independent entries", got=inter.independent_entries)
        if k in ("inter", "fh", "block"):
            inter = r.interaction if k == "fh" else r
            c = inter.compiled()
            nf = self.nf
            pf = np.arange(1.0, 1 + 2 * nf).reshape(nf, 2)
            w = np.array([[sum(m["chis"][i][j] * pf[j][q] for j in range(nf)) for q in range(2)] for i in range(nf)])
            ensure(fe.close(c.potential(pf), w, 8 * 2 * nf * nf, 1e-12), "compiled interaction uses the last assigned values", got=c.potential(pf), want=w)
        if k in ("ideal", "poly", "fh"):
            entr = r.entropy if k == "fh" else r
            c = entr.compiled()
            pc = np.arange(1.0, 1 + 2 * n).reshape(n, 2)
            w = -np.array([sum(pc[i][q] / m["sizes"][i] for i in range(n)) for q in range(2)])
            ensure(fe.close(c.volume_derivative(pc), w, 40 * n * n, 1e-12), "compiled entropy uses the last assigned values")
        if k in ("canonical", "grand"):
            c = r.compiled()
            pc = np.arange(1.0, 1 + 2 * n).reshape(n, 2)
            qs = np.arange(2.0, 2 + n)
            w = np.array([[(m["phi"][i] / qs[i] if k == "canonical" else m["act"][i]) * pc[i][q] for q in range(2)] for i in range(n)])
            c.normalize(pc, qs, np.ones(2))
            ensure(fe.close(pc, w, 100, 1e-12), "compiled ensemble uses the last assigned values", got=pc, want=w)
        if k in ("local", "global"):
            c = r.compiled()
            c.initialize(2)
            pf = np.arange(1.0, 1 + 2 * n).reshape(n, 2) / 10
            js = np.array([0.5, 1.5])
            c.prepare(pf, js, np.ones(2))
            res = m["Cs"] @ pf - m["Ts"][:, None]
            if k == "local":
                w = 2 * m["Cs"].T @ res
            else:
                w = np.outer(2 * m["Cs"].T @ (res @ js), np.ones(2))
            ensure(fe.close(c.potential, w, 100, 1e-12), "compiled constraint uses the last assigned values", got=c.potential, want=w)


def check(case):
    objs = [Obj(case, i) for i in case["init"]]
    for o in objs:
        if case["kind"] in ("local", "global") and case["init"][0]["Cs"]["k"] == "row":
            o.na = 1
    if case["kind"] in ("local", "global"):
        for o, i in zip(objs, case["init"]):
            o.na = o.real.num_cons
            o.model["Cs"] = np.array(np.broadcast_to(np.array(i["Cs"]["v"], float), (o.na, o.n)))
            o.model["Ts"] = o.model["Ts"][: o.na]
    for o in objs:
        o.verify(case)
    eff = 0
    for op in case["ops"]:
        t = objs[op["obj"]]
        if op["op"] in ("Cs", "Ts") and t.na == 1 and case["na"] > 1:
            v = op["val"]["v"]
            if op["op"] == "Ts" and isinstance(v, list):
                op = {**op, "val": {**op["val"], "v": v[:1]}}
            if op["op"] == "Cs" and op["val"]["k"] != "row":
                op = {**op, "val": {**op["val"], "v": v[:1]}}
        t.apply(op)
        eff += 1
        for o in objs:
            o.verify(case)
    if eff < 2:
        raise Trivial("fewer than two operations")
    return [case["kind"]] + sorted({o["op"] for o in case["ops"]})


def warm():
    for kind in KINDS:
        n, v = 2, {"k": "full", "v": [0.5, 0.5]}
        init = {"fh": {"chis": {"k": "scalar", "v": 1.0}, "sizes": v}, "inter": {"chis": {"k": "scalar", "v": 1.0}},
                "block": {"chis": {"k": "scalar", "v": 1.0}}, "ideal": {"sizes": v}, "poly": {"sizes": v}, "canonical": {"phi": v},
                "grand": {"act": v}, "local": {"Cs": {"k": "row", "v": [1.0, 0.0]}, "Ts": {"k": "scalar", "v": 0.5}}}
        init["global"] = init["local"]
        case = {"kind": kind, "counts": [1, 1], "na": 1, "init": [init[kind]] * 2, "ops": [], "none": False}
        check(case)


PARTS = [Part("histories", strat, check, 2400, 24000, warmup=warm)]
