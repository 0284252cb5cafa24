"""Reference model of the whole iteration, written from the documented equations (plain numpy, one step at a time).

State: fields w (N_S x M), volumes J (M), multipliers of the constraints.  Compartments at or below the kill
threshold are dead and take no part; reviving is not modelled (cases switch it off or stop before).
"""
import numpy as np
from hypothesis import strategies as st

import flory

from . import gen, ref, systems as S
from .build import rng

DIAG = ("max_abs_incomp", "max_abs_omega_diff", "max_abs_js_diff", "max_constraint_residue")


class Model:
    def __init__(self, chis, counts, sizes, ensemble, cons, coef, aj, aw, bound, kill, w):
        self.chis, self.l = np.array(chis, float), np.array(sizes, float)
        self.r = np.array(S.feat_index(counts))
        self.kind, self.amount = ensemble[0], np.array(ensemble[1], float)
        self.cons, self.coef = cons, coef
        self.aj, self.aw, self.bound, self.kill = aj, aw, bound, kill
        self.w = np.array(w, float)
        self.J = np.ones(self.w.shape[1])
        self.mult = [np.zeros((len(c["Ts"]), self.w.shape[1]) if c["kind"] == "local" else len(c["Ts"])) for c in cons]
        self.margin = np.inf

    def step(self):
        M = len(self.J)
        self.margin = min(self.margin, np.abs(self.J - self.kill).min())
        live = self.J > self.kill
        n = int(live.sum())
        J = np.where(live, self.J, 0.0)
        boltz = np.exp(-self.l[:, None] * self.w[self.r])
        if self.kind == "canonical":
            Q = (boltz * J).sum(axis=1) / J.sum()
            phi = self.amount[:, None] * boltz / Q[:, None]
        else:
            phi = self.amount[:, None] * boltz
        phi = np.where(live, phi, 0.0)
        self.phi = phi
        feat = np.zeros_like(self.w)
        for i, r in enumerate(self.r):
            feat[r] += phi[i]
        incomp = np.where(live, phi.sum(axis=0) - 1, 0.0)
        pot, vol, res = np.zeros_like(self.w), np.zeros(M), 0.0
        deltas = []
        for c, mult in zip(self.cons, self.mult):
            C, T, k = np.array(c["Cs"], float), np.array(c["Ts"], float), c["kappa"]
            R = np.where(live, C @ feat - T[:, None], 0.0)
            if c["kind"] == "local":
                pot += C.T @ (mult + 2 * k * R)
                vol += (R * (mult + k * R)).sum(axis=0)
                deltas.append(R)
            else:
                tot = (R * J).sum(axis=1)
                force = mult + 2 * k * tot
                pot += (C.T @ force)[:, None]
                vol += force @ R
                deltas.append(tot / J.sum())
            res = max(res, np.abs(deltas[-1]).max(initial=0.0))
        pot, vol = pot * live, vol * live
        u = self.chis @ feat
        xi = (self.coef * incomp + (self.w - u - pot).sum(axis=0)) / len(self.w) * live
        field = u + pot + xi
        le = 0.5 * (u * feat).sum(axis=0) - (phi / self.l[:, None]).sum(axis=0) + xi * incomp + vol - (field * feat).sum(axis=0)
        dj = ((le * J).sum() / n - le) * live
        biggest = np.abs(dj).max()
        factor = min(1.0, self.bound / (self.aj * biggest)) if self.aj * biggest > 0 else 1.0
        newJ = J + factor * self.aj * dj
        newJ = np.where(live, newJ + 1 - newJ.sum() / n, 0.0)
        dw = (field - self.w) * live
        self.w = (self.w + factor * self.aw * dw) * live
        for c, mult, d in zip(self.cons, self.mult, deltas):
            mult += factor * self.aw * c["acc"] * d
            if c["kind"] == "local":
                mult *= live
        self.J = newJ
        self.live = live
        self.diag = dict(zip(DIAG, (np.abs(incomp).max(), np.abs(dw).max(), biggest, res)))

    def ok(self):
        return np.all(np.isfinite(self.w)) and np.all(np.isfinite(self.phi)) and np.abs(self.l[:, None] * self.w[self.r]).max() < 200 and np.abs(self.w).max() < 200 and self.diag["max_abs_incomp"] < 1e4


COMBOS = {
    "fh-c": ("fh", "canonical", ""), "fh-g": ("fh", "grand", ""), "poly-c": ("poly", "canonical", ""), "poly-g": ("poly", "grand", ""),
    "fh-c-L": ("fh", "canonical", "L"), "fh-c-G": ("fh", "canonical", "G"), "poly-c-LG": ("poly", "canonical", "LG"),
    "poly-g-GL": ("poly", "grand", "GL"), "fh-g-L": ("fh", "grand", "L"), "fh-c-GG": ("fh", "canonical", "GG"), "fh-g-LL": ("fh", "grand", "LL"),
    "fh-g-G": ("fh", "grand", "G"),
}


@st.composite
def strat(draw, combo, dying=False):
    kind, ens, cons = COMBOS[combo]
    if kind == "poly":
        nf = draw(st.sampled_from([2, 3, 2, 3, 2, 3, 1, 5]))
        counts = draw(st.lists(st.sampled_from([1, 2, 3, 1, 2, 3, 1, 6, 0]), min_size=nf, max_size=nf).filter(lambda c: max(c) > 1))
    else:
        counts = [1] * draw(st.sampled_from([2, 3, 4, 5, 2, 3, 4, 1, 7, 9, 2, 3, 4, 5, 3, 2, 12, 17]))
    nf, n = len(counts), sum(counts)
    cs = []
    for k in cons:
        na = draw(st.sampled_from([1, 2, 1, 2, 3]))
        cs.append({"kind": "local" if k == "L" else "global", "Cs": [draw(st.lists(gen.ratio(-2, 2, 10), min_size=nf, max_size=nf)) for _ in range(na)],
                   "Ts": draw(st.lists(gen.ratio(-1, 1, 10), min_size=na, max_size=na)), "kappa": draw(st.sampled_from([1.0, 0.0, 2.5, 0.3])),
                   "acc": draw(st.sampled_from([1.0, 0.5, 3.0, 0.0]))})
    case = {"counts": counts, "chis": draw(gen.symmetric(nf, -4, 7)), "sizes": draw(gen.sizes(n, S.MILD_SIZE)), "ens": ens,
            "amount": draw(gen.mild_composition(n, 0.02)), "cons": cs, "M": draw(st.sampled_from([4, 2, 6, 3, 9, 1, 4, 6, 17, 40, 4, 2, 6, 3, 5, 8, 70, 130, 257])), "wseed": draw(gen.SEED),
            "std": draw(st.sampled_from([1.0, 0.3, 2.0] if ens == "canonical" else [0.5, 0.2, 1.0])), "offset": draw(st.sampled_from([0.0, 0.5, -0.5, 1.0])),
            "steps": draw(st.one_of(st.integers(1, 4), st.integers(1, 30), st.integers(1, 30), st.integers(31, 150))), "shift": draw(st.sampled_from([None, 0.3, 2.5, 1.0])),
            "aj": draw(st.sampled_from([0.0002, 0.002, 0.02, 0.3])), "aw": draw(st.sampled_from([0.002, 0.02, 0.1, 0.0])),
            "bound": draw(st.sampled_from([0.001, 0.01, 0.1, 1e-5, 0.5])), "kill": 0.0}
    if dying:
        case.update(kill=draw(st.sampled_from([0.9, 0.5, 0.97, 0.7])), aj=draw(st.sampled_from([0.1, 1.0, 10.0])), bound=draw(st.sampled_from([0.05, 0.2, 0.01])))
    return case


def parts(case):
    kind = "fh" if set(case["counts"]) == {1} else "poly"
    n, nf = len(case["sizes"]), len(case["counts"])
    if kind == "fh":
        f = flory.FloryHuggins(n, case["chis"], case["sizes"])
        i, e = f.interaction, f.entropy
    else:
        i = flory.FloryHugginsBlockInteraction(nf, case["chis"], case["counts"])
        e = flory.IdealGasPolydispersedEntropy(nf, case["sizes"], case["counts"])
    ens = flory.CanonicalEnsemble(n, case["amount"]) if case["ens"] == "canonical" else flory.GrandCanonicalEnsemble(n, case["amount"])
    return i, e, ens


def constraint(c, nf):
    cls = flory.LinearLocalConstraint if c["kind"] == "local" else flory.LinearGlobalConstraint
    return cls(nf, np.array(c["Cs"]), np.array(c["Ts"]))


def fields(case):
    return np.random.default_rng(case["wseed"]).normal(case["offset"], case["std"], (len(case["counts"]), case["M"]))


def build(case, g=None, **kw):
    """finder (with its constraints given one by one, so that each has its own options) and the model in the same state"""
    i, e, ens = parts(case)
    nf = len(case["counts"])
    if case["shift"] is not None:
        kw["additional_chis_shift"] = case["shift"]
    f = flory.CoexistingPhasesFinder(i, e, ens, None, num_part=case["M"], rng=rng(0) if g is None else g, progress=False, tolerance=1e-300, interval=1000,
                                     acceptance_Js=case["aj"], acceptance_omega=case["aw"], Js_step_upper_bound=case["bound"],
                                     kill_threshold=case["kill"], max_revive_per_compartment=kw.pop("revive", 0), **kw)
    if case["cons"]:
        f.set_constraints([constraint(c, nf) for c in case["cons"]],
                          kwargs_individual=[{"constraint_elasticity": c["kappa"], "constraint_acceptance_ratio": c["acc"]} for c in case["cons"]])
    return f


def model(case, w=None):
    chis = np.array(case["chis"])
    # numerical strength of the incompressibility: the mean of the interactions shifted above zero
    coef = chis.sum() + (-chis.min() + (1.0 if case["shift"] is None else case["shift"])) * chis.size
    return Model(chis, case["counts"], case["sizes"], (case["ens"], case["amount"]), case["cons"], coef,
                 case["aj"], case["aw"], case["bound"], case["kill"], fields(case) if w is None else w)


def follow(case, k, w=None):
    """the model after every of k steps, a list of (diag, w, J, phi, live before the step) and the sensitivity to rounding of all of them"""
    a = model(case, w)
    rel = np.random.default_rng(7).uniform(-1e-12, 1e-12, a.w.shape)
    b = model(case, a.w * (1 + rel))
    out = []
    for _ in range(k):
        for m in (a, b):
            m.step()
        if not (a.ok() and b.ok()) or not (a.J > a.kill).any():
            break
        if a.margin < 1e-7 or np.abs(a.J - a.kill).min() < 1e-7 or not np.array_equal(a.live, b.live):
            break
        dev = max([abs(a.diag[d] - b.diag[d]) for d in DIAG] + [np.abs(a.w - b.w).max(), np.abs(a.J - b.J).max(), np.abs(a.phi - b.phi).max()])
        if dev > 1e-8:
            break
        out.append({"diag": dict(a.diag), "w": a.w.copy(), "J": a.J.copy(), "phi": a.phi.copy(), "live": a.live.copy(), "after": a.J > a.kill, "tol": 100 * dev + 1e-9,
                    "mult": [m.copy() for m in a.mult]})
    return out


def close(x, y, tol):
    x, y = np.asarray(x, float), np.asarray(y, float)
    return x.shape == y.shape and bool(np.all(np.abs(x - y) <= tol * (1 + np.abs(y))))
