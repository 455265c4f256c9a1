"""C26: one full iteration of the real chain satisfies detailed balance with respect to the tempered posterior."""
import itertools
import math
import numpy as np
from mc import kernel
from mc.spec import Sp, Model, Noise
from .common import prior, L_SHAPE
from .c06 import states, thin

BOUNDS = ("whole iterations from every listed model: every draw enumerated, the acceptance variate just below and just above the "
          "reference acceptance probability; temperatures 1 and above")
ASSUMPTIONS = ["random draws are enumerated on a lattice and weighted by their density",
               "the last unit variate of an iteration decides about acceptance"]
V = [0.0, 1.0]


def features(model, c):
    """a smooth function of the canonical model that distinguishes models"""
    a = b = 0.0

    def rec(sp, dims, w):
        nonlocal a, b
        a += 0.13 * w * len(dims)
        for site, vals in dims:
            s = 1.0 if site is None else (site if np.isscalar(site) else site[0] + 0.37 * site[1])
            b += 0.021 * w * s
            for j, (p, v) in enumerate(zip(sp.params, vals)):
                if isinstance(p, Sp):
                    rec(p, v, w * 0.7)
                else:
                    a += 0.11 * w * (j + 1) * v * (1 + 0.05 * s)
                    b += 0.05 * w * v * v
    for i, s in enumerate(model.spaces):
        rec(s, c[i], 1.0 + 0.3 * i)
    return np.array([a, b, a - b, 0.3 + 0.1 * a * b])


class Like:
    """targets with a forward function on the canonical model, and the reference log likelihood"""

    def __init__(self, model, form):
        import bayesbay as bb
        self.model, self.form = model, form
        d1 = np.array([0.4, -0.2, 0.3, 0.1])
        d2 = np.array([-0.3, 0.5])
        f1 = lambda s: features(model, model.from_state(s))
        f2 = lambda s: features(model, model.from_state(s))[:2] * 0.8
        L = bb.likelihood
        self.data = [d1, d2]
        self.noises = model.noises
        if form == "known":
            self.cinv = np.array([[2.0, 0.3, 0, 0], [0.3, 1.5, 0, 0], [0, 0, 1.0, 0.2], [0, 0, 0.2, 0.8]])
            self.ll = L.LogLikelihood([L.Target("d1", d1, covariance_mat_inv=self.cinv),
                                       L.Target("d2", d2, covariance_mat_inv=1.7)], [f1, f2])
        elif form == "hier":
            self.ll = L.LogLikelihood([n.build() for n in model.noises],
                                      [f1, f2][:len(model.noises)])
        elif form == "func":
            self.ll = L.LogLikelihood(log_like_func=lambda s: self(model.from_state(s)))
        elif form == "ratio":
            self.ll = L.LogLikelihood(log_like_ratio_func=lambda a, b: self(model.from_state(b)) - self(model.from_state(a)))

    def __call__(self, c):
        f = features(self.model, c)
        if self.form == "known":
            r1, r2 = f - self.data[0], f[:2] * 0.8 - self.data[1]
            return -0.5 * (r1 @ self.cinv @ r1 + 1.7 * r2 @ r2)
        if self.form == "hier":
            out = 0.0
            for n, x, pred in zip(self.noises, c[len(self.model.spaces):], [f, f[:2] * 0.8]):
                r = pred - np.array(n.dobs)
                rho = x[1] or 0.0
                C = x[0] ** 2 * np.array([[rho ** abs(i - j) for j in range(len(r))] for i in range(len(r))])
                out += -0.5 * (r @ np.linalg.solve(C, r) + np.linalg.slogdet(C)[1])
            return out
        return -0.7 * f[0] ** 2 + 0.4 * f[1]


def _model(name):
    d1, d2 = [0.4, -0.2, 0.3, 0.1], [-0.3, 0.5]
    if name == "ps":
        return Model([Sp("s", "ps", 1, 3, [prior("p", "G", 0, 1.2), prior("q", "U", 0, 1.5)])])
    if name == "v1":
        return Model([Sp("s", "v1", 1, 3, [prior("p", "G", 1, 1.2, 1.5)], lo=0.5, hi=5.5, std=1.3)])
    if name == "v1p":
        return Model([Sp("s", "v1", 1, 3, [prior("p", "L", 1, 1.2, 1.5)], lo=0.5, hi=5.5, birth="prior")])
    if name == "v2":
        return Model([Sp("s", "v2", 1, 3, [prior("p", "U", 2, 1.2, 1.5)], lo=(0.5, 0.5), hi=(2.5, 3.5))])
    if name == "poly":
        return Model([Sp("s", "v2", 1, 2, [prior("p", "G", 2, 1.2, 1.5)], polygon=L_SHAPE)])
    if name == "mixed":
        return Model([Sp("a", "ps", 1, 2, [prior("x", "U")]),
                      Sp("b", "v1", 1, 2, [prior("x", "G", 1, 1.5, 1.2)], lo=0.5, hi=3.5)])
    if name == "nested":
        inner = Sp("in", "ps", 1, 2, [prior("q", "U")])
        return Model([Sp("out", "v1", 1, 2, [prior("p", "G", 1, 1.2, 1.4), inner], lo=0.5, hi=3.5)])
    if name == "nested-v1":
        inner = Sp("in", "v1", 1, 2, [prior("q", "U", 0, 1.1, 1.3)], lo=0.5, hi=2.5)
        return Model([Sp("out", "v1", 1, 2, [inner], lo=0.5, hi=3.5)])
    if name == "noise":
        return Model([Sp("s", "ps", 1, 2, [prior("p", "L", 0, 1.2)])], [Noise("d1", n=4, dobs=d1)])
    if name == "noise-corr":
        return Model([Sp("s", "ps", 1, 2, [prior("p", "L", 0, 1.2)])],
                     [Noise("d1", 0.5, 3.5, n=4, dobs=d1, correlated=True, clo=0.25, chi=0.5), Noise("d2", 1.0, 3.0, 1.4, n=2, dobs=d2)])
    if name == "noise-v1":
        return Model([Sp("s", "v1", 1, 2, [prior("p", "G", 1, 1.2, 1.3)], lo=0.5, hi=3.5)],
                     [Noise("d1", 0.5, 3.5, n=4, dobs=d1)])


def jobs(tier):
    q = tier == "quick"
    out = []
    for name in ("ps", "v1", "v1p", "v2", "poly", "mixed", "nested", "nested-v1"):
        for form, T in (("known", 1.0), ("known", 2.5), ("func", 1.7), ("ratio", 4.0)):
            if q and name in ("poly", "nested-v1", "nested", "v1p") and form != "known":
                continue
            out.append((f"{name}-{form}-T{T}", "run", name, form, T))
    for name in ("noise", "noise-corr", "noise-v1"):
        for T in (1.0, 3.0):
            out.append((f"{name}-T{T}", "run", name, "hier", T))
            out.append((f"{name}-warm-T{T}", "run", name, "hier", T, True))
    for name in ("ps", "v1", "v2", "mixed", "nested", "nested-v1"):
        out.append((f"{name}-warm-T1.7", "run", name, "known", 1.7, True))
    return out


def run(job, name, form, T, warm=False):
    import bayesbay as bb
    m = _model(name)
    like = Like(m, form)
    inv = bb.BayesianInversion(bb.parameterization.Parameterization([s.build() for s in m.spaces]), like.ll, n_chains=1)
    n = dict(poly=3, nested=6, v2=8).get(name, 10) if job.quick else dict(poly=10).get(name, 30)
    if "nested" in name:
        n = 4 if job.quick else 14
    opts = [thin(states(s, ks=range(s.kmin, s.kmax)), n // 2) + thin(states(s, ks=(s.kmax,)), n // 2) for s in m.spaces]
    for x in m.noises:
        opts.append([(a, b) for a in (1.0, 2.0, 3.0) if a <= x.hi for b in ((x.clo, x.chi) if x.correlated else (None,))])
    canon = [c for c in itertools.product(*opts) if m.logpi(c) > -math.inf]
    canon = thin(canon, 2 * n)
    extra = [x for x in m.expected(canon[0], 1) if m.logpi(x) > -math.inf]
    canon = list(dict.fromkeys(canon + thin(extra, 4)))
    kernel.check_chain(job, m, inv.chains[0], like, canon, 1, T,
                       max_draws=16 if name == "poly" else 60, rtol=1e-3 if name == "poly" else 1e-6, warm=warm)
