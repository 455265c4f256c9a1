"""C10: the log likelihood ratio is the exact Gaussian log likelihood ratio."""
import itertools
import math
import numpy as np
from mc import rng
from mc.spec import Sp, Model, Noise
from .common import prior

BOUNDS = ("every combination of 1 to 3 targets with data sizes 1 to 5, every noise description (scalar, vector, full inverse covariance, "
          "unknown std, unknown std and correlation), noise values, predictions and temperatures from small menus; all ordered pairs of "
          "models; repeated and permuted evaluation on warm and cold caches")
ASSUMPTIONS = ["the reference builds the dense covariance and uses numpy.linalg"]

KINDS = ["scalar", "int", "vector", "matrix", "std", "corr"]
VALS = [0.0, 1.0, -2.5]
STDS = [(0.1, None), (0.7, None), (3.0, None)]
CORR = [(0.4, 0.01), (1.0, 0.5), (2.5, 0.9), (0.05, 0.99)]


def jobs(tier):
    out = [(f"single-{k}", "single", k) for k in KINDS]
    out += [(f"pair-{a}", "several", a, tier) for a in KINDS]
    out += [("forms", "forms"), ("three", "three", tier), ("primitive", "primitive", tier), ("chains", "chained"), ("wide-data", "wide")]
    return out


def cov_inv(kind, n):
    if kind == "scalar":
        return 1.7, 1.7 * np.eye(n)
    if kind == "int":
        return 2, 2.0 * np.eye(n)
    if kind == "vector":
        v = np.linspace(0.5, 2.0, n)
        return v, np.diag(v)
    a = np.array([[(1 + i) * (i == j) + 0.15 * (abs(i - j) == 1) + 0.02 * (i + j) for j in range(n)] for i in range(n)])
    a = (a + a.T) / 2
    return a, a


class T:
    """one target of the reference"""

    def __init__(self, name, kind, n, salt=0.0):
        import bayesbay as bb
        self.name, self.kind, self.n = name, kind, n
        self.dobs = np.array([0.3 * (i + 1) * (-1) ** i + salt for i in range(n)])
        self.w = np.array([0.5 + 0.2 * i - salt for i in range(n)])
        if kind in ("std", "corr"):
            self.target = bb.likelihood.Target(name, self.dobs, std_min=0.01, std_max=5, noise_is_correlated=kind == "corr",
                                               correlation_min=0.001, correlation_max=0.999)
            self.M = None
        else:
            given, self.M = cov_inv(kind, n)
            self.target = bb.likelihood.Target(name, self.dobs, covariance_mat_inv=given)

    def pred(self, v):
        return self.w * v + 0.1 * v * v

    def loglike(self, v, noise):
        r = self.pred(v) - self.dobs
        if self.M is not None:
            return -0.5 * float(r @ self.M @ r)
        s, c = noise
        c = 0.0 if c is None else c
        C = s * s * np.array([[c ** abs(i - j) for j in range(self.n)] for i in range(self.n)])
        return -0.5 * float(r @ np.linalg.solve(C, r) + np.linalg.slogdet(C)[1])

    def noises(self):
        return STDS if self.kind == "std" else CORR if self.kind == "corr" else [None]


def make_state(ts, v, noises):
    import bayesbay as bb
    vals = {"s": bb.ParameterSpaceState(1, {"p": np.array([v])})}
    for t, x in zip(ts, noises):
        if x is not None:
            vals[t.name] = bb.DataNoiseState(std=x[0], correlation=x[1])
    return bb.State(vals)


def judge(job, ll, ts, models, temps=(1, 2.5), fresh=True):
    """all ordered pairs"""
    fn = lambda m: sum(t.loglike(m[0], x) for t, x in zip(ts, m[1]))
    states = [make_state(ts, *m) for m in models]
    L = [fn(m) for m in models]
    scale = max(1.0, max(abs(x) for x in L))
    job.states += len(models)
    for (i, a), (j, b), T_ in itertools.product(enumerate(models), enumerate(models), temps):
        job.transitions += 1
        job.traces += 1
        sa, sb = (make_state(ts, *a), make_state(ts, *b)) if fresh else (states[i], states[j])
        got = ll.log_likelihood_ratio(sa, sb, T_)
        want = (L[j] - L[i]) / T_
        if not np.isscalar(got) or abs(got - want) > 1e-8 * scale:
            job.violation("the log likelihood ratio is not the Gaussian one", targets=[(t.kind, t.n) for t in ts], old=a, new=b,
                          temperature=T_, ratio=got, expected=want)
            return False
        back = ll.log_likelihood_ratio(sb, sa, T_)
        if abs(got + back) > 1e-8 * scale:
            job.violation("likelihood ratios are not antisymmetric", targets=[(t.kind, t.n) for t in ts], old=a, new=b,
                          ratio=got, back=back)
            return False
    job.sample(targets=[(t.kind, t.n) for t in ts], old=models[0], new=models[-1], expected=L[-1] - L[0])
    return True


def _ll(ts):
    import bayesbay as bb
    return bb.likelihood.LogLikelihood([t.target for t in ts], [lambda s, t=t: t.pred(float(s["s"]["p"][0])) for t in ts])


def single(job, kind):
    sizes = range(1, 6) if job.quick else range(1, 13)
    for n in sizes:
        t = T("d", kind, n)
        models = [(v, (x,)) for v in VALS for x in t.noises()]
        ll = _ll([t])
        judge(job, ll, [t], models)
        judge(job, ll, [t], models, (1.0,), fresh=False)


def several(job, a, tier):
    for b, (n1, n2) in itertools.product(KINDS, [(1, 3), (2, 2), (4, 1)] if tier == "quick" else itertools.product(range(1, 5), repeat=2)):
        ts = [T("d1", a, n1), T("d2", b, n2, 0.05)]
        models = [(v, (x, y)) for v in VALS[:2] for x in ts[0].noises()[:3] for y in ts[1].noises()[:3]]
        if tier == "quick":
            models = models[::max(1, len(models) // 8)]
        judge(job, _ll(ts), ts, models, fresh=n1 != 2)


def three(job, tier):
    kinds = KINDS if tier == "thorough" else ["scalar", "vector", "std", "corr"]
    for ks in itertools.product(kinds, repeat=3):
        ts = [T(f"d{i}", k, n, 0.03 * i) for i, (k, n) in enumerate(zip(ks, (2, 1, 3)))]
        models = [(v, x) for v in VALS[:2] for x in itertools.product(*[t.noises()[:2] for t in ts])]
        models = models[::max(1, len(models) // 5)]
        judge(job, _ll(ts), ts, models, (1,))
        # added one after the other instead of at once
        import bayesbay as bb
        ll = _ll(ts[:1])
        for t in ts[1:]:
            ll.add_targets(t.target, lambda s, t=t: t.pred(float(s["s"]["p"][0])))
        judge(job, ll, ts, models, (1.5,))


def forms(job):
    """user-supplied likelihoods: difference or value, divided by the temperature"""
    import bayesbay as bb
    f = lambda m, *a, **k: 0.3 * m * m - m + sum(a) * m + sum(k.values())
    g = lambda m1, m2, *a, **k: 1.7 * m2 - m1 + sum(a) + sum(k.values())
    for args, kw in (((), {}), ((0.5,), {}), ((1.0, -0.25), {"x": 2.0}), ((), {"y": 1.5})):
        for wrap in (False, True):
            extra = ([list(args)] if args else []) + ([kw] if kw else [])
            F = (f, *extra) if wrap or args or kw else f
            G = (g, *extra) if wrap or args or kw else g
            lf = bb.likelihood.LogLikelihood(log_like_func=F)
            lg = bb.likelihood.LogLikelihood(log_like_ratio_func=G)
            for a, b, T_ in itertools.product([-1.0, 0.0, 0.5, 3.0], [-1.0, 0.0, 0.5, 3.0], [1, 2, 0.5, 7.5]):
                job.states += 1
                job.transitions += 2
                job.traces += 2
                if abs(lf.log_likelihood_ratio(a, b, T_) - (f(b, *args, **kw) - f(a, *args, **kw)) / T_) > 1e-12:
                    job.violation("the ratio is not the difference of the user's log likelihoods over the temperature", old=a, new=b, T=T_)
                if abs(lg.log_likelihood_ratio(a, b, T_) - g(a, b, *args, **kw) / T_) > 1e-12:
                    job.violation("the ratio is not the user's log likelihood ratio over the temperature", old=a, new=b, T=T_)
            if abs(lf.log_likelihood_ratio(1.0, 2.0) - (f(2.0, *args, **kw) - f(1.0, *args, **kw))) > 1e-12:
                job.violation("the default temperature is not one")


def primitive(job, tier):
    """inverse and determinant of the covariance for every size"""
    import bayesbay as bb
    from bayesbay._utils_1d import inverse_covariance
    sizes = range(1, 9) if tier == "quick" else range(1, 41)
    for n, s, r in itertools.product(sizes, [0.01, 0.3, 1.0, 7.0], [0.0, 0.01, 0.3, 0.5, 0.9, 0.99]):
        job.states += 1
        job.transitions += 2
        C = s * s * np.array([[r ** abs(i - j) if i != j else 1.0 for j in range(n)] for i in range(n)])
        inv = np.asarray(inverse_covariance(s, r, n))
        job.traces += 1
        if inv.shape != (n, n) or np.abs(inv @ C - np.eye(n)).max() > 1e-8 / (1 - r):
            job.violation("the inverse of the noise covariance is wrong", n=n, std=s, correlation=r, inverse=inv)
        t = bb.likelihood.Target("d", np.zeros(n), noise_is_correlated=True)
        st = bb.State({"d": bb.DataNoiseState(std=s, correlation=r)})
        for j in range(n):
            e = np.zeros(n)
            e[j] = 1.0
            if np.abs(C @ t.inverse_covariance_times_vector(st, e) - e).max() > 1e-8 / (1 - r):
                job.violation("the inverse covariance is applied wrongly", n=n, std=s, correlation=r, column=j)
        if abs(t.log_determinant_covariance(st) - np.linalg.slogdet(C)[1]) > 1e-8 * (1 + n * abs(math.log(s))):
            job.violation("the log determinant of the noise covariance is wrong", n=n, std=s, correlation=r,
                          value=t.log_determinant_covariance(st), expected=np.linalg.slogdet(C)[1])


def chained(job):
    """ratios along a path of models sum up to the ratio of its ends, for all paths of length 3"""
    ts = [T("d1", "corr", 3), T("d2", "vector", 2), T("d3", "std", 1)]
    ll = _ll(ts)
    models = [(v, (c, None, s)) for v in VALS[:2] for c in CORR[:2] for s in STDS[:2]]
    st = [make_state(ts, *m) for m in models]
    for i, j, k in itertools.product(range(len(models)), repeat=3):
        job.transitions += 1
        job.traces += 1
        a = ll.log_likelihood_ratio(st[i], st[j]) + ll.log_likelihood_ratio(st[j], st[k])
        b = ll.log_likelihood_ratio(st[i], st[k])
        if abs(a - b) > 1e-7 * (1 + abs(a) + abs(b)):
            job.violation("likelihood ratios along a path do not add up", models=[models[i], models[j], models[k]], sum=a, direct=b)
    job.states += len(models)


def wide(job):
    """larger data, magnitudes and observations given as lists or integers"""
    import bayesbay as bb
    for n in (50, 200):
        for kind in ("std", "corr", "vector"):
            t = T("d", kind, n)
            models = [(v, (x,)) for v in VALS for x in t.noises()[:2]]
            judge(job, _ll([t]), [t], models, (1,))
    for dobs in ([1, 2, 3], (1.0, 2.0, 3.0), np.array([1, 2, 3])):
        for kind in ("scalar", "std", "corr"):
            t = T("d", kind, 3)
            kw = dict(covariance_mat_inv=1.7) if kind == "scalar" else dict(std_max=5, noise_is_correlated=kind == "corr")
            t.dobs = np.array([1., 2., 3.])
            t.target = bb.likelihood.Target("d", dobs, **kw)
            judge(job, _ll([t]), [t], [(v, (x,)) for v in VALS for x in t.noises()[:2]], (1,))
