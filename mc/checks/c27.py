"""C27: user functions get exactly the models and arguments they were given with; models of any type pass unchanged."""
import functools
import itertools
import math

import numpy as np

from mc import history, rng
from mc.history import deep

BOUNDS = ("5 kinds of callables x 11 forms of giving arguments (for perturbation, likelihood and forward functions) x 18 types of models; "
          "for each every history of 1 to 4 iterations of choices between two perturbation functions, with the acceptance variate just "
          "below and just above the acceptance probability that the returned values define")
ASSUMPTIONS = ["the acceptance variate is the last unit variate drawn in an iteration",
               "identity of models is judged for chains run in this process; for worker processes values are compared"]


class Obj:
    """a model the library knows nothing about: it cannot be compared, copied, iterated or converted"""

    def __init__(self, n):
        self.n = n

    def __eq__(self, o):
        raise TypeError("models of this type cannot be compared")
    __hash__ = None

    def __bool__(self):
        raise TypeError("no truth value")

    def __len__(self):
        raise TypeError("no length")

    def __copy__(self):
        raise TypeError("cannot be copied")
    __deepcopy__ = __copy__


class Plain:
    def __init__(self, n):
        self.n = n

    def __eq__(self, o):
        return isinstance(o, Plain) and o.n == self.n


class DictSub(dict):
    pass


MODELS = {
    "int": lambda n: n, "float": lambda n: n + 0.5, "bool": lambda n: n % 2 == 0, "str": lambda n: "m%d" % n, "bytes": lambda n: b"%d" % n,
    "tuple": lambda n: (n, "x"), "list": lambda n: [n, n + 1.5], "empty-list": lambda n: [], "array": lambda n: np.arange(3.0) + n,
    "array0": lambda n: np.array(float(n)), "array2": lambda n: np.full((2, 2), n), "npfloat": lambda n: np.float64(n),
    "dict": lambda n: {"a": n, "b": [n, 2]}, "dict-keys": lambda n: {1: n, (2, 3): "x", None: np.arange(2) + n},
    "dictsub": lambda n: DictSub(a=n), "object": lambda n: Obj(n), "plain": lambda n: Plain(n), "set": lambda n: {n, "y"},
}
ARR = np.array([1.0, 2.0])
ARGFORMS = [
    ("bare", lambda f: f, (), {}), ("tuple1", lambda f: (f,), (), {}), ("list1", lambda f: [f], (), {}),
    ("args-list", lambda f: (f, [1, "a"]), (1, "a"), {}), ("args-tuple", lambda f: [f, (None, 0)], (None, 0), {}),
    ("args-array", lambda f: (f, [ARR]), (ARR,), {}), ("args-nested", lambda f: (f, ([1, 2], {"z": 1})), ([1, 2], {"z": 1}), {}),
    ("kwargs", lambda f: (f, {"k": 1, "j": ARR}), (), {"k": 1, "j": ARR}), ("both", lambda f: (f, [2.5], {"k": None}), (2.5,), {"k": None}),
    ("no-args-kwargs", lambda f: (f, (), {"k": 0}), (), {"k": 0}), ("empty", lambda f: (f, [], {}), (), {}),
]


def kinds(record):
    """callables that pass what they get to record(args, kwargs)"""
    def function(*a, **k):
        return record(a, k)

    class Callable:
        def __call__(self, *a, **k):
            return record(a, k)

        def method(self, *a, **k):
            return record(a, k)
    c = Callable()

    def bound(tag, *a, tag2=None, **k):
        assert tag == "t" and tag2 == "u"
        return record(a, k)
    return dict(function=function, object=c, method=c.method, partial=functools.partial(bound, "t", tag2="u"),
                double=functools.partial(functools.partial(bound, "t"), tag2="u"))


def jobs(tier):
    out = [(f"model-{n}", "models", n) for n in MODELS]
    out += [("forms-perturbation", "forms", "perturbation"), ("forms-ratio", "forms", "ratio"), ("forms-like", "forms", "like"),
            ("forward", "forward"), ("starting", "starting"), ("worker-processes", "processes"), ("mutable-arguments", "mutable")]
    return out


def same_args(a, b):
    return type(a) is type(b) and deep(a) == deep(b) and (not isinstance(a, np.ndarray) or a is b)


class World:
    """an inversion with recording user functions; serial numbers make all values distinct"""

    def __init__(self, model, pform, lform, mode, n_chains=1, temperature=1.0):
        import bayesbay as bb
        self.model = MODELS[model]
        self.mode, self.T = mode, temperature
        self.serial = 0
        self.calls = []         # of the present iteration: (function, models, args ok)
        self.problems = []
        self.dict_like = isinstance(self.model(0), dict)

        def perturb(which):
            def record(a, k):
                self.check(f"perturbation {which}", a, k, 1, self.pexp)
                self.serial += 1
                new = self.model(self.serial)
                r = -0.25 * which - 0.01 * self.serial
                self.returned = (new, r)
                self.calls.append(("perturb", which, a[:1]))
                return new, r
            return record

        def like(a, k):
            self.check("likelihood", a, k, 1, self.lexp)
            self.calls.append(("like", None, a[:1]))
            # a value for every model, told apart by identity
            return self.value(a[0])

        def ratio(a, k):
            self.check("likelihood ratio", a, k, 2, self.lexp)
            self.calls.append(("ratio", None, a[:2]))
            self.ll = np.float64(-0.125 - 0.03 * self.serial) if self.serial % 2 else -0.125 - 0.03 * self.serial
            return self.ll
        pk, (_, pf, pa, pkw) = pform
        lk, (_, lf, la, lkw) = lform
        self.pexp, self.lexp = (pa, pkw), (la, lkw)
        fs = [pf(kinds(perturb(i))[pk]) for i in (0, 1)]
        kw = dict(log_like_func=lf(kinds(like)[lk])) if mode == "like" else dict(log_like_ratio_func=lf(kinds(ratio)[lk]))
        self.start = [self.model(-1 - i) for i in range(n_chains)]
        self.values = {}
        with rng.paused():
            self.inv = bb.BaseBayesianInversion(self.start, fs, n_chains=n_chains, **kw)
        self.keep = []

    def value(self, m):
        for x, v in self.keep_values():
            if x is m:
                return v
        self.problems.append("a likelihood function is called with something that is no model of the chain")
        return 0.0

    def keep_values(self):
        out = [(m, 0.05 * i) for i, m in enumerate(self.start)]
        return out + self.keep_pairs

    keep_pairs = ()

    def check(self, what, a, k, n_models, exp):
        if len(a) != n_models + len(exp[0]) or any(not same_args(x, y) for x, y in zip(a[n_models:], exp[0])) \
                or set(k) != set(exp[1]) or any(not same_args(k[x], exp[1][x]) for x in exp[1]):
            self.problems.append(f"the {what} function is called with {a[n_models:]!r}, {k!r} instead of {exp[0]!r}, {exp[1]!r}")


def play(job, mk, depth, ctx):
    """all histories of the given depth; yields nothing, reports"""
    def run():
        w = mk()
        w.keep_pairs = []
        ch = w.inv.chains[0]
        if ch.current_state is not w.start[0]:
            w.problems.append("a chain does not start from its starting model")
        ch.temperature = w.T
        cur = w.start[0]
        history_ = [cur]
        samples = []
        play.w = w
        for it in range(depth):
            w.calls = []
            play.alpha = None
            orig = len(play.ex.trace)
            ch.advance_chain(1, verbose=False, save_every=1)
            pert = [c for c in w.calls if c[0] == "perturb"]
            if len(pert) != 1 or pert[0][2][0] is not cur:
                w.problems.append("a perturbation function is not called once with the chain's model")
                break
            new, r = w.returned
            for c in w.calls:
                if c[0] == "ratio" and (c[2][0] is not cur or c[2][1] is not new):
                    w.problems.append("the likelihood ratio function is not called with the present and the proposed model")
                if c[0] == "like" and c[2][0] is not cur and c[2][0] is not new:
                    w.problems.append("the likelihood function is called with another model than the present or the proposed one")
            us = [x[1] for x in play.ex.trace[orig:] if x[0] == "unit"]
            la = alpha(w, cur, new, r)
            accept = la >= 0 or not us or us[-1] < math.exp(la)
            want = new if accept else cur
            if ch.current_state is not want:
                w.problems.append(f"the chain holds another model than the {'accepted' if accept else 'kept'} one (log acceptance "
                                  f"probability {la}, variate {us[-1:]})")
                break
            cur = want
            if w.T == 1:
                samples.append(cur)
        if not w.problems:
            saved = ch.saved_states
            res = w.inv.get_results()
            if w.dict_like:
                keys = set(w.start[0])
                ok = set(saved) == keys if samples else not saved
                ok = ok and all(len(saved[k]) == len(samples) and all(x is y[k] for x, y in zip(saved[k], samples)) for k in saved)
                ok = ok and set(res) == set(saved) and all(len(res[k]) == len(saved[k]) and all(x is y for x, y in zip(res[k], saved[k])) for k in res)
            else:
                ok = len(saved) == len(samples) and all(x is y for x, y in zip(saved, samples))
                ok = ok and len(res) == len(samples) and all(x is y for x, y in zip(res, samples))
            if not ok:
                w.problems.append("the saved samples or results are not the models the chain held")
        return w

    def unit(k):
        w = play.w
        if not hasattr(w, "returned"):
            return [(0.5, 1.0)]
        new, r = w.returned
        cur = w.inv.chains[0].current_state
        a = math.exp(min(0.0, alpha(w, cur, new, r)))
        if a >= 1:
            return [(1 - 1e-12, 1.0)]
        return [(a * (1 - 1e-7), 0.5), (a * (1 + 1e-7), 0.5)]
    play.ex = rng.Explorer(unit=unit)
    for w, weight, trace in play.ex.run_all(run):
        job.traces += 1
        job.states += depth
        job.transitions += depth
        if w.problems:
            job.violation(w.problems[0], trace=trace, **ctx)
            return
    job.sample(**ctx, depth=depth)


def alpha(w, cur, new, r):
    if w.mode == "like":
        pairs = {id(m): v for m, v in w.keep_values()}
        return r + (pairs.get(id(new), 0.0) - pairs.get(id(cur), 0.0)) / w.T
    return r + (-0.125 - 0.03 * w.serial) / w.T


# in mode "like" the value of every proposed model is remembered with it
def _remember(w):
    record = w.model

    def model(n):
        m = record(n)
        w.keep_pairs.append((m, -0.2 - 0.07 * n))
        return m
    w.model = model
    return w


def make(model, pform, lform, mode, **kw):
    w = World(model, pform, lform, mode, **kw)
    w.keep_pairs = []
    return _remember(w)


BARE = ("function", ARGFORMS[0])


def models(job, name):
    d = 3 if job.quick else 4
    for mode, T in (("ratio", 1.0), ("like", 1.0), ("ratio", 2.0), ("like", 2.0)):
        for depth in range(1, d + 1):
            # (types whose values may coincide by identity - small integers, booleans - are told apart by their ratio only)
            if mode == "like" and name in ("bool", "bytes", "int"):
                continue
            play(job, lambda: make(name, BARE, BARE, mode, temperature=T), depth, dict(model=name, likelihood=mode, temperature=T))


def forms(job, what):
    d = 2 if job.quick else 3
    for kind in kinds(None):
        for form in ARGFORMS:
            for name in ("float", "array", "dict", "object"):
                p = (kind, form) if what == "perturbation" else BARE
                l = (kind, form) if what != "perturbation" else BARE
                mode = "like" if what == "like" else "ratio"
                for depth in range(1, d + 1):
                    play(job, lambda: make(name, p, l, mode), depth, dict(model=name, form=form[0], callable=kind, function=what))


def starting(job):
    """each chain starts from its own model, whatever its type, and keeps to it"""
    import bayesbay as bb
    for name, n in itertools.product(MODELS, (1, 2, 3, 5)):
        start = [MODELS[name](i) for i in range(n)]
        given = list(start)
        seen = []
        inv = bb.BaseBayesianInversion(start, [lambda m: (seen.append(m), (m, 0.0))[1]], log_like_ratio_func=lambda a, b: 0.0, n_chains=n)
        job.states += 1
        job.traces += 1
        job.require([id(c.current_state) for c in inv.chains] == [id(x) for x in given], "a chain does not start from its own starting model",
                    model=name, chains=n)
        for acc in (history.ACCEPT, history.REJECT):
            for _ in rng.explore(lambda: inv.run(n_iterations=2, save_every=1, verbose=False, parallel_config=dict(n_jobs=1)), unit=[acc]):
                job.transitions += 1
        job.require(sorted(set(map(id, seen))) == sorted(set(map(id, given))), "a chain perturbs another model than its own", model=name, chains=n)
        job.require([id(x) for x in start] == [id(x) for x in given], "the list of starting models is modified", model=name)
        job.require([id(c.current_state) for c in inv.chains] == [id(x) for x in given], "a chain holds another model than its own",
                    model=name, chains=n)


def forward(job):
    """forward functions of targets, in every form; predictions are kept as returned"""
    import bayesbay as bb
    L = bb.likelihood
    for kind, form, listed in itertools.product(kinds(None), ARGFORMS, (True, False)):
        _, mkform, ea, ek = form
        problems = []
        ret = {}

        def rec(which):
            def record(a, k):
                if len(a) != 1 + len(ea) or any(not same_args(x, y) for x, y in zip(a[1:], ea)) or set(k) != set(ek) \
                        or any(not same_args(k[x], ek[x]) for x in ek):
                    problems.append(f"a forward function is called with {a[1:]!r}, {k!r} instead of {ea!r}, {ek!r}")
                st = a[0]
                if not isinstance(st, bb.State):
                    problems.append("a forward function is not called with a model")
                out = np.array([0.1, 0.2]) * (1 + which) * float(np.sum(st["s"]["p"]))
                ret[(which, tuple(st["s"]["p"].tolist()))] = out
                return out
            return record
        f0, f1 = mkform(kinds(rec(0))[kind]), mkform(kinds(rec(1))[kind])
        if isinstance(f0, list):
            f0, f1 = tuple(f0), tuple(f1)
        t = [L.Target("a", np.array([.3, .1]), covariance_mat_inv=1.0), L.Target("b", np.array([.2, .4]), covariance_mat_inv=2.0)]

        def one():
            ret.clear()
            del problems[:]
            ll = L.LogLikelihood(t, [f0, f1]) if listed else L.LogLikelihood(t[0], f0)
            with rng.paused():
                par = bb.parameterization.Parameterization(bb.parameterization.ParameterSpace(
                    "s", n_dimensions=2, parameters=[bb.prior.UniformPrior("p", -0.5, 3.5, 1.0)]))
                inv = bb.BayesianInversion(par, ll, n_chains=1)
            inv.chains[0].current_state = bb.State({"s": bb.ParameterSpaceState(2, {"p": np.array([1.0, 2.0])})})
            inv.chains[0].advance_chain(2, save_every=1, verbose=False)
            return inv
        for inv, w, trace in rng.explore(one, radius=1, unit=[history.ACCEPT, history.REJECT], menu=lambda k, p: p[:1] + p[-1:]):
            job.traces += 1
            job.states += 1
            job.transitions += 2
            ctx = dict(form=form[0], callable=kind, listed=listed)
            if problems:
                job.violation(problems[0], trace=trace, **ctx)
                return
            saved = inv.chains[0].saved_states
            for i, name in enumerate("ab"[:2 if listed else 1]):
                key = f"{name}.dpred"
                for p, d in zip(saved["s.p"][-1:], saved[key][-1:] if key in saved else []):
                    want = ret.get((i, tuple(p.tolist())))
                    if want is None or deep(d) != deep(want):
                        job.violation("the prediction that is saved is not what the forward function returned", saved=d, returned=want, **ctx)
                        return
    # functions that are refused: no arguments of these kinds
    for bad in (3.0, "args", None):
        try:
            L.LogLikelihood([L.Target("a", np.zeros(2), covariance_mat_inv=1.0)], [(lambda s: s, bad)])
        except Exception:
            continue
        job.violation("additional arguments that are neither a sequence nor a dictionary are accepted", arguments=bad)


def processes(job):
    """runs in worker processes: values of all picklable types come back"""
    import bayesbay as bb
    for name in [n for n in MODELS if n not in ("object", "set")]:
        mk = MODELS[name]
        start = [mk(0), mk(100)]

        def step(m, k, extra=None):
            # (the model is rebuilt from its number)
            return mk(k), 0.0
        with rng.paused():
            inv = bb.BaseBayesianInversion(start, [(step, [7], {"extra": ARR})], log_like_func=(lambda m, c: c, [0.5]), n_chains=2)
            inv.run(n_iterations=3, save_every=1, verbose=False, parallel_config=dict(n_jobs=2))
        job.states += 1
        job.traces += 2
        job.transitions += 6
        want = [mk(7)] * 3
        for ch in inv.chains:
            got = ch.saved_states
            if isinstance(mk(0), dict):
                ok = set(got) == set(mk(7)) and all(deep(list(got[k])) == deep([w[k] for w in want]) for k in got)
            elif name in ("plain", "bytes"):
                ok = list(got) == want
            else:
                ok = deep(list(got)) == deep(want)
            job.require(ok and type(ch.current_state) is type(mk(7)), "models that come back from worker processes are others", model=name,
                        saved=got)


def mutable(job):
    """changing the list or dictionary of arguments a function was given with, in another function, does not leak"""
    import bayesbay as bb
    for args, kwargs in itertools.product(([1, 2], [], (3,)), ({}, {"k": 1})):
        calls = []
        f = lambda m, *a, **k: (calls.append((a, dict(k))), (m + 1, 0.0))[1]
        g = lambda m, *a, **k: (calls.append((a, dict(k))), (m + 1, 0.0))[1]
        before = deep([args, kwargs])
        inv = bb.BaseBayesianInversion([0], [(f, args, kwargs), (g, [9])], log_like_ratio_func=lambda a, b: 0.0, n_chains=1)
        for _ in rng.explore(lambda: inv.chains[0].advance_chain(2, verbose=False), unit=[0.5]):
            job.traces += 1
            job.states += 1
            job.transitions += 2
            for c in calls:
                if c not in ((tuple(args), kwargs), ((9,), {})):
                    job.violation("a function gets other arguments than it was given with", arguments=c, expected=(args, kwargs))
                    return
            calls.clear()
        job.require(deep([args, kwargs]) == before, "the arguments given with a function are modified", arguments=(args, kwargs))
