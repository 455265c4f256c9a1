"""Exhaustive exploration of bounded histories of real chains.

A world is built anew for every history from a deterministic starting model (building draws come from
the original generators and do not branch).  Then `depth` iterations run; every draw of every iteration
is enumerated over a reduced menu, and every proposal is both accepted (a tiny acceptance variate) and
rejected (one just below 1) where its acceptance probability allows.  Observers run after every iteration.
"""
import math

import numpy as np

from . import rng
from .checks.common import prior, L_SHAPE
from .spec import Model, Noise, Pr, Sp

ACCEPT, REJECT = 1e-9, 1 - 1e-12


def ends(kind, pts):
    """reduced menu of continuous draws: the outermost points"""
    return pts if len(pts) <= 2 else [pts[0], pts[-1]]


def inside(kind, pts):
    """for the polygon: points all combinations of which lie inside"""
    return ends(kind, pts[:-1] if kind == "uniform" and len(pts) == 4 else pts)


def one_of(kind, pts):
    """one end, alternately"""
    return [pts[0] if len(rng.Ctl.explorer.trail) % 4 < 2 else pts[-1]] if pts else pts


def few_ints(kind, opts):
    if kind in ("int", "choice", "sample") and len(opts) > 2:
        return [opts[0], opts[-1]]
    return opts


def one_int(kind, opts):
    """all kinds of moves, but only one dimension each, alternately"""
    if kind in ("int", "choice", "sample") and len(opts) > 1:
        return [opts[-1] if len(rng.Ctl.explorer.trail) % 3 else opts[0]]
    return opts


class Current:
    world = None


def _unit(k):
    """accept and reject; impossible proposals are decided already"""
    w = Current.world
    if w is not None and w.proposals and w.proposals[-1][3] == -math.inf:
        return [(ACCEPT, 1.0)]
    return [(ACCEPT, 0.5), (REJECT, 0.5)]


def histories(job, fn, budget=None, max_depth=6, min_depth=2, *, radius=1, unit=_unit, menu=ends, int_menu=few_ints, max_draws=400):
    """fn(depth) runs one history of that many iterations

    the depth is the largest one for which the number of histories stays below about `budget`
    """
    if budget is None:
        budget = 2500 if job.quick else 150000

    def run(depth, menu, int_menu):
        Current.world = None
        ex = rng.Explorer(radius=radius, unit=unit, menu=menu, int_menu=int_menu, max_draws=max_draws)
        for res, w, trace in ex.run_all(lambda: fn(depth)):
            job.traces += 1
            if res is rng.Truncated:
                continue
            yield res, trace

    for mn in dict.fromkeys([menu, one_of]):
        b = 0
        for x in run(1, mn, int_menu):
            b += 1
            yield x
        if b ** min_depth <= 4 * budget:
            break
    depth = 1
    while depth < max_depth and b ** (depth + 1) <= budget:
        depth += 1
    depth = max(min_depth, depth)
    job.extra[f"depth_{depth}"] = job.extra.get(f"depth_{depth}", 0) + 1
    yield from run(depth, mn, int_menu)


def single(fn, pattern, salt=0, radius=1, max_draws=2000):
    """one history: acceptance variates follow the pattern (True: accept), other draws rotate through their options"""
    n = [salt]

    def nxt(k):
        n[0] += 1
        return (n[0] * 7 + n[0] // 5 + salt) % k

    def menu(kind, pts):
        return [pts[nxt(len(pts))]] if pts else pts

    def int_menu(kind, opts):
        return [opts[nxt(len(opts))]]

    def unit(k):
        return [(ACCEPT if pattern[k % len(pattern)] else REJECT, 1.0)]
    ex = rng.Explorer(radius=radius, unit=unit, menu=menu, int_menu=int_menu, max_draws=max_draws)
    for res, w, trace in ex.run_all(fn):
        return res, trace


# ------------------------------------------------------------------ saved values
def saved_form(model, st):
    """what a sample of the model has to hold, by key (without predictions and extra results)"""
    out = {}
    for sp in model.spaces:
        x = st[sp.name]
        if not sp.fixed:
            out[f"{sp.name}.n_dimensions"] = x.n_dimensions
        out.update(_params(sp, x, sp.name))
    for n in model.noises:
        out[f"{n.name}.std"] = st[n.name].std
        if n.correlated:
            out[f"{n.name}.correlation"] = st[n.name].correlation
    return {k: deep(v) for k, v in out.items()}


def _params(sp, x, prefix):
    out = {}
    if sp.kind != "ps":
        out[f"{prefix}.discretization"] = np.array(x["discretization"])
    for p in sp.params:
        key = f"{prefix}.{p.name}"
        if isinstance(p, Sp):
            out[key] = [dict({f"{key}.n_dimensions": y.n_dimensions}, **_params(p, y, key)) for y in x[p.name]]
        else:
            out[key] = np.array(x[p.name])
    return out


# ------------------------------------------------------------------ deep values
def deep(x):
    """a value-copy of a model (or part of one) that later changes of x cannot reach"""
    import bayesbay as bb
    if isinstance(x, bb.State):
        return ("State", {k: deep(v) for k, v in x.param_values.items()},
                {k: deep(getattr(x, k)) for k in x.param_values})
    if isinstance(x, bb.ParameterSpaceState):
        return ("PS", x.n_dimensions, {k: deep(v) for k, v in x.param_values.items()},
                {k: deep(getattr(x, k)) for k in x.param_values})
    if isinstance(x, bb.DataNoiseState):
        return ("N", x.std, x.correlation)
    if isinstance(x, np.ndarray):
        return ("A", x.shape, x.tolist())
    if isinstance(x, dict):
        return ("D", {k: deep(v) for k, v in x.items()})
    if isinstance(x, (list, tuple)):
        return ("L", [deep(v) for v in x])
    if isinstance(x, np.generic):
        return x.item()
    if x is None or isinstance(x, (int, float, str, bool)):
        return x
    return ("O", id(x))


def walk(sp, st, level=0):
    """all (space, state) pairs at every nesting level"""
    yield sp, st
    for p in sp.params:
        if isinstance(p, Sp):
            for x in st[p.name]:
                yield from walk(p, x, level + 1)


# ------------------------------------------------------------------ worlds
D4, D2 = [0.4, -0.2, 0.3, 0.1], [-0.3, 0.5]


def models(name):
    """(model, starting point in canonical form)"""
    if name == "ps":
        return Model([Sp("s", "ps", 1, 3, [prior("p", "G", 0, 1.2), prior("q", "U", 0, 1.5)])]), \
            (((None, (0.0, 1.0)), (None, (1.0, 2.0))),)
    if name == "psfix":
        return Model([Sp("s", "ps", 2, 2, [prior("p", "G", 0, 1.2), prior("q", "U", 0, 1.5)], fixed=True)]), \
            (((None, (0.0, 1.0)), (None, (1.0, 2.0))),)
    if name == "v1":
        return Model([Sp("s", "v1", 1, 3, [prior("p", "G", 1, 1.2, 1.5)], lo=0.5, hi=5.5, std=1.3)]), \
            (((2.0, (0.0,)), (4.0, (1.0,))),)
    if name == "v1c":
        return Model([Sp("s", "v1", 1, 3, [prior("p", "C", 1, 1.2, 1.5), prior("q", "U", 0, 1.)], lo=0.5, hi=5.5, std=1.3)]), \
            (((2.0, (0.0, 1.0)), (4.0, (1.0, 2.0))),)
    if name == "v1fix":
        return Model([Sp("s", "v1", 2, 2, [prior("p", "G", 1, 1.2, 1.5)], lo=0.5, hi=5.5, std=1.3, fixed=True)]), \
            (((2.0, (0.0,)), (4.0, (1.0,))),)
    if name == "v2":
        return Model([Sp("s", "v2", 1, 3, [prior("p", "U", 2, 1.2, 1.5)], lo=(0.5, 0.5), hi=(2.5, 3.5), kdtree=True)]), \
            ((((1.0, 1.0), (0.0,)), ((2.0, 3.0), (1.0,))),)
    if name == "poly":
        return Model([Sp("s", "v2", 1, 3, [prior("p", "U", 0, 1.2, 1.5)], polygon=L_SHAPE, kdtree=True)]), \
            ((((1.0, 1.0), (0.0,)), ((2.0, 3.0), (1.0,))),)
    if name == "ps-v2":
        inner = Sp("in", "v2", 1, 2, [prior("q", "U", 0, 1.)], lo=(0.5, 0.5), hi=(2.5, 1.5), kdtree=True)
        return Model([Sp("out", "ps", 1, 2, [inner])]), (((None, ((((1.0, 1.0), (0.0,)),),)),),)
    if name == "v1-v2":
        inner = Sp("in", "v2", 1, 2, [prior("q", "U", 0, 1.)], lo=(0.5, 0.5), hi=(2.5, 1.5), kdtree=True)
        return Model([Sp("out", "v1", 1, 2, [prior("p", "G", 0), inner], lo=0.5, hi=3.5)]), \
            (((1.0, (0.0, (((1.0, 1.0), (0.0,)),))), (3.0, (1.0, (((2.0, 1.0), (1.0,)),)))),)
    if name == "v2-v1":
        inner = Sp("in", "v1", 1, 2, [prior("q", "U", 0, 1.)], lo=0.5, hi=2.5)
        return Model([Sp("out", "v2", 1, 2, [inner], lo=(0.5, 0.5), hi=(2.5, 1.5), kdtree=True)]), \
            ((((1.0, 1.0), (((1.0, (0.0,)), (2.0, (1.0,))),)),),)
    if name == "v1-ps":
        inner = Sp("in", "ps", 1, 2, [prior("q", "U")])
        return Model([Sp("out", "v1", 1, 2, [prior("p", "G", 1, 1.2, 1.4), inner], lo=0.5, hi=3.5)]), \
            (((1.0, (0.0, ((None, (1.0,)),))), (3.0, (1.0, ((None, (0.0,)), (None, (2.0,)))))),)
    if name == "v1-v1":
        inner = Sp("in", "v1", 1, 2, [prior("q", "U", 0, 1.1, 1.3)], lo=0.5, hi=2.5)
        return Model([Sp("out", "v1", 1, 2, [inner], lo=0.5, hi=3.5)]), \
            (((1.0, (((1.0, (0.0,)),),)), (3.0, (((1.0, (1.0,)), (2.0, (0.0,))),))),)
    if name == "ps-ps-ps":
        i2 = Sp("in2", "ps", 1, 2, [prior("r", "G")])
        i1 = Sp("in1", "ps", 1, 2, [prior("q", "U"), i2])
        return Model([Sp("out", "ps", 1, 2, [i1])]), (((None, (((None, (1.0, ((None, (0.0,)),))),),)),),)
    if name == "mixed":
        return Model([Sp("a", "ps", 1, 2, [prior("x", "U")]),
                      Sp("b", "v1", 1, 2, [prior("x", "G", 1, 1.5, 1.2)], lo=0.5, hi=3.5),
                      Sp("c", "ps", 1, 1, [prior("y", "L")], fixed=True)]), \
            (((None, (1.0,)),), ((2.0, (0.0,)),), ((None, (2.0,)),))
    if name == "noise":
        return Model([Sp("s", "ps", 1, 2, [prior("p", "L", 0, 1.2)])], [Noise("d1", n=4, dobs=D4)]), \
            (((None, (1.0,)),), (2.0, None))
    if name == "noise2":
        return Model([Sp("s", "v1", 1, 2, [prior("p", "L", 0, 1.2)], lo=0.5, hi=3.5)],
                     [Noise("d1", 0.5, 3.5, n=4, dobs=D4, correlated=True, clo=0.25, chi=0.5),
                      Noise("d2", 1.0, 3.0, 1.4, n=2, dobs=D2)]), \
            (((1.0, (1.0,)),), (2.0, 0.25), (2.0, None))
    raise KeyError(name)


def features(model, c):
    a = b = 0.0

    def rec(sp, dims, w):
        nonlocal a, b
        a += 0.13 * w * len(dims)
        for i, (site, vals) in enumerate(dims):
            s = 1.0 if site is None else (site if np.isscalar(site) else site[0] + 0.37 * site[1])
            b += 0.021 * w * s * s
            for j, (p, v) in enumerate(zip(sp.params, vals)):
                if isinstance(p, Sp):
                    rec(p, v, w * (0.7 + 0.05 * s))
                else:
                    a += 0.11 * w * (j + 1) * v * (1 + 0.05 * s)
                    b += 0.05 * w * v * v
    for i, s in enumerate(model.spaces):
        rec(s, c[i], 1.0 + 0.3 * i)
    return np.array([a, b, a - b, 0.3 + 0.1 * a * b])


class World:
    """an inversion with targets on the given model and one chain (or more) at the starting point

    forward functions read the state through the public access path only (item access), store an extra
    result, and call the given probe.
    """

    def __init__(self, name, n_chains=1, save_dpred=True, extra=True, probe=None, fail=None, known=True, start=None,
                 wrap=None, scale=1.0, fail2=None, user=(), likelihood=None):
        import bayesbay as bb
        with rng.paused():
            self.model, self.start = models(name)
            if start is not None:
                self.start = start
            m = self.model
            L = bb.likelihood
            self.calls = 0
            self.proposals = []
            Current.world = self
            self.extra = extra

            def f1(s):
                self.calls += 1
                if fail is not None:
                    fail(self, s)
                c = m.from_state(s)
                if probe is not None:
                    probe(self, s, c)
                if extra:
                    s.save_to_extra_storage("extra", self.ref_extra(c))
                return self.ref_dpred("d1", c) * 1.0

            def f2(s):
                if fail2 is not None:
                    fail2(self, s)
                return self.ref_dpred("d2", m.from_state(s)) * 1.0
            self.targets = ["d1", "d2"]
            if m.noises:
                ts = [n.build() for n in m.noises]
                fs = [f1, f2][:len(ts)]
                self.targets = [n.name for n in m.noises]
                if known and len(ts) == 1:
                    ts.append(L.Target("k", np.array(D2), covariance_mat_inv=0.6 * scale))
                    fs.append(lambda s: self.ref_dpred("k", m.from_state(s)) * 1.0)
                    self.targets.append("k")
            else:
                ts = [L.Target("d1", np.array(D4), covariance_mat_inv=np.diag([1., .5, .25, 1.]) * scale),
                      L.Target("d2", np.array(D2), covariance_mat_inv=0.7 * scale)]
                fs = [f1, f2]
            self.inv = bb.BayesianInversion(bb.parameterization.Parameterization([s.build() for s in m.spaces]),
                                            L.LogLikelihood(ts, fs) if likelihood is None else likelihood(self),
                                            n_chains=n_chains, save_dpred=save_dpred)
            self.chains = self.inv.chains
            for ch in self.chains:
                ch.current_state = m.to_state(self.start)
            self.chain = self.chains[0]
            if wrap is not False:
                wrap = wrap or (lambda w, f, s: f(s))
                funcs = [self._wrap(f, wrap) for f in self.inv.perturbation_funcs]
                if user:
                    # user functions take part as they are, through the public interface
                    self.inv.set_perturbation_funcs(funcs + [f(self) for f in user],
                                                    list(self.inv.perturbation_weights) + [1] * len(user))
                else:
                    for ch in self.chains:
                        ch.set_perturbation_funcs(funcs, list(self.inv.perturbation_weights))

    def _wrap(self, f, wrap):
        def g(state):
            new, r = wrap(self, f, state)
            self.proposals.append((f.__name__, state, new, r))
            return new, r
        g.__name__ = f.__name__
        return g

    def ref_dpred(self, target, c):
        f = features(self.model, c)
        return f if target == "d1" else f[:2] * (0.8 if target == "d2" else 0.5)

    def ref_extra(self, c):
        return float(features(self.model, c) @ np.array([1., 2., 3., 4.]))

    def advance(self, n=1, **kw):
        kw.setdefault("save_every", 1)
        self.chain.advance_chain(n, verbose=False, **kw)
        return self.chain.current_state
