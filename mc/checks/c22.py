"""C22: sampling and initialization draw exactly from the prior."""
import itertools
import math
from fractions import Fraction
import numpy as np
from mc import rng
from mc.spec import Sp, Pr, Noise, Model, duplicates, Malformed
from .common import prior, half, N1, L_SHAPE

BOUNDS = ("every random draw of sample, initialize and sample_discretization on a lattice (all of it, or its ends and middle for larger models), for every "
          "prior (constant, position-dependent, mixed, custom), one to three positions, parameter spaces and discretizations of up to two or "
          "three dimensions and two parameters, nested ones of up to three levels, polygons, noise parameters and whole inversions of one or two chains; "
          "all numbers of dimensions for a grid of bounds and initialization ranges")
ASSUMPTIONS = ["random draws are enumerated on a lattice and weighted by their density", "hyperparameters that depend on a 2D position are affine"]


def jobs(tier):
    out = [("priors", "priors"), ("positions1", "positions", 1), ("positions2", "positions", 2)]
    out += [(f"spaces-{n}", "spaces", n) for n in SPACES]
    out += [(f"nested-{n}", "spaces", n) for n in NESTED]
    out += [("range-" + k, "init_range", k) for k in ("ps", "v1", "v2", "nested")]
    out += [("custom", "custom"), ("noise", "noise"), ("inversion", "inversion"), ("lists", "lists")]
    return out


def ends(kind, pts):
    """the ends and the middle"""
    return pts if len(pts) <= 3 else [pts[0], pts[len(pts) // 2], pts[-1]]


def two(kind, pts):
    return pts if len(pts) <= 2 else [pts[len(pts) // 2], pts[-1]]


def distribution(job, fn, canon, logp, ctx, radius=2, menu=None, rtol=1e-6, max_draws=80, support=None):
    """fn's outcomes have the densities exp(logp(c)), c = canon(outcome); support: outcomes that have to occur"""
    got, trunc = {}, 0.0
    for res, w, trace in rng.explore(fn, radius=radius, menu=menu, max_draws=max_draws, unit=None):
        job.transitions += 1
        job.traces += 1
        if res is rng.Truncated:
            trunc += w
            continue
        try:
            c = canon(res)
        except Malformed as e:
            job.violation(f"a draw is malformed: {e}", trace=trace, **ctx)
            return got
        if c is None:
            continue
        got[c] = got.get(c, 0.0) + w
    if trunc > 0.02:
        job.violation("redrawing does not come to an end", mass=trunc, **ctx)
    job.states += len(got)
    for c, w in got.items():
        lp = logp(c)
        if abs(w - math.exp(lp)) > rtol * math.exp(lp):
            job.violation("a value is not drawn with its prior density", value=c, density=w, expected=math.exp(lp), **ctx)
            return got
    for c in support or ():
        if c not in got:
            job.violation("a value in the support of the prior is never drawn", value=c, **ctx)
            return got
    if not got:
        job.violation("nothing is drawn", **ctx)
    job.sample(outcomes=len(got), mass=sum(got.values()), **ctx)
    return got


# ------------------------------------------------------------------ single priors
def number(v):
    if np.ndim(v) or not np.isscalar(v) and not isinstance(v, np.ndarray):
        raise Malformed(f"{v!r} is no number")
    return float(v)


def vector(n):
    def f(v):
        if not isinstance(v, np.ndarray) or v.shape != (n,) or v.dtype.kind != "f":
            raise Malformed(f"{v!r}: expected {n} numbers in an array")
        return tuple(float(x) for x in v)
    return f


def all_priors():
    for k in "UGLC":
        for d in (0, 1, 2):
            yield prior("p", k, d), d
    for k in "UGL":
        yield half("p", k), 1


POS = {0: [None], 1: [1.3, 2.0, 4.2, 5.75, 7.9, -2.0, 12.0], 2: [(1.0, 2.0), (0.0, 0.0), (4.5, 3.25), (8.0, 8.5)]}


def priors(job):
    for p, d in all_priors():
        with rng.paused():
            q = p.build()
        radius = 4 if job.quick else 8
        for pos in POS[d]:
            arg = np.array(pos) if d == 2 else pos
            pts = [x for x in p.points(pos, radius) if p.logpdf(x, pos) > -math.inf]
            for form in ((lambda: q.sample(arg)), (lambda: q.sample(position=arg)), *([lambda: q.sample()] if d == 0 else [])):
                distribution(job, form, number, lambda v: p.logpdf(v, pos), dict(prior=p.kind, position=pos), radius=radius, support=pts)
        # constant priors ignore the position
        if d == 0:
            for pos in (1.0, np.array([1.0, 2.0])):
                distribution(job, lambda: q.sample(pos), number, lambda v: p.logpdf(v), dict(prior=p.kind, position=pos), radius=radius)


def positions(job, nd):
    """initialize at one to three positions: independent draws, each from the density at its position"""
    for p, d in all_priors():
        if d not in (0, nd):
            continue
        with rng.paused():
            q = p.build()
        ps = POS[nd]
        for n in (1, 2, 3):
            sets = [ps[:n], ps[::-1][:n], (ps[2:] + ps[:2])[:n]] + ([[ps[1]] * n] if n > 1 else [])
            for xs in sets:
                arr = np.array(xs, float)
                pts = itertools.product(*[[v for v in p.points(x, 1) if p.logpdf(v, x) > -math.inf] for x in xs]) if n < 3 and p.kind[0] != "C" else ()
                distribution(job, lambda: q.initialize(arr.copy()), vector(n), lambda v: sum(p.logpdf(a, x) for a, x in zip(v, xs)),
                             dict(prior=p.kind, positions=xs), radius=1 if n > 1 else 3, support=pts if n > 1 else None)
        if d == 0:
            # in a parameter space: positions have no meaning
            for n in (1, 2, 3):
                distribution(job, lambda: q.initialize(np.empty(n)), vector(n), lambda v: sum(p.logpdf(a) for a in v), dict(prior=p.kind, n=n), radius=1)


# ------------------------------------------------------------------ spaces
SPACES = {
    "ps": lambda: Sp("s", "ps", 1, 3, [prior("p", "G"), prior("q", "U")], init_range=.5),
    "ps-wide": lambda: Sp("s", "ps", 1, 4, [prior("p", "L")], init_range=.7),
    "ps-custom": lambda: Sp("s", "ps", 2, 3, [prior("p", "C"), Pr("u", "U", 0.5, 2.5)], init_range=1.0),
    "ps-fixed": lambda: Sp("s", "ps", 2, 2, [prior("p", "G"), prior("q", "L")], fixed=True),
    "v1": lambda: Sp("s", "v1", 1, 3, [prior("p", "G", 1), prior("q", "U")], lo=0.5, hi=5.5, init_range=.5),
    "v1-uniform": lambda: Sp("s", "v1", 1, 2, [prior("p", "U", 1)], lo=0.5, hi=5.5, init_range=1),
    "v1-laplace": lambda: Sp("s", "v1", 2, 3, [prior("p", "L", 1)], lo=-1.5, hi=1.5, init_range=.3),
    "v1-custom": lambda: Sp("s", "v1", 1, 2, [prior("p", "C", 1)], lo=0.5, hi=3.5, init_range=1),
    "v1-half": lambda: Sp("s", "v1", 1, 2, [half("p", "G"), half("q", "U")], lo=0.5, hi=3.5, init_range=1),
    "v1-prior": lambda: Sp("s", "v1", 1, 2, [prior("p", "G", 1)], lo=0.5, hi=3.5, init_range=1, birth="prior"),
    "v1-fixed": lambda: Sp("s", "v1", 2, 2, [prior("p", "G", 1)], lo=0.5, hi=5.5, fixed=True),
    "v1-empty": lambda: Sp("s", "v1", 1, 3, [], lo=0.5, hi=4.5, init_range=.99),
    "v2": lambda: Sp("s", "v2", 1, 2, [prior("p", "G", 2), prior("q", "U")], lo=(0.5, 0.5), hi=(2.5, 3.5), init_range=1),
    "v2-scalar": lambda: Sp("s", "v2", 1, 2, [prior("p", "L", 2)], lo=(0.5, 0.5), hi=(2.5, 2.5), init_range=1, kdtree=True),
    "v2-uniform": lambda: Sp("s", "v2", 1, 2, [prior("p", "U", 2)], lo=(-0.5, 0.5), hi=(1.5, 2.5), init_range=1),
    "v2-custom": lambda: Sp("s", "v2", 2, 2, [prior("p", "C", 2)], lo=(0.5, 0.5), hi=(2.5, 1.5), fixed=True, kdtree=True),
    "poly": lambda: Sp("s", "v2", 1, 2, [prior("p", "G", 2)], polygon=L_SHAPE, init_range=1, kdtree=True),
    "poly-notch": lambda: Sp("s", "v2", 1, 1, [], polygon=((0.5, 0.5), (4.5, 0.5), (4.5, 3.5), (1.5, 3.5), (1.5, 2.5), (1.5, 1.5), (0.5, 1.5)), fixed=True),
}


def _in(kind, name="in"):
    if kind == "ps":
        return Sp(name, "ps", 1, 2, [Pr("q", "U", 0.5, 2.5)], init_range=1)
    if kind == "v1":
        return Sp(name, "v1", 1, 2, [Pr("q", "U", 0.5, 2.5)], lo=0.5, hi=2.5, init_range=1)
    return Sp(name, "v2", 1, 2, [Pr("q", "U", 0.5, 2.5)], lo=(0.5, 0.5), hi=(2.5, 1.5), init_range=1, kdtree=True)


def _nest(o, i, deep=False):
    def f():
        inner = _in(i)
        if deep:
            inner = {"ps": Sp("mid", "ps", 1, 1, [_in(i)], fixed=True), "v1": Sp("mid", "v1", 1, 1, [_in(i)], lo=0.5, hi=1.5, fixed=True)}[deep]
        kw = dict(init_range=1)
        if o == "ps":
            return Sp("out", "ps", 1, 2, [inner], **kw)
        if o == "v1":
            return Sp("out", "v1", 1, 2, [prior("p", "G", 1), inner], lo=0.5, hi=2.5, **kw)
        return Sp("out", "v2", 1, 2, [inner], lo=(0.5, 0.5), hi=(2.5, 1.5), kdtree=True, **kw)
    return f


NESTED = {f"{o}-{i}": _nest(o, i) for o, i in itertools.product(("ps", "v1", "v2"), repeat=2)}
NESTED.update({f"{o}-{d}-{i}": _nest(o, i, d) for o, d, i in (("ps", "ps", "ps"), ("ps", "v1", "ps"), ("v1", "ps", "v1"), ("ps", "v1", "v2"))})


def range_logpi(sp, init):
    """log density of the drawn model; in initialization the number of dimensions is limited at every level"""
    def rec(sp, dims):
        if init:
            top = [init_max(sp)] if not sp.fixed else [sp.kmax]
            n = top[0]
        else:
            n = sp.kmax
        if not sp.kmin <= len(dims) <= n:
            return -math.inf
        from mc.spec import log_orderings
        r = (0.0 if sp.fixed else -math.log(n - sp.kmin + 1)) + log_orderings(dims)
        for site, vals in dims:
            r += sp.log_site_density()
            for p, v in zip(sp.params, vals):
                r += p.logpdf(v, site) if isinstance(p, Pr) else rec(p, v)
        return r
    return lambda dims: rec(sp, dims)


def init_max(sp):
    return math.floor((sp.kmax - sp.kmin) * Fraction(str(sp.init_range)) + sp.kmin)


def kd_ok(job, sp, st, ctx):
    if sp.kind == "v2" and sp.kdtree:
        t = st.load_from_cache("kdtree") if st.saved_in_cache("kdtree") else None
        if t is None or not np.array_equal(np.asarray(t.data), st["discretization"]):
            job.violation("a drawn discretization has not its kd-tree", **ctx)
    for p in sp.params:
        if isinstance(p, Sp):
            for x in st[p.name]:
                kd_ok(job, p, x, ctx)


def spaces(job, name):
    with rng.paused():
        sp = (SPACES.get(name) or NESTED[name])()
        space = sp.build()
        if name == "v2-scalar":
            space = Sp("s", "v2", 1, 2, sp.params, lo=0.5, hi=2.5, init_range=1, kdtree=True).build()
    poly = sp.polygon is not None
    nested = bool(sp.nested)
    menu = two if nested else (ends if len(sp.params) > 1 or sp.kmax > 2 or poly else None)
    if nested and "v2" in name:
        menu = lambda kind, pts: pts[-1:] if kind != "uniform" or len(pts) > 2 else pts
    if poly:
        menu = None
    kw = dict(menu=menu, radius=1, rtol=1e-3 if poly else 1e-6, max_draws=14 if poly else 120)
    def canon(st):
        c = sp.from_state(st)
        kd_ok(job, sp, st, dict(space=name))
        return None if duplicates(sp, c) else c
    for what, f, init in (("sample", lambda: space.sample(), False), ("initialize", lambda: space.initialize(), True)):
        if nested and what == "sample" and sp.kind != "ps":
            f = lambda: space.sample()
        got = distribution(job, f, canon, range_logpi(sp, init), dict(space=name, call=what), **kw)
        n = {len(c) for c in got}
        top = (init_max(sp) if init else sp.kmax) if not sp.fixed else sp.kmax
        if n != set(range(sp.kmin, top + 1)):
            job.violation("not all numbers of dimensions are drawn", space=name, call=what, numbers=sorted(n), expected=[sp.kmin, top])
        # every lattice site can be drawn
        if sp.kind != "ps" and menu is None:
            seen = {d[0] for c in got for d in c}
            if seen != set(sp.lattice()):
                job.violation("not all sites are drawn", space=name, call=what, sites=sorted(seen), expected=sp.lattice())
    if sp.kind != "ps":
        bare = Sp("s", sp.kind, sp.kmin, sp.kmax, [], lo=sp.lo, hi=sp.hi, polygon=sp.polygon, fixed=sp.fixed)
        def canon_d(st):
            if set(st.param_values) != {"discretization"}:
                raise Malformed("a discretization holds more than sites")
            return None if duplicates(bare, bare.from_state(st)) else bare.from_state(st)
        distribution(job, lambda: space.sample_discretization(), canon_d, range_logpi(bare, False), dict(space=name, call="sample_discretization"),
                     radius=1, rtol=1e-3 if poly else 1e-6, max_draws=14 if poly else 120, menu=None if sp.kmax < 4 else ends)


# ------------------------------------------------------------------ numbers of dimensions
def init_range(job, kind):
    import bayesbay as bb
    grid = [(1, 1), (1, 2), (1, 5), (2, 4), (3, 10), (1, 11), (5, 20), (2, 32)]
    fr = [0, 0.1, 0.25, 0.3, 0.5, 0.75, 0.9, 1]
    if not job.quick:
        grid += [(a, b) for a in (1, 4) for b in range(4, 60, 5)]
        fr += [0.05, 0.2, 0.34, 0.6, 0.66, 0.99]
    first = lambda k, pts: pts[:1]
    for (a, b), f in itertools.product(grid, fr):
        with rng.paused():
            U = [bb.prior.UniformPrior("p", 0.5, 1.5, 1.0)]
            kw = dict(n_dimensions_min=a, n_dimensions_max=b, n_dimensions_init_range=f, parameters=U)
            if kind in ("ps", "nested"):
                sp = bb.parameterization.ParameterSpace("s", **kw)
            elif kind == "v1":
                sp = bb.discretization.Voronoi1D("s", vmin=0.5, vmax=1.5, perturb_std=1.0, **kw)
            else:
                sp = bb.discretization.Voronoi2D("s", vmin=0.5, vmax=1.5, perturb_std=1.0, **kw)
            if kind == "nested":
                out = bb.discretization.Voronoi1D("o", vmin=0.5, vmax=1.5, perturb_std=1.0, n_dimensions=1, parameters=[sp])
        if kind == "nested":
            calls = [("initialize", lambda: out.initialize()["s"][0].n_dimensions), ("sample", lambda: out.sample()["s"][0].n_dimensions)]
        else:
            calls = [("initialize", lambda: sp.initialize().n_dimensions), ("sample", lambda: sp.sample().n_dimensions),
                     ("initialize-list", lambda: sp.initialize(np.zeros(1))[0].n_dimensions)]
            if kind != "ps":
                calls.append(("sample_discretization", lambda: sp.sample_discretization().n_dimensions))
        exact = math.floor((b - a) * Fraction(str(f)) + a)
        for what, fn in calls:
            got = {}
            for n, w, _ in rng.explore(fn, menu=first, max_draws=400):
                job.transitions += 1
                got[int(n)] = got.get(int(n), 0) + w
            job.states += 1
            job.traces += len(got)
            if what.startswith("init"):
                wants = [range(a, exact + 1)]
                near = (b - a) * f + a
                if abs(near - round(near)) < 1e-9:
                    wants += [range(a, round(near)), range(a, round(near) + 1)]     # a rounding error either way
            else:
                wants = [range(a, b + 1)]
            if not any(set(got) == set(w) and all(abs(x - 1 / len(w)) < 1e-9 for x in got.values()) for w in wants if len(w)):
                job.violation("the number of dimensions is not drawn uniformly over its range", kind=kind, call=what, bounds=(a, b), init_range=f,
                              drawn=got, expected=list(wants[0]))


# ------------------------------------------------------------------ custom initializers
def custom(job):
    import bayesbay as bb
    for p, d in all_priors():
        for kind in ("ps", "v1", "v2", "call"):
            if d != {"ps": 0, "v1": d if d < 2 else 9, "v2": d if d != 1 else 9, "call": d}[kind]:
                continue
            seen = []

            def init(prior_, positions=None):
                seen.append((prior_, None if positions is None else np.array(positions)))
                return 10.0 + 0.5 * np.arange(len(positions))
            with rng.paused():
                q = p.build()
                q.set_custom_initialize(init)
                o = bb.prior.GaussianPrior("other", 0.0, 1.0, 1.0)
                kw = dict(parameters=[q, o])
                if kind == "ps":
                    sp = bb.parameterization.ParameterSpace("s", n_dimensions=3, **kw)
                elif kind == "v1":
                    sp = bb.discretization.Voronoi1D("s", vmin=1.5, vmax=3.5, perturb_std=1.0, n_dimensions=3, **kw)
                elif kind == "v2":
                    sp = bb.discretization.Voronoi2D("s", vmin=0.5, vmax=2.5, perturb_std=1.0, n_dimensions=3, **kw)
            if kind == "call":
                q.initialize(np.array([1.0, 2.0]))
                if len(seen) != 1 or seen[0][0] is not q or not np.array_equal(seen[0][1], [1.0, 2.0]):
                    job.violation("a custom initializer is not called with the prior and the positions", prior=p.kind)
                job.states += 1
                continue
            del seen[:]
            for st, w, trace in rng.explore(lambda: sp.initialize(), radius=1, menu=two if kind == "v2" else None):
                job.transitions += 1
                job.traces += 1
                pr, pos = seen[-1]
                if pr is not q or len(seen) != 1:
                    job.violation("a custom initializer is not called once with its prior", prior=p.kind, kind=kind, calls=len(seen))
                    return
                del seen[:]
                if kind == "ps":
                    ok = len(pos) == 3
                else:
                    ok = np.array_equal(pos, st["discretization"])
                if not ok or not np.array_equal(st["p"], [10.0, 10.5, 11.0]):
                    job.violation("a custom initializer is not given the positions, or its values are not used", prior=p.kind, kind=kind, given=pos,
                                  sites=st.param_values.get("discretization"), values=st["p"])
                    return
            job.states += 1
            # sampling is not affected
            if kind == "ps":
                for st, w, trace in rng.explore(lambda: sp.sample(), radius=0, menu=two):
                    if seen or any(v >= 10 for v in st["p"]):
                        job.violation("a custom initializer is used in sampling", prior=p.kind)
                        return
            # nor are other priors of the same kind
            with rng.paused():
                r = p.build()
            x = {"ps": np.empty(1), "v1": np.array([2.0]), "v2": np.array([[1.0, 1.0]])}[kind]
            for v, w, trace in rng.explore(lambda: r.initialize(x), radius=1):
                if seen or v[0] >= 10:
                    job.violation("a custom initializer of one prior is used by another", prior=p.kind)
                    return
    # discretizations have custom initializers, too
    for kind in ("v1", "v2"):
        with rng.paused():
            sp = SPACES[kind]().build()
            fixed = SPACES[kind]()
            x = fixed.to_state(((1.0, (0.5, 1.0)),) if kind == "v1" else (((1.0, 1.0), (0.5, 1.0)),))
            args = []
            sp.set_custom_initialize(lambda *a: (args.append(a), x)[1])
            par = bb.parameterization.Parameterization([sp])
        for st, w, _ in rng.explore(lambda: par.initialize()):
            job.transitions += 1
            job.states += 1
            if len(args) != 1 or args[0][0] is not sp or fixed.from_state(st["s"]) != fixed.from_state(x):
                job.violation("the custom initializer of a discretization is not used", kind=kind)
            del args[:]
    for bad in (3, None, "f"):
        try:
            with rng.paused():
                prior("p", "G").build().set_custom_initialize(bad)
        except Exception:
            pass
        else:
            job.violation("a custom initializer that cannot be called is not refused", given=bad)


def lists(job):
    """initialization at positions gives one independent draw per position"""
    for name in ("ps", "v1-uniform", "v2-uniform"):
        with rng.paused():
            sp = dict(ps=Sp("s", "ps", 1, 2, [Pr("p", "U", 0.5, 2.5)], init_range=1), **{
                "v1-uniform": Sp("s", "v1", 1, 2, [Pr("p", "U", 0.5, 2.5)], lo=0.5, hi=2.5, init_range=1),
                "v2-uniform": Sp("s", "v2", 1, 1, [Pr("p", "U", 0.5, 2.5)], lo=(0.5, 0.5), hi=(2.5, 1.5), fixed=True)})[name]
            space = sp.build()
        for n in (1, 2):
            for pos in (np.arange(float(n)), np.zeros((n, 2))):
                def canon(l):
                    if not isinstance(l, list) or len(l) != n:
                        raise Malformed(f"{type(l).__name__}, expected {n} states")
                    if len({id(x) for x in l}) != n or len({id(x["p"]) for x in l}) != n:
                        raise Malformed("the states are one object")
                    c = tuple(sp.from_state(x) for x in l)
                    return None if any(duplicates(sp, x) for x in c) else c
                f = range_logpi(sp, True)
                distribution(job, lambda: space.initialize(pos), canon, lambda c: sum(f(x) for x in c), dict(space=name, positions=n))


def noise(job):
    import bayesbay as bb
    for n in (Noise("d", 0.5, 3.5), Noise("d", -0.0, 2.0), Noise("d", 0.5, 3.5, correlated=True, clo=0.25, chi=0.5), Noise("d", 1.0, 9.0, correlated=True, clo=0.0, chi=1.0)):
        with rng.paused():
            t = n.build()

        def f():
            st = bb.State({})
            t.initialize(st)
            return st

        def canon(st):
            if set(st.param_values) != {"d"}:
                raise Malformed(f"holds {set(st.param_values)}")
            return n.from_state(st["d"])
        pts = range(math.ceil(n.lo), math.floor(n.hi) + 1)
        cs = [None]
        if n.correlated:
            h = 1.0 if n.chi - n.clo >= 0.98 else rng.FINE
            cs = [i * h for i in range(math.ceil(n.clo / h), math.floor(n.chi / h) + 1)]
        distribution(job, f, canon, n.logpi, dict(target=repr(n)), support=[(float(a), c) for a in pts for c in cs])
    # targets of known noise have nothing to draw
    with rng.paused():
        t = bb.likelihood.Target("k", np.zeros(3), covariance_mat_inv=1.0)
    for st, w, trace in rng.explore(lambda: (lambda s: (t.initialize(s), s)[1])(bb.State({}))):
        if trace or st.param_values:
            job.violation("a target of known noise is given noise parameters")
    job.states += 1


def inversion(job):
    """the chains of an inversion start from independent draws"""
    import bayesbay as bb
    for case in range(4):
        sps = [[Sp("s", "ps", 1, 2, [Pr("p", "U", 0.5, 2.5)], init_range=1)],
               [Sp("s", "v1", 1, 1, [Pr("p", "U", 0.5, 2.5)], lo=0.5, hi=2.5, fixed=True)],
               [Sp("s", "ps", 1, 1, [Pr("p", "U", 0.5, 2.5)], fixed=True), Sp("t", "v1", 1, 1, [Pr("p", "U", -0.5, 1.5)], lo=0.5, hi=2.5, fixed=True)],
               [Sp("s", "ps", 1, 1, [Pr("p", "U", 0.5, 2.5)], fixed=True)]][case]
        ns = [[], [Noise("d1", 0.5, 2.5)], [], [Noise("d1", 0.5, 2.5), Noise("d2", 0.5, 2.5)]][case]
        m = Model(sps, ns)
        for nch in (1, 2):
            def f():
                par = bb.parameterization.Parameterization([s.build() for s in sps])
                ts = [n.build() for n in ns] + [bb.likelihood.Target("k", np.zeros(2), covariance_mat_inv=1.0)]
                inv = bb.BayesianInversion(par, bb.likelihood.LogLikelihood(ts, [lambda s: np.zeros(2)] * len(ts)), n_chains=nch)
                return [ch.current_state for ch in inv.chains]

            def canon(l):
                if len(l) != nch:
                    raise Malformed("wrong number of chains")
                if len({id(x["s"]["p"]) for x in l}) != nch:
                    raise Malformed("chains share a model")
                return tuple(m.from_state(x) for x in l)

            def logp(cs):
                r = 0.0
                for c in cs:
                    for s, x in zip(sps, c):
                        r += range_logpi(s, True)(x)
                    for n, x in zip(ns, c[len(sps):]):
                        r += n.logpi(x)
                return r
            got = distribution(job, f, canon, logp, dict(case=case, chains=nch))
            # these supports are complete on the lattice: nothing is missing
            if abs(sum(got.values()) - 1) > 1e-9:
                job.violation("the starting models do not have the total probability one", case=case, chains=nch, mass=sum(got.values()))
