"""Reference semantics of parameter spaces, priors and moves, independent of the code under test.

A model is represented canonically: a space is the sorted tuple of its dimensions (a multiset), and
a dimension is (site, values), where values holds, per declared parameter, a number or the canonical
form of a nested space.  Sites are numbers (1D), pairs (2D) or None (plain parameter spaces).
"""
import itertools
import math
from collections import Counter
from dataclasses import dataclass, field
from typing import Any, List, Optional

import numpy as np

from . import rng

LOG2PI = math.log(2 * math.pi)
TIE = 1e-9


class Tie(Exception):
    """a nearest neighbour is not unique: the reference does not say which one counts"""


class Malformed(Exception):
    """a state of the code under test is not a model of the declared spaces"""


def log_normal(x, sd):
    return -0.5 * LOG2PI - math.log(sd) - 0.5 * (x / sd) ** 2


# ------------------------------------------------------------------ priors
@dataclass
class Pr:
    """prior of a parameter; hyperparameters are numbers or, when nodes is given, arrays over the nodes

    kind: U (a=vmin, b=vmax), G (a=mean, b=std), L (a=mean, b=scale),
          C custom (a=centre, b=width), CP custom whose density depends on the position
    """
    name: str
    kind: str
    a: Any
    b: Any
    std: Any = 1.0
    bstd: Any = None
    nodes: Any = None

    def at(self, h, pos):
        if np.isscalar(h):
            return float(h)
        nodes = np.asarray(self.nodes, float)
        if nodes.ndim == 1:
            return float(np.interp(pos, nodes, np.asarray(h, float)))
        # the 2D hyperparameters used here are affine: fit the plane
        planes = self.__dict__.setdefault("_planes", {})
        if id(h) not in planes:
            A = np.column_stack([np.ones(len(nodes)), nodes])
            planes[id(h)] = [float(x) for x in np.linalg.lstsq(A, np.asarray(h, float), rcond=None)[0]]
        p = planes[id(h)]
        return p[0] + p[1] * pos[0] + p[2] * pos[1]

    def perturb_std(self, pos):
        return self.at(self.std, pos)

    def birth_std(self, pos):
        return self.at(self.bstd if self.bstd is not None else self.std, pos)

    def custom(self, v, pos):
        c, w = self.a, self.b
        if self.kind == "CP":
            c = c + (0.5 * pos if np.isscalar(pos) else 0.3 * pos[0] - 0.2 * pos[1])
        d = abs(v - c) / w
        return -math.inf if d > 3 else -d ** 1.5 - math.log(2.5 * w)

    def logpdf(self, v, pos=None):
        if self.kind[0] == "C":
            return self.custom(v, pos)
        a, b = self.at(self.a, pos), self.at(self.b, pos)
        if self.kind == "U":
            return -math.log(b - a) if a <= v <= b else -math.inf
        if self.kind == "G":
            return log_normal(v - a, b)
        return -abs(v - a) / b - math.log(2 * b)

    def points(self, pos, radius):
        """lattice points where the explorer puts draws from this prior"""
        if self.kind[0] == "C":
            return self.custom_points(pos)
        a, b = self.at(self.a, pos), self.at(self.b, pos)
        if self.kind == "U":
            lo, hi = a, b
        else:
            lo, hi = a - radius, a + radius
        return [float(i) for i in range(math.ceil(lo - 1e-12), math.floor(hi + 1e-12) + 1)]

    def custom_points(self, pos):
        return [float(v) for v in range(-3, 8) if self.custom(float(v), pos) > -math.inf]

    def build(self):
        import bayesbay as bb
        kw = dict(name=self.name, perturb_std=self.std, position=self.nodes)
        if self.bstd is not None:
            kw["perturb_std_birth"] = self.bstd
        if self.kind == "U":
            return bb.prior.UniformPrior(vmin=self.a, vmax=self.b, **kw)
        if self.kind == "G":
            return bb.prior.GaussianPrior(mean=self.a, std=self.b, **kw)
        if self.kind == "L":
            return bb.prior.LaplacePrior(mean=self.a, scale=self.b, **kw)
        if self.kind == "C":
            lp = lambda value: self.custom(float(value), None)
            return bb.prior.CustomPrior(log_prior=lp, sample=self._custom_sample, **kw)
        lp = lambda value, position: self.custom(float(value), _site(position))
        return bb.prior.CustomPrior(log_prior=lp, sample=self._custom_sample, **kw)

    def _custom_sample(self, position=None):
        pos = None if self.kind == "C" else _site(position)
        pts = self.custom_points(pos)
        w = [math.exp(self.custom(p, pos)) for p in pts]
        if rng.Ctl.active:
            return rng.Ctl.explorer.pick("custom", list(zip(pts, w)))
        import random
        return random.choices(pts, w)[0]


def _site(p):
    if p is None:
        return None
    p = np.asarray(p, float)
    return float(p.reshape(-1)[0]) if p.size == 1 else tuple(float(x) for x in p)


# ------------------------------------------------------------------ spaces
@dataclass
class Sp:
    """kind: ps (ParameterSpace), v1 (Voronoi1D), v2 (Voronoi2D)"""
    name: str
    kind: str
    kmin: int
    kmax: int
    params: List[Any] = field(default_factory=list)
    lo: Any = 0.5
    hi: Any = 4.5
    polygon: Any = None
    std: float = 1.0
    birth: str = "neighbour"
    kdtree: bool = False
    fixed: bool = False
    init_range: float = 0.3
    std_given: bool = True

    @property
    def priors(self):
        return [p for p in self.params if isinstance(p, Pr)]

    @property
    def nested(self):
        return [p for p in self.params if isinstance(p, Sp)]

    def spaces(self):
        yield self
        for s in self.nested:
            yield from s.spaces()

    # --- the domain
    def log_site_density(self):
        if self.kind == "ps":
            return 0.0
        if self.kind == "v1":
            return -math.log(self.hi - self.lo)
        if self.polygon is not None:
            return -math.log(_area(self.polygon))
        return -math.log((self.hi[0] - self.lo[0]) * (self.hi[1] - self.lo[1]))

    def in_domain(self, site):
        if self.kind == "ps":
            return site is None
        if self.kind == "v1":
            return self.lo <= site <= self.hi
        if self.polygon is not None:
            return _inside(self.polygon, site)
        return all(l <= x <= h for l, x, h in zip(self.lo, site, self.hi))

    def lattice(self):
        if self.kind == "ps":
            return [None]
        if self.kind == "v1":
            return [float(x) for x in range(math.ceil(self.lo), math.floor(self.hi) + 1)]
        if self.polygon is not None:
            xs, ys = zip(*self.polygon)
            lo, hi = (min(xs), min(ys)), (max(xs), max(ys))
        else:
            lo, hi = self.lo, self.hi
        g = itertools.product(*[[float(x) for x in range(math.ceil(l), math.floor(h) + 1)] for l, h in zip(lo, hi)])
        return [s for s in g if self.in_domain(s)]

    def nearest(self, dims, site):
        """index of the dimension whose cell contains site"""
        d = [_dist(x[0], site) for x in dims]
        i = min(range(len(d)), key=d.__getitem__)
        if sum(1 for x in d if x <= d[i] + TIE) > 1:
            raise Tie()
        return i

    # --- building the library's objects
    def build(self, made=None):
        import bayesbay as bb
        made = {} if made is None else made
        if id(self) in made:
            return made[id(self)]
        params = [p.build(made) if isinstance(p, Sp) else p.build() for p in self.params]
        kw = dict(name=self.name, parameters=params)
        if self.fixed:
            kw["n_dimensions"] = self.kmin
        else:
            kw.update(n_dimensions_min=self.kmin, n_dimensions_max=self.kmax, n_dimensions_init_range=self.init_range)
        if self.kind == "ps":
            made[id(self)] = bb.parameterization.ParameterSpace(**kw)
            return made[id(self)]
        kw.update(birth_from=self.birth, perturb_std=self.std)
        if self.kind == "v1":
            made[id(self)] = bb.discretization.Voronoi1D(vmin=self.lo, vmax=self.hi, **kw)
        else:
            if self.polygon is not None:
                kw["polygon"] = np.array(self.polygon, float)
            else:
                kw.update(vmin=self.lo if np.isscalar(self.lo) else np.array(self.lo),
                          vmax=self.hi if np.isscalar(self.hi) else np.array(self.hi))
            made[id(self)] = bb.discretization.Voronoi2D(compute_kdtree=self.kdtree, **kw)
        return made[id(self)]

    # --- states
    def to_state(self, dims):
        """library state with its dimensions in the given order (1D sites: increasing)"""
        from bayesbay import ParameterSpaceState
        dims = list(dims)
        if self.kind == "v1":
            dims.sort(key=lambda d: d[0])
        vals = {}
        if self.kind != "ps":
            vals["discretization"] = np.array([d[0] for d in dims], float)
        for j, p in enumerate(self.params):
            col = [d[1][j] for d in dims]
            vals[p.name] = np.array(col, float) if isinstance(p, Pr) else [p.to_state(c) for c in col]
        st = ParameterSpaceState(len(dims), vals)
        if self.kind == "v2" and self.kdtree:
            import scipy.spatial
            st.save_to_cache("kdtree", scipy.spatial.KDTree(vals["discretization"].copy()))
        return st

    def from_state(self, st):
        """canonical form; raises Malformed when the state is not well formed"""
        return tuple(sorted(self.dims_of(st)))

    def dims_of(self, st):
        k = st.n_dimensions
        if not isinstance(k, (int, np.integer)) or not self.kmin <= k <= self.kmax:
            raise Malformed(f"{self.name}: {k} dimensions, allowed {self.kmin}..{self.kmax}")
        want = {p.name for p in self.params} | ({"discretization"} if self.kind != "ps" else set())
        have = set(st.param_values)
        if have != want:
            raise Malformed(f"{self.name}: parameters {sorted(have)}, declared {sorted(want)}")
        sites = [None] * k
        if self.kind != "ps":
            arr = np.asarray(st["discretization"], float)
            shape = (k,) if self.kind == "v1" else (k, 2)
            if arr.shape != shape:
                raise Malformed(f"{self.name}: sites of shape {arr.shape}, expected {shape}")
            sites = [float(x) for x in arr] if self.kind == "v1" else [tuple(map(float, x)) for x in arr]
            if self.kind == "v1" and sites != sorted(sites):
                raise Malformed(f"{self.name}: sites not sorted: {sites}")
            for s in sites:
                if not self.in_domain(s):
                    raise Malformed(f"{self.name}: site {s} outside the domain")
        cols = []
        for p in self.params:
            v = st[p.name]
            if isinstance(p, Pr):
                if not isinstance(v, np.ndarray) or v.shape != (k,):
                    raise Malformed(f"{self.name}.{p.name}: {type(v).__name__} {np.shape(v)}, expected ({k},)")
                cols.append([float(x) for x in v])
            else:
                if not isinstance(v, list) or len(v) != k:
                    raise Malformed(f"{self.name}.{p.name}: {type(v).__name__}, expected {k} nested states")
                cols.append([p.from_state(x) for x in v])
        return [(sites[i], tuple(c[i] for c in cols)) for i in range(k)]

    # --- densities (log), with respect to the multiset of dimensions
    def log_k(self):
        return 0.0 if self.fixed else -math.log(self.kmax - self.kmin + 1)

    def log_dim(self, d):
        """log density of one dimension: its site and everything attached to it"""
        site, vals = d
        if not self.in_domain(site):
            return -math.inf
        r = self.log_site_density()
        for p, v in zip(self.params, vals):
            r += p.logpdf(v, site) if isinstance(p, Pr) else p.logpi(v)
        return r

    def logpi(self, dims):
        if not self.kmin <= len(dims) <= self.kmax:
            return -math.inf
        r = self.log_k() + log_orderings(dims)
        for d in dims:
            r += self.log_dim(d)
        return r

    def log_newborn(self, dims, d):
        """log density of the newborn dimension d when it joins dims"""
        site, vals = d
        if self.kind == "ps" or self.birth == "prior":
            return self.log_dim(d)
        nn = dims[self.nearest(dims, site)]
        r = self.log_site_density()
        for p, v, w in zip(self.params, vals, nn[1]):
            if isinstance(p, Pr):
                r += log_normal(v - w, p.birth_std(site))
            elif p.kind == "ps":
                r += p.logpi(v)
            else:
                r += p.log_from_neighbour(w, v)
        return r

    def log_from_neighbour(self, old, new):
        """log density of a nested discretization created from the neighbouring cell's"""
        r = self.log_k() + log_orderings(new)
        for site, vals in new:
            nn = old[self.nearest(old, site)]
            r += self.log_site_density()
            for p, v, w in zip(self.params, vals, nn[1]):
                if isinstance(p, Pr):
                    r += log_normal(v - w, p.birth_std(site))
                elif p.kind == "ps":
                    r += p.logpi(v)
                else:
                    r += p.log_from_neighbour(w, v)
        return r


def log_orderings(dims):
    r = math.lgamma(len(dims) + 1)
    for m in Counter(dims).values():
        r -= math.lgamma(m + 1)
    return r


def _dist(a, b):
    return abs(a - b) if np.isscalar(a) else math.hypot(a[0] - b[0], a[1] - b[1])


def _area(poly):
    s = 0.0
    for (x0, y0), (x1, y1) in zip(poly, list(poly[1:]) + [poly[0]]):
        s += x0 * y1 - x1 * y0
    return abs(s) / 2


def _inside(poly, site):
    x, y = site
    inside = False
    for (x0, y0), (x1, y1) in zip(poly, list(poly[1:]) + [poly[0]]):
        if (y0 > y) != (y1 > y) and x < (x1 - x0) * (y - y0) / (y1 - y0) + x0:
            inside = not inside
    return inside


# ------------------------------------------------------------------ noise
@dataclass
class Noise:
    """a target with unknown noise; lattice spacing of the explorer: 1 for std, 1/16 for correlation"""
    name: str
    lo: float = 0.5
    hi: float = 4.5
    std: float = 1.0
    correlated: bool = False
    clo: float = 1 / 32
    chi: float = 31 / 32
    cstd: float = 0.125
    n: int = 2
    dobs: Any = None

    def build(self):
        import bayesbay as bb
        kw = dict(name=self.name, dobs=np.zeros(self.n) if self.dobs is None else np.array(self.dobs, float),
                  std_min=self.lo, std_max=self.hi, std_perturb_std=self.std)
        if self.correlated:
            kw.update(noise_is_correlated=True, correlation_min=self.clo, correlation_max=self.chi,
                      correlation_perturb_std=self.cstd)
        return bb.likelihood.Target(**kw)

    def to_state(self, c):
        from bayesbay import DataNoiseState
        return DataNoiseState(std=c[0], correlation=c[1])

    def from_state(self, st):
        if not self.lo <= st.std <= self.hi:
            raise Malformed(f"{self.name}: noise std {st.std} outside {self.lo}..{self.hi}")
        if self.correlated:
            if st.correlation is None or not self.clo <= st.correlation <= self.chi:
                raise Malformed(f"{self.name}: noise correlation {st.correlation}")
        elif st.correlation is not None:
            raise Malformed(f"{self.name}: unexpected noise correlation")
        return (float(st.std), None if st.correlation is None else float(st.correlation))

    def logpi(self, c):
        r = -math.log(self.hi - self.lo) if self.lo <= c[0] <= self.hi else -math.inf
        if self.correlated:
            r += -math.log(self.chi - self.clo) if self.clo <= c[1] <= self.chi else -math.inf
        return r


# ------------------------------------------------------------------ whole models
class Model:
    """top-level spaces and noise; canonical form: one entry per space, then one per noise"""

    def __init__(self, spaces, noises=()):
        self.spaces, self.noises = list(spaces), list(noises)

    def to_state(self, c, orders=None):
        from bayesbay import State
        vals = {}
        for i, (s, x) in enumerate(zip(self.spaces, c)):
            vals[s.name] = s.to_state(x if orders is None else orders[i])
        for n, x in zip(self.noises, c[len(self.spaces):]):
            vals[n.name] = n.to_state(x)
        return State(vals)

    def from_state(self, state):
        want = {s.name for s in self.spaces} | {n.name for n in self.noises}
        if set(state.param_values) != want:
            raise Malformed(f"state holds {sorted(state.param_values)}, expected {sorted(want)}")
        return tuple([s.from_state(state[s.name]) for s in self.spaces]
                     + [n.from_state(state[n.name]) for n in self.noises])

    def logpi(self, c):
        r = 0.0
        for s, x in zip(self.spaces + self.noises, c):
            r += s.logpi(x)
            if r == -math.inf:
                return r
        return r

    # --- number of instances of every space name
    def instances(self, c):
        n = Counter()

        def rec(sp, dims):
            n[sp.name] += 1
            for j, p in enumerate(sp.params):
                if isinstance(p, Sp):
                    for d in dims:
                        rec(p, d[1][j])
        for s, x in zip(self.spaces, c):
            rec(s, x)
        return n

    # --- the move that leads from c to c2: (label, log q) or None
    def classify(self, c, c2):
        diff = [i for i, (a, b) in enumerate(zip(c, c2)) if a != b]
        ns = len(self.spaces)
        if not diff:
            return None
        if all(i >= ns for i in diff):
            return self._noise(c, c2)
        if len(diff) != 1:
            return None
        i = diff[0]
        return self._space(self.spaces[i], c[i], c2[i], self.instances(c))

    def _noise(self, c, c2):
        ns, r = len(self.spaces), 0.0
        for i, n in enumerate(self.noises):
            a, b = c[ns + i], c2[ns + i]
            r += log_normal(b[0] - a[0], n.std)
            if n.correlated:
                r += log_normal(b[1] - a[1], n.cstd)
        return "noise", r

    def _space(self, sp, old, new, inst):
        a, b = Counter(old), Counter(new)
        gone, come = list((a - b).elements()), list((b - a).elements())
        k = len(old)
        if not gone and len(come) == 1:
            return "birth:" + sp.name, sp.log_newborn(old, come[0]) - math.log(inst[sp.name])
        if len(gone) == 1 and not come:
            return "death:" + sp.name, math.log(a[gone[0]] / k) - math.log(inst[sp.name])
        if len(gone) != 1 or len(come) != 1:
            return None
        (s0, v0), (s1, v1) = gone[0], come[0]
        m = math.log(a[gone[0]])
        if s0 != s1:
            if v0 != v1:
                return None
            d = (s1 - s0,) if np.isscalar(s0) else tuple(y - x for x, y in zip(s0, s1))
            return "site:" + sp.name, m - math.log(k) + sum(log_normal(x, sp.std) for x in d) - math.log(inst[sp.name])
        ch = [j for j in range(len(v0)) if v0[j] != v1[j]]
        if all(isinstance(sp.params[j], Pr) for j in ch):
            r = m - math.log(k) - math.log(inst[sp.name])
            for p, x, y in zip(sp.params, v0, v1):
                if isinstance(p, Pr):
                    r += log_normal(y - x, p.perturb_std(s0))
            return "value:" + sp.name, r
        if len(ch) != 1:
            return None
        j = ch[0]
        sub = self._space(sp.params[j], v0[j], v1[j], inst)
        return sub and (sub[0], sub[1] + m)

    def log_ratio(self, c, c2):
        """log(prior ratio x proposal ratio) of the move c -> c2, and its label and log q"""
        f = self.classify(c, c2)
        if f is None:
            return None
        p2 = self.logpi(c2)
        if p2 == -math.inf:
            return f[0], f[1], -math.inf
        g = self.classify(c2, c)
        return f[0], f[1], p2 - self.logpi(c) + g[1] - f[1]

    # --- lattice neighbours every implementation has to reach (nested newborns left out)
    def expected(self, c, radius):
        for i, s in enumerate(self.spaces):
            for x in self._expected(s, c[i], radius):
                yield c[:i] + (x,) + c[i + 1:]
        if self.noises:
            ns = len(self.spaces)
            steps = range(-radius, radius + 1)
            opts = []
            for n, x in zip(self.noises, c[ns:]):
                o = []
                for d in steps:
                    for e in (steps if n.correlated else [0]):
                        y = (x[0] + d * (1 if n.std >= 0.3 else rng.FINE),
                             x[1] + e * (1 if n.cstd >= 0.3 else rng.FINE) if n.correlated else None)
                        if n.logpi(y) > -math.inf:
                            o.append(y)
                opts.append(o)
            for t in itertools.product(*opts):
                yield c[:ns] + t

    def _expected(self, sp, dims, radius):
        steps = [float(x) for x in range(-radius, radius + 1)]
        k = len(dims)
        out = set()
        for i, (site, vals) in enumerate(dims):
            rest = dims[:i] + dims[i + 1:]
            # values
            opts = [[v + d for d in steps if p.logpdf(v + d, site) > -math.inf] if isinstance(p, Pr) else [v]
                    for p, v in zip(sp.params, vals)]
            for t in itertools.product(*opts):
                out.add(tuple(sorted(rest + ((site, t),))))
            # site
            if sp.kind != "ps":
                for d in itertools.product(steps, repeat=1 if sp.kind == "v1" else 2):
                    s2 = site + d[0] if sp.kind == "v1" else (site[0] + d[0], site[1] + d[1])
                    if sp.in_domain(s2) and s2 not in [x[0] for x in rest] and sp.log_dim((s2, vals)) > -math.inf:
                        out.add(tuple(sorted(rest + ((s2, vals),))))
            # death
            if k > sp.kmin:
                out.add(rest)
            # nested
            for j, p in enumerate(sp.params):
                if isinstance(p, Sp):
                    for x in self._expected(p, vals[j], radius):
                        out.add(tuple(sorted(rest + ((site, vals[:j] + (x,) + vals[j + 1:]),))))
        # birth
        if k < sp.kmax and not sp.nested:
            for s in sp.lattice():
                if s is not None and s in [x[0] for x in dims]:
                    continue
                if sp.kind == "ps" or sp.birth == "prior":
                    opts = [p.points(s, radius) for p in sp.params]
                else:
                    try:
                        nn = dims[sp.nearest(dims, s)]
                    except Tie:
                        continue
                    opts = [[v + d for d in steps if p.logpdf(v + d, s) > -math.inf]
                            for p, v in zip(sp.params, nn[1])]
                for t in itertools.product(*opts):
                    out.add(tuple(sorted(dims + ((s, t),))))
        out.discard(dims)
        return out


def duplicates(sp, dims):
    """does the space hold two dimensions at the same site, at any level?"""
    if sp.kind != "ps" and len({d[0] for d in dims}) < len(dims):
        return True
    return any(duplicates(p, d[1][j]) for d in dims for j, p in enumerate(sp.params) if isinstance(p, Sp))
