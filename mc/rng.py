"""Systematic exploration of every random draw made by the code under test.

`install()` replaces the functions of the `random` and `numpy.random` modules by
dispatchers.  It has to run before bayesbay is imported.  While no exploration is active the
original functions run.  While one is active, every draw becomes a choice point:

* discrete draws branch over all their outcomes, with their exact probabilities;
* continuous draws branch over the lattice points inside their support (at most `radius` steps away
  from their location for unbounded ones), weighted by their density.  The spacing is one, so that
  densities are also the masses of unit cells, and 1/16 for narrow distributions;
* unit variates (random.random() and the like) are delegated to `unit`, which is either a menu or
  a callback: this is how acceptance decisions are controlled.

`explore(fn)` runs `fn` once per path of the choice tree (depth-first, by re-execution) and yields
(result, weight, trace).  Nothing is sampled.
"""
import itertools
import math
import time
import random as _random
import numpy as _np


FINE = 1.0 / 16     # lattice spacing for narrow distributions


class Truncated(BaseException):
    """the path made more draws than allowed (an endless or very long redrawing loop)"""


class Unsupported(Exception):
    """a draw the explorer has no menu for"""


class Ctl:
    active = False      # an exploration (or scripted run) is active
    explorer = None
    started = 0.0       # of the present execution


class Explorer:
    def __init__(self, radius=6, unit=None, max_draws=200, menu=None, int_menu=None):
        self.radius = radius
        self.unit = unit            # list of values, or callable(index_of_unit_draw) -> list of (value, weight)
        self.max_draws = max_draws
        self.menu = menu            # optional callable(kind, points) -> points: restricts continuous menus
        self.int_menu = int_menu    # optional callable(kind, options) -> options for discrete draws
        self.reset([])

    def reset(self, prefix):
        self.prefix = prefix
        self.trail = []             # (chosen, number of options)
        self.trace = []             # (kind, value)
        self.weight = 1.0
        self.n_unit = 0

    # --- one choice point
    def pick(self, kind, options):
        """options: list of (value, weight)"""
        i = len(self.trail)
        if i >= self.max_draws:
            raise Truncated()
        if not options:
            raise Unsupported(f"empty menu for {kind}")
        again = False
        if i < len(self.prefix):
            c, n, again = self.prefix[i]
            if not again and n is not None and n != len(options):
                raise RuntimeError("replay diverged: uncontrolled nondeterminism")
        else:
            c = 0
        self.trail.append((c, len(options), again or self.converting))
        # (a draw that is about to be transformed, see _Draw, may have fewer outcomes than in the end)
        v, w = options[c if c < len(options) or not again else 0]
        self.before = self.weight
        self.weight *= w
        self.trace.append((kind, v))
        return v

    converting = False
    me = property(lambda self: self)

    def convert(self, at, draw, *args):
        """the draw made last becomes another one (or None if it is no longer the last)"""
        if not Ctl.active or Ctl.explorer.me is not self or at != len(self.trail) or not self.trail:
            return None
        self.trail.pop()
        self.trace.pop()
        self.weight = self.before
        n, self.converting = self.n_unit, True
        try:
            return draw(*args)
        finally:
            self.converting = False

    def run_all(self, fn):
        prefix = []
        while True:
            self.reset(prefix)
            Ctl.explorer, Ctl.active, Ctl.started = self, True, time.time()
            try:
                res = fn()
            except Truncated:
                res = Truncated
            finally:
                Ctl.active = False
            yield res, self.weight, list(self.trace)
            t = self.trail
            while t and t[-1][0] + 1 >= t[-1][1]:
                t.pop()
            if not t:
                return
            prefix = t[:-1] + [(t[-1][0] + 1, t[-1][1], t[-1][2])]

    # --- draws
    def d_discrete(self, kind, values, probs):
        opts = [(v, p) for v, p in zip(values, probs) if p > 0]
        if self.int_menu is not None:
            opts = self.int_menu(kind, opts)
        return self.pick(kind, opts)

    def d_unit(self):
        k = self.n_unit
        self.n_unit += 1
        if callable(self.unit):
            u = self.pick("unit", self.unit(k))
        else:
            menu = self.unit or [(j + 0.5) / 4 for j in range(4)]
            u = self.pick("unit", [(u, 1.0 / len(menu)) for u in menu])
        return _Draw(u, self, "unit", 1.0)

    def _points(self, kind, lo, hi, h=1.0):
        pts = range(math.ceil(lo / h - 1e-12), math.floor(hi / h + 1e-12) + 1)
        pts = [p * h for p in pts]
        if self.menu is not None:
            pts = self.menu(kind, pts)
        return pts

    def d_uniform(self, a, b):
        a, b = float(a), float(b)
        if a == b:
            return a
        lo, hi = min(a, b), max(a, b)
        pts = self._points("uniform", lo, hi, 1.0 if hi - lo >= 0.98 else FINE)
        if not pts:
            return a + (b - a) * float(self.d_unit())
        return self.pick("uniform", [(p, 1.0 / (hi - lo)) for p in pts])

    def d_normal(self, mu, sd):
        v = self._normal(mu, sd)
        return _Draw(v, self, "normal", 1.0) if mu == 0 and sd == 1 else v

    def _normal(self, mu, sd):
        mu, sd = float(mu), float(sd)
        if sd == 0:
            return mu
        h = 1.0 if sd >= 0.3 else FINE
        pts = self._points("normal", mu - self.radius * h, mu + self.radius * h, h)
        c = 1.0 / (sd * math.sqrt(2 * math.pi))
        return self.pick("normal", [(p, c * math.exp(-0.5 * ((p - mu) / sd) ** 2)) for p in pts])

    def d_laplace(self, mu, b):
        mu, b = float(mu), float(b)
        h = 1.0 if b >= 0.3 else FINE
        pts = self._points("laplace", mu - self.radius * h, mu + self.radius * h, h)
        return self.pick("laplace", [(p, math.exp(-abs(p - mu) / b) / (2 * b)) for p in pts])


class _Draw(float):
    """a unit variate or a standard normal deviate that turns into a draw from U(a, a + s), N(m, s) or a random
    integer when it is transformed into one, so that it does not matter how these draws are written"""
    __array_priority__ = 1e6

    def __new__(cls, v, ex, kind, scale):
        self = float.__new__(cls, v)
        self.ex, self.at, self.kind, self.scale = ex, len(ex.trail), kind, scale
        return self

    def _convert(self, *args):
        n = self.ex.n_unit
        r = self.ex.convert(self.at, *args)
        if r is not None and self.kind == "unit":
            self.ex.n_unit = n - (self.scale == 1.0)
        return r

    def __mul__(self, s):
        if isinstance(s, (int, float, _np.number)) and s > 0 and s != 1:
            s = float(s)
            if self.kind == "unit":
                r = self._convert(self.ex.d_uniform, 0.0, self.scale * s)
            else:
                r = self._convert(self.ex._normal, 0.0, self.scale * s)
            if r is not None:
                return _Draw(r, self.ex, self.kind, self.scale * s)
        return float(self) * s

    __rmul__ = __mul__

    def __add__(self, a):
        if isinstance(a, (int, float, _np.number)) and self.scale != 1:
            if self.kind == "unit":
                r = self._convert(self.ex.d_uniform, float(a), float(a) + self.scale)
            else:
                r = self._convert(self.ex._normal, float(a), self.scale)
            if r is not None:
                return r
        return float(self) + a

    __radd__ = __add__

    def __rsub__(self, a):
        if self.kind == "unit" and self.scale == 1 and isinstance(a, (int, float)) and a == 1:
            return float(self)          # 1 - u is such a variate as well
        return a - float(self)

    def _integer(self):
        n = self.scale
        if self.kind == "unit" and n != 1 and n == int(n):
            n = int(n)
            r = self._convert(self.ex.d_discrete, "int", range(n), [1.0 / n] * n)
            if r is not None:
                return r
        return None

    def __trunc__(self):
        r = self._integer()
        return math.trunc(float(self)) if r is None else r

    def __floor__(self):
        r = self._integer()
        return math.floor(float(self)) if r is None else r

    __int__ = __trunc__

    def __reduce__(self):
        return float, (float(self),)

    def __deepcopy__(self, memo):
        return float(self)

    __copy__ = lambda self: float(self)


class paused:
    """within it the draws are made by the original functions, from a fixed seed"""

    def __enter__(self):
        self.was = Ctl.active
        Ctl.active = False
        _random.seed(20)
        _np.random.seed(20)

    def __exit__(self, *a):
        Ctl.active = self.was


def explore(fn, **kw):
    return Explorer(**kw).run_all(fn)


# ------------------------------------------------------------------ dispatchers
_orig = {}


def _E():
    return Ctl.explorer


def _seq(x):
    return list(x)


# random module --------------------------------------------------------------
def _r_random():
    return _E().d_unit()


def _r_uniform(a, b):
    if isinstance(a, _np.ndarray) or isinstance(b, _np.ndarray):
        r = _np_elementwise(_E().d_uniform, (a, b), None)
        return r
    return _E().d_uniform(a, b)


def _r_normalvariate(mu=0.0, sigma=1.0):
    if isinstance(mu, _np.ndarray) or isinstance(sigma, _np.ndarray):
        # random.normalvariate draws one deviate z and returns mu + z * sigma
        a, s = _np.asarray(mu, float), _np.asarray(sigma, float)
        if max(a.size, s.size) != 1:
            raise Unsupported("normalvariate with arrays")
        v = _E().d_normal(a.reshape(-1)[0], s.reshape(-1)[0])
        return _np.full(_np.broadcast(a, s).shape, v)
    return _E().d_normal(mu, sigma)


def _r_randint(a, b):
    n = b - a + 1
    if n < 1:
        raise ValueError("empty range in randint")
    return _E().d_discrete("int", range(a, b + 1), [1.0 / n] * n)


def _r_randrange(start, stop=None, step=1):
    r = range(start) if stop is None else range(start, stop, step)
    if len(r) == 0:
        raise ValueError("empty range in randrange")
    return _E().d_discrete("int", r, [1.0 / len(r)] * len(r))


def _r_choice(seq):
    if len(seq) == 0:
        raise IndexError("Cannot choose from an empty sequence")
    i = _E().d_discrete("choice", range(len(seq)), [1.0 / len(seq)] * len(seq))
    return seq[i]


def _r_choices(population, weights=None, *, cum_weights=None, k=1):
    pop = list(population)
    if cum_weights is not None:
        cw = list(cum_weights)
        weights = [b - a for a, b in zip([0] + cw[:-1], cw)]
    if weights is None:
        weights = [1] * len(pop)
    weights = [float(w) for w in weights]
    if len(weights) != len(pop):
        raise ValueError("The number of weights does not match the population")
    tot = sum(weights)
    if tot <= 0:
        raise ValueError("Total of weights must be greater than zero")
    out = []
    for _ in range(k):
        i = _E().d_discrete("choices", range(len(pop)), [w / tot for w in weights])
        out.append(pop[i])
    return out


def _r_sample(population, k, *, counts=None):
    if counts is not None:
        raise Unsupported("sample with counts")
    pop = list(population)
    if k > len(pop):
        raise ValueError("Sample larger than population")
    out = []
    for _ in range(k):
        i = _E().d_discrete("sample", range(len(pop)), [1.0 / len(pop)] * len(pop))
        out.append(pop.pop(i))
    return out


def _r_shuffle(x):
    x[:] = _r_sample(list(x), len(x))


def _r_getrandbits(k):
    n = 2 ** k
    if n > 64:
        raise Unsupported("getrandbits")
    return _E().d_discrete("bits", range(n), [1.0 / n] * n)


def _r_unsupported(name):
    def f(*a, **k):
        raise Unsupported(f"random.{name}")
    return f


def _r_expovariate(lambd=1.0):
    return -math.log(float(_E().d_unit())) / lambd


_RANDOM = dict(
    expovariate=_r_expovariate,
    random=_r_random, uniform=_r_uniform, normalvariate=_r_normalvariate, gauss=_r_normalvariate,
    randint=_r_randint, randrange=_r_randrange, choice=_r_choice, choices=_r_choices,
    sample=_r_sample, shuffle=_r_shuffle, getrandbits=_r_getrandbits,
)
for _n in ("triangular", "betavariate", "gammavariate", "lognormvariate",
           "vonmisesvariate", "paretovariate", "weibullvariate", "randbytes", "binomialvariate"):
    _RANDOM[_n] = _r_unsupported(_n)


# numpy.random -----------------------------------------------------------------
def _np_elementwise(draw, args, size):
    arrs = [_np.asarray(a, dtype=float) for a in args]
    shape = _np.broadcast(*arrs).shape if arrs else ()
    if size is not None:
        size = (int(size),) if _np.ndim(size) == 0 else tuple(int(s) for s in size)
        full = size
        _np.broadcast_shapes(shape, full)
        if _np.broadcast_shapes(shape, full) != full:
            raise ValueError("size does not match the broadcast shape of the parameters")
    else:
        full = shape
    bs = [_np.broadcast_to(a, full) for a in arrs]
    if full == ():
        return draw(*[b.item() for b in bs])
    out = _np.empty(full)
    for idx in _np.ndindex(*full):
        out[idx] = draw(*[b[idx] for b in bs])
    return out


def _n_uniform(low=0.0, high=1.0, size=None):
    return _np_elementwise(lambda a, b: _E().d_uniform(a, b), (low, high), size)


def _n_normal(loc=0.0, scale=1.0, size=None):
    return _np_elementwise(lambda a, b: _E().d_normal(a, b), (loc, scale), size)


def _n_laplace(loc=0.0, scale=1.0, size=None):
    return _np_elementwise(lambda a, b: _E().d_laplace(a, b), (loc, scale), size)


def _n_random(size=None):
    if size is None:
        return _E().d_unit()
    return _np_elementwise(lambda: _E().d_unit(), (), size)


def _n_rand(*shape):
    return _n_random(shape or None)


def _n_randn(*shape):
    return _n_normal(0.0, 1.0, shape or None)


def _n_standard_normal(size=None):
    return _n_normal(0.0, 1.0, size)


def _n_randint(low, high=None, size=None, dtype=int):
    if high is None:
        low, high = 0, low
    lo, hi = int(low), int(high)
    if hi <= lo:
        raise ValueError("low >= high")
    one = lambda: _E().d_discrete("int", range(lo, hi), [1.0 / (hi - lo)] * (hi - lo))
    if size is None:
        return one()
    return _np_elementwise(one, (), size).astype(int)


def _n_integers(low, high=None, size=None, dtype=int, endpoint=False):
    if high is None:
        low, high = 0, low
    return _n_randint(low, int(high) + (1 if endpoint else 0), size)


def _n_choice(a, size=None, replace=True, p=None, axis=0, shuffle=True):
    if isinstance(a, (int, _np.integer)):
        pop = list(range(int(a)))
    else:
        pop = list(a)
    if not pop:
        raise ValueError("a must be non-empty")
    probs = [1.0 / len(pop)] * len(pop) if p is None else [float(x) for x in p]
    n = 1 if size is None else int(_np.prod(size))
    idx, items, ps = [], list(range(len(pop))), list(probs)
    if not replace and n > len(pop):
        raise ValueError("Cannot take a larger sample than population when replace is False")
    for _ in range(n):
        tot = sum(ps)
        j = _E().d_discrete("choice", range(len(items)), [q / tot for q in ps])
        idx.append(items[j])
        if not replace:
            items.pop(j), ps.pop(j)
    out = [pop[i] for i in idx]
    if size is None:
        return out[0]
    try:
        arr = _np.array(out)
    except Exception:
        arr = None
    if arr is None or arr.ndim != 1:
        arr = _np.empty(len(out), dtype=object)
        for i, o in enumerate(out):
            arr[i] = o
    return arr


def _n_permutation(x):
    xs = list(range(x)) if isinstance(x, (int, _np.integer)) else list(x)
    return _np.array(_r_sample(xs, len(xs)))


def _n_shuffle(x):
    idx = _r_sample(list(range(len(x))), len(x))
    x[:] = x[idx] if isinstance(x, _np.ndarray) else [x[i] for i in idx]


_NUMPY = dict(
    uniform=_n_uniform, normal=_n_normal, laplace=_n_laplace, random=_n_random,
    random_sample=_n_random, ranf=_n_random, sample=_n_random, rand=_n_rand, randn=_n_randn,
    standard_normal=_n_standard_normal, randint=_n_randint, choice=_n_choice,
    permutation=_n_permutation, shuffle=_n_shuffle,
)
_NUMPY["exponential"] = lambda scale=1.0, size=None: _np_elementwise(lambda a: -a * math.log(_E().d_unit()), (scale,), size)
_NUMPY["standard_exponential"] = lambda size=None: _NUMPY["exponential"](1.0, size)
for _n in ("gamma", "beta", "multivariate_normal",
           "poisson", "binomial", "multinomial", "dirichlet", "lognormal", "triangular",
           "standard_t", "standard_cauchy", "bytes"):
    _NUMPY[_n] = _r_unsupported("np." + _n)


class _PyGen:
    """stands in for an instance of random.Random created by the code under test"""

    def __init__(self, seed=None):
        self._r = _orig["Random"](seed)

    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        f = getattr(self.__dict__["_r"], name)
        if name in _RANDOM:
            return lambda *a, **k: (_RANDOM[name] if Ctl.active else f)(*a, **k)
        return f

    def __getstate__(self):
        return self._r.getstate()

    def __setstate__(self, s):
        self._r = _orig["Random"]()
        self._r.setstate(s)


class _NpGen:
    """stands in for numpy Generators and RandomStates created by the code under test"""

    def __init__(self, make, *a, **k):
        self._r = make(*a, **k)

    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        f = getattr(self.__dict__["_r"], name)
        if name == "integers":
            return lambda *a, **k: (_n_integers if Ctl.active else f)(*a, **k)
        if name in _NUMPY:
            return lambda *a, **k: (_NUMPY[name] if Ctl.active else f)(*a, **k)
        return f

    def __getstate__(self):
        return self._r

    def __setstate__(self, s):
        self.__dict__["_r"] = s


def _dispatch(mod, name, repl):
    orig = getattr(mod, name)
    _orig[(mod.__name__, name)] = orig

    def f(*a, **k):
        if Ctl.active:
            return repl(*a, **k)
        return orig(*a, **k)

    f.__name__ = name
    setattr(mod, name, f)


_installed = False


def install(generators=True):
    global _installed
    if _installed:
        return
    _installed = True
    # imported first so that they keep the original functions
    import scipy, scipy.spatial, scipy.interpolate, joblib, shapely.geometry, tempfile, multiprocessing  # noqa
    import matplotlib.pyplot  # noqa
    _orig["Random"] = _random.Random
    for n, r in _RANDOM.items():
        if hasattr(_random, n):
            _dispatch(_random, n, r)
    for n, r in _NUMPY.items():
        if hasattr(_np.random, n):
            _dispatch(_np.random, n, r)
    if generators:
        _random.Random = _PyGen
        dr, rs = _np.random.default_rng, _np.random.RandomState
        _np.random.default_rng = lambda *a, **k: _NpGen(dr, *a, **k)
        _np.random.RandomState = lambda *a, **k: _NpGen(rs, *a, **k)


def original(mod, name):
    return _orig[(mod, name)]
