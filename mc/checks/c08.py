"""C08: every model reachable from initialization is well formed."""
import math
from mc import rng, history
from mc.spec import Malformed, Sp, Pr, Model, Noise, Tie, duplicates
from .common import prior, L_SHAPE, half

BOUNDS = ("explicit-state search: initialization with all its draws, then all draws of every move from every reached model; the "
          "closed-* searches run until no new model is reached, the others breadth first up to depth 4 (8 thorough) and a "
          "number of expanded models; boundary-touching and extreme draws included")
ASSUMPTIONS = ["continuous draws take lattice values, including the ends of their support and far outside the bounds"]

NAMES = ["ps", "psfix", "v1", "v1c", "v1fix", "v2", "poly", "ps-v2", "v1-v2", "v2-v1", "v1-ps", "v1-v1", "ps-ps-ps",
         "mixed", "noise", "noise2"]


def jobs(tier):
    return [(n, "search", n, tier) for n in NAMES] + [(f"tight-{n}", "search", f"tight-{n}", tier) for n in ("v1", "v2", "ps", "poly")] \
        + [(f"closed-{n}", "search", f"closed-{n}", tier) for n in ("ps", "v1", "v2", "v1-ps", "v1-v1", "ps-v2", "noise")]


def _model(name):
    B = lambda n, sd=1.0: Pr(n, "U", -0.5, 1.5, sd)       # lattice values 0 and 1
    if name == "closed-ps":
        return Model([Sp("s", "ps", 1, 3, [B("p"), B("q")], init_range=1.0)])
    if name == "closed-v1":
        return Model([Sp("s", "v1", 1, 3, [B("p")], lo=0.5, hi=3.5, init_range=1.0)])
    if name == "closed-v2":
        return Model([Sp("s", "v2", 1, 2, [B("p")], lo=(0.5, 0.5), hi=(2.5, 2.5), kdtree=True, init_range=1.0)])
    if name == "closed-v1-ps":
        return Model([Sp("out", "v1", 1, 2, [Sp("in", "ps", 1, 2, [B("q")], init_range=1.0)], lo=0.5, hi=2.5, init_range=1.0)])
    if name == "closed-v1-v1":
        return Model([Sp("out", "v1", 1, 2, [Sp("in", "v1", 1, 1, [B("q")], lo=0.5, hi=2.5, fixed=True)], lo=0.5, hi=2.5, init_range=1.0)])
    if name == "closed-ps-v2":
        return Model([Sp("out", "ps", 1, 2, [Sp("in", "v2", 1, 1, [B("q")], lo=(0.5, 0.5), hi=(2.5, 1.5), fixed=True, kdtree=True)], init_range=1.0)])
    if name == "closed-noise":
        return Model([Sp("s", "ps", 1, 2, [B("p")], init_range=1.0)], [Noise("d1", 0.5, 2.5, n=4, correlated=True, clo=0.25, chi=0.375)])
    if name == "tight-v1":      # domains so small that almost every proposal leaves them; kmin = 1 < kmax
        return Model([Sp("s", "v1", 1, 2, [half("p", "U"), prior("q", "U", 1, 3.0)], lo=2.0, hi=3.0, std=4.0, init_range=1.0)])
    if name == "tight-v2":
        return Model([Sp("s", "v2", 1, 2, [prior("q", "U", 2, 3.0)], lo=(1.0, 1.0), hi=(2.0, 2.0), std=4.0, kdtree=True, init_range=1.0)])
    if name == "tight-ps":
        return Model([Sp("s", "ps", 2, 3, [Pr("p", "U", 1.0, 2.0, 5.0), Pr("q", "U", -2.0, -1.0, 5.0)], init_range=1.0)])
    if name == "tight-poly":
        return Model([Sp("s", "v2", 1, 2, [prior("p", "U", 0, 3.0)], polygon=((0.5, 0.5), (3.5, 0.5), (0.5, 3.5)), std=4.0)])
    return history.models(name)[0]


def _finite(x):
    if isinstance(x, tuple):
        return all(_finite(y) for y in x)
    return x is None or math.isfinite(x)


def _bounds(sp, dims):
    """values outside a uniform prior's bounds"""
    for site, vals in dims:
        for p, v in zip(sp.params, vals):
            if isinstance(p, Sp):
                yield from _bounds(p, v)
            elif p.kind == "U":
                lo, hi = p.at(p.a, site), p.at(p.b, site)
                if not lo - 1e-9 <= v <= hi + 1e-9:
                    yield p.name, v, lo, hi


def judge(job, m, st, trace, what, src=None):
    try:
        c = m.from_state(st)
    except Malformed as e:
        job.violation(f"{what} gives a malformed model: {e}", source=src, trace=trace)
        return None
    for st_sp, st_ in zip(m.spaces, c):
        for name, v, lo, hi in _bounds(st_sp, st_):
            job.violation(f"{what} gives a value outside its uniform prior's bounds", parameter=name, value=v, lo=lo, hi=hi,
                          model=c, source=src, trace=trace)
            return None
    if not _finite(c):
        job.violation(f"{what} gives a value that is not finite", model=c, trace=trace)
        return None
    # every access path and nested state agrees in length
    for sp, s in zip(m.spaces, [st[s.name] for s in m.spaces]):
        for sub, x in history.walk(sp, s):
            for k in list(x.param_values):
                if len(getattr(x, k)) != x.n_dimensions or len(x[k]) != x.n_dimensions:
                    job.violation(f"{what} gives a model with the wrong number of values", parameter=k, source=src, trace=trace)
    return c


def search(job, name, tier):
    import bayesbay as bb
    m = _model(name)
    par = bb.parameterization.Parameterization([s.build() for s in m.spaces])
    targets = [n.build() for n in m.noises]
    like = bb.likelihood.LogLikelihood(targets, [lambda s: None] * len(targets)) if targets else None
    funcs = list(par.perturbation_funcs) + (list(like.perturbation_funcs) if like else [])

    def init():
        st = par.initialize()
        if like:
            like.initialize(st)
        return st
    big = sum(s.kind == "v2" for s in m.spaces) or any(s.nested for s in m.spaces)
    closed = name.startswith("closed-")
    limit = 10 ** 9 if closed else (120 if big else 250) if tier == "quick" else 3000
    depth = 10 ** 6 if closed else 4 if tier == "quick" else 8
    menu = history.ends if (not closed and big and tier == "quick") else None
    seen, frontier = {}, []
    mdraws = 10 if any(s.polygon for s in m.spaces) else 40
    n_init = 0
    ex = rng.Explorer(radius=2, max_draws=mdraws + 6, menu=history.ends if big and not closed else None)
    for st, w, trace in ex.run_all(init):
        if st is rng.Truncated:
            continue
        n_init += 1
        job.traces += 1
        c = judge(job, m, st, trace, "initialization")
        if c is not None and c not in seen:
            seen[c] = st
            frontier.append((c, st))
        if n_init > 40 * limit:
            break
    job.count("initial_models", len(frontier))
    # spread over numbers of dimensions
    frontier.sort(key=lambda x: repr(x[0]))
    if len(frontier) > limit // 2:
        step = len(frontier) / (limit // 2)
        frontier = [frontier[int(i * step)] for i in range(limit // 2)]
    expanded = 0
    for d in range(depth):
        nxt = []
        for c, st in frontier:
            if expanded >= limit:
                job.count("cut")
                break
            expanded += 1
            job.states += 1
            before = history.deep(st)
            for f in funcs:
                # steps of 1 as well as one far outside any bounds
                ex = rng.Explorer(radius=1, max_draws=mdraws, menu=menu)
                for res, w, trace in ex.run_all(lambda: f(st)):
                    job.transitions += 1
                    if res is rng.Truncated:
                        continue
                    new, r = res
                    if history.deep(st) != before:
                        job.violation("a move alters the model it starts from", model=c, trace=trace)
                        before = history.deep(st)
                    if r == -math.inf:
                        continue
                    if not (isinstance(r, (int, float)) or hasattr(r, "dtype")) or not math.isfinite(r):
                        job.violation("the log ratio of a possible move is not finite", model=c, trace=trace, ratio=r)
                        continue
                    job.traces += 1
                    c2 = judge(job, m, new, trace, "a move", c)
                    if c2 is None or c2 == c:
                        continue
                    if not _sharing(m, c, c2):
                        job.violation("values do not stay with their own dimension", model=c, to=c2, trace=trace)
                    if c2 not in seen:
                        seen[c2] = new
                        nxt.append((c2, new))
        # visit models with unusual numbers of dimensions first
        nxt.sort(key=lambda x: (-len(repr(x[0])), repr(x[0])))
        nxt = nxt[::2] + nxt[1::2]
        step = max(1, len(nxt) // max(1, limit // 2))
        frontier = nxt[::step]
        if expanded >= limit or not frontier:
            break
    job.count("reached_models", len(seen))
    if closed:
        job.count("searches_run_to_a_fixpoint")
        job.count("models_in_closed_searches", len(seen))
    job.sample(models=len(seen), expanded=expanded, example=next(iter(seen), None))


def _sharing(m, c, c2):
    """a move keeps all but one dimension, each with its own values (several for noise)"""
    if any(duplicates(s, x) for s, x in zip(m.spaces, c2)):
        return True
    try:
        return m.classify(c, c2) is not None
    except Tie:
        return True
