"""C06: parameter spaces nested in parameter spaces and discretizations."""
import itertools
from mc import kernel
from mc.spec import Sp, Model
from .common import prior, L_SHAPE

BOUNDS = ("two- and three-level nestings of ParameterSpace, Voronoi1D and Voronoi2D with up to 3 outer and 2 inner dimensions over "
          "small lattices; every draw of every move at every level")
ASSUMPTIONS = ["random draws are enumerated on a lattice and weighted by their density"]
V = [0.0, 1.0]


def _inner(kind, birth="neighbour", name="in", kmax=2, two=False):
    if kind == "ps":
        return Sp(name, "ps", 1, kmax, [prior("q", "U", 0, 1.0)])
    if kind == "v1":
        return Sp(name, "v1", 1, kmax, [prior("q", "G", 1, 1.0, 1.3)] + ([prior("r", "U", 0, 1.2, 1.6)] if two else []),
                  lo=0.5, hi=2.5, birth=birth, std=1.3)
    return Sp(name, "v2", 1, kmax, [prior("q", "L", 2, 1.0, 1.3)], lo=(0.5, 0.5), hi=(2.5, 1.5), birth=birth, std=1.1)


def _outer(kind, inner, birth="neighbour", kmax=2, with_prior=True, kmin=1):
    pr = []
    if with_prior:
        pr = [prior("p", "G", dict(ps=0, v1=1, v2=2)[kind], 1.2, 1.4)]
    kw = {}
    if kind == "v1":
        kw = dict(lo=0.5, hi=3.5, birth=birth)
    if kind == "v2":
        kw = dict(lo=(0.5, 0.5), hi=(2.5, 1.5), birth=birth)
    inner = inner if isinstance(inner, list) else [inner]
    return Sp("out", kind, kmin, kmax, pr + inner, **kw)


CONFIGS = {}
for o in ("ps", "v1", "v2"):
    for i in ("ps", "v1", "v2"):
        for b in (("prior",) if o == "ps" else ("prior", "neighbour")):
            CONFIGS[f"{o}[{i}]-{b}"] = (o, i, b)


def jobs(tier):
    q = tier == "quick"
    out = []
    for name, (o, i, b) in CONFIGS.items():
        out.append((name, "pair", o, i, b))
    out.append(("inner-prior-births", "inner_prior"))
    out.append(("two-inner", "two_inner"))
    out.append(("three-level", "three", "ps", "ps", "ps", "prior"))
    out.append(("three-level-ps-v1", "three", "ps", "ps", "v1", "prior"))
    out.append(("three-level-v1", "three", "v1", "v1", "ps", "neighbour"))
    out.append(("three-level-v1v1v1", "three", "v1", "v1", "v1", "neighbour"))
    out.append(("shared", "shared"))
    out.append(("siblings", "siblings"))
    out.append(("three-outer", "three_outer"))
    out.append(("fixed-levels", "fixed_levels"))
    if not q:
        for o, m, i in itertools.product(("ps", "v1"), repeat=3):
            out.append((f"{o}[{m}[{i}]]", "three", o, m, i, "neighbour"))
    return out


def run(job, m, canon, radius, **kw):
    import bayesbay as bb
    par = bb.parameterization.Parameterization([s.build() for s in m.spaces])
    canon = [c for c in dict.fromkeys(canon) if m.logpi(c) > float("-inf")]
    kernel.check_kernel(job, m, par.perturbation_funcs, canon, radius, **kw)


def thin(xs, n):
    xs = list(xs)
    if len(xs) <= n:
        return xs
    step = len(xs) / n
    return [xs[int(i * step)] for i in range(n - 1)] + [xs[-1]]


def states(sp, vals=V, ks=None):
    """canonical states of a space of any nesting"""
    ks = ks or range(sp.kmin, min(sp.kmax, 2) + 1)
    cols = [vals if not isinstance(p, Sp) else thin(states(p, vals), 4) for p in sp.params]
    lat = sp.lattice()
    lat = [lat[0], lat[-1]] if len(lat) > 1 else lat
    out = []
    for k in ks:
        vs = list(itertools.product(*cols))
        if sp.kind == "ps":
            out += [tuple(sorted((None, v) for v in t)) for t in itertools.combinations_with_replacement(vs, k)]
        else:
            out += [tuple(sorted(zip(ss, t))) for ss in itertools.combinations(lat, k)
                    for t in itertools.product(vs, repeat=k)]
    return out


def pair(job, o, i, b):
    s = _outer(o, _inner(i), b)
    n = 14 if job.quick else 60
    canon = [(c,) for c in thin(states(s, ks=(1,)), n // 2) + thin(states(s, ks=(2,)), n // 2)]
    canon += _neighbours_of(Model([s]), canon[0], 4)
    run(job, Model([s]), canon, 1, order_limit=2, rtol=1e-6)


def _neighbours_of(m, c, n):
    """some models next to c, so that flows in both directions are measured"""
    return thin([x for x in m.expected(c, 1) if m.logpi(x) > float("-inf")], n)


def inner_prior(job):
    """the births of the inner discretization follow its own setting, the outer ones the outer's"""
    for bi, bo in (("prior", "neighbour"), ("neighbour", "prior")):
        s = _outer("v1", _inner("v1", bi, two=False), bo)
        canon = [(c,) for c in thin(states(s), 6)]
        run(job, Model([s]), canon, 1)


def two_inner(job):
    a, b = _inner("v1", name="in1", kmax=1), _inner("ps", name="in2", kmax=2)
    a.fixed, a.kmin = True, 1
    s = _outer("v1", [a, b], "neighbour", with_prior=False)
    canon = [(c,) for c in thin(states(s), 8)]
    run(job, Model([s]), canon, 1)


def three(job, o, mid, i, b):
    inner = _inner(i, name="deep", kmax=2)
    middle = _inner(mid, name="mid", kmax=2)
    middle.params = ([] if mid == "ps" else middle.params[:0]) + [inner]
    s = _outer(o, middle, b, with_prior=False, kmax=2)
    s.hi, middle.hi, inner.hi = 2.5, 2.5, 1.5
    if i == "v1":
        inner.fixed, inner.kmin, inner.kmax = True, 1, 1
    canon = [(c,) for c in thin(states(s, ks=(1,)), 4) + thin(states(s, ks=(2,)), 3)]
    if o == mid == i == "v1":
        middle.fixed, middle.kmin, middle.kmax = True, 1, 1
        canon = [(c,) for c in thin(states(s), 4)]
    run(job, Model([s]), canon, 1, order_limit=2)


def shared(job):
    """one space object nested twice"""
    inner = _inner("ps", name="in")
    a = Sp("a", "ps", 1, 2, [inner])
    b = Sp("b", "v1", 1, 2, [prior("p", "U"), inner], lo=0.5, hi=2.5, birth="prior")
    m = Model([a, b])
    import bayesbay as bb
    made = {}
    par = bb.parameterization.Parameterization([s.build(made) for s in m.spaces])
    ca, cb = thin(states(a), 4), thin(states(b), 4)
    canon = [(x, y) for x in ca for y in cb][::3]
    kernel.check_kernel(job, m, par.perturbation_funcs, canon, 1, order_limit=2)


def siblings(job):
    """two top-level spaces, one of them nested, next to each other"""
    a = _outer("ps", _inner("ps"))
    a.name = "a"
    b = Sp("b", "v1", 1, 2, [prior("p", "U", 0, 1.0, 1.3)], lo=0.5, hi=2.5)
    canon = [(x, y) for x in thin(states(a), 5) for y in thin(states(b), 3)]
    run(job, Model([a, b]), canon, 1, order_limit=2)


def three_outer(job):
    """more instances: three outer dimensions"""
    s = _outer("ps", _inner("ps"), with_prior=True, kmax=3)
    i1, i2 = ((None, (0.0,)),), ((None, (0.0,)), (None, (1.0,)))
    canon = []
    for t in itertools.combinations_with_replacement([(0.0, i1), (1.0, i2), (0.0, i2)], 3):
        canon.append((tuple(sorted((None, v) for v in t)),))
    run(job, Model([s]), thin(canon, 4 if job.quick else 10), 1, order_limit=6)
    s = _outer("v1", _inner("ps"), "neighbour", kmax=3)
    canon = []
    for t in itertools.product([(0.0, i1), (1.0, i2)], repeat=3):
        canon.append((tuple(zip([1., 2., 3.], t)),))
    run(job, Model([s]), thin(canon, 4 if job.quick else 8), 1)


def fixed_levels(job):
    inner = Sp("in", "ps", 2, 2, [prior("q", "U"), prior("r", "G")], fixed=True)
    s = Sp("out", "v1", 2, 2, [inner], fixed=True, lo=0.5, hi=3.5)
    canon = [(c,) for c in thin(states(s), 12)]
    run(job, Model([s]), canon, 1)
    inner = Sp("in", "v1", 2, 2, [], fixed=True, lo=0.5, hi=3.5)
    s = Sp("out", "ps", 1, 2, [inner])
    canon = [(c,) for c in thin(states(s), 8)]
    run(job, Model([s]), canon, 1)
