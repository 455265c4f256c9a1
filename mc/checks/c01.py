"""C01: parameter-value moves.  All value perturbations of all small models, every draw enumerated."""
import itertools
from mc import kernel
from mc.spec import Sp, Model
from .common import prior, half, L_SHAPE

BOUNDS = ("all models with the listed numbers of dimensions over a lattice of values (and sites), every proposal on the "
          "lattice within the radius, both concrete orders of dimensions")
ASSUMPTIONS = ["random draws are enumerated on a lattice and weighted by their density",
               "hyperparameters that depend on a 2D position are affine"]

V = [0.0, 1.0, 2.0]


def jobs(tier):
    out = []
    R = 4 if tier == "quick" else 7
    for kind in "UGLCX":
        out.append((f"ps-{kind}", "ps", [kind], (1, 2, 3), R))
        out.append((f"v1-{kind}", "v1", [(kind, 0)], (1, 2, 3), R))
        out.append((f"v1-{kind}-position", "v1", [(kind, 1)], (1, 2, 3), R))
        out.append((f"v2-{kind}-position", "v2", [(kind, 2)], (1, 2), R, False))
    for kind in "UGL":
        out.append((f"v1-{kind}-half", "v1", [(kind, "h")], (1, 2), R))
    for a, b in itertools.permutations("UGLC", 2):
        if tier == "quick" and (a, b) not in (("U", "G"), ("L", "U"), ("G", "C"), ("C", "L")):
            continue
        out.append((f"ps-{a}{b}", "ps", [a, b], (1, 2), 2 if tier == "quick" else 4))
        out.append((f"v1-{a}{b}", "v1", [(a, 1), (b, 0)], (1, 2), 2 if tier == "quick" else 4))
    out.append(("v2-GU-polygon", "v2", [("G", 2), ("U", 0)], (1, 2), 1 if tier == "quick" else 2, True))
    out.append(("ps-UGL", "ps", ["U", "G", "L"], (1, 2), 1 if tier == "quick" else 2))
    out += [("direct-ps", "direct", "ps"), ("direct-v1", "direct", "v1"), ("direct-v2", "direct", "v2")]
    out.append(("two-spaces", "two", 2 if tier == "quick" else 3))
    for k in (2, 3) if tier == "quick" else (1, 2, 3, 4):
        out.append((f"fixed-ps-{k}", "fixed", "ps", k, R))
        out.append((f"fixed-v1-{k}", "fixed", "v1", k, R))
    return out


def run(job, m, canon, radius, **kw):
    p = [s.build() for s in m.spaces]
    import bayesbay as bb
    par = bb.parameterization.Parameterization(p)
    canon = [c for c in canon if m.logpi(c) > float("-inf")]
    kernel.check_kernel(job, m, par.perturbation_funcs, canon, radius, labels=["value:"], **kw)


def ps(job, kinds, ks, radius):
    pr = [prior(f"p{i}", k, 0, [1.0, 1.6, 2.0][i]) for i, k in enumerate(kinds)]
    s = Sp("s", "ps", min(ks), max(ks), pr)
    vals = [V] * len(pr) if len(pr) < 3 else [V[:2]] * 3
    run(job, Model([s]), [(c,) for c in kernel.spaces_canon(s, None, vals, ks)], radius)


def _p1(i, k, d):
    return half(f"p{i}", k) if d == "h" else prior(f"p{i}", k, d, 1.0 + 0.5 * i, 1.4)


def v1(job, kinds, ks, radius):
    pr = [_p1(i, k, d) for i, (k, d) in enumerate(kinds)]
    s = Sp("s", "v1", min(ks), max(ks), pr, lo=0.5, hi=8.5, birth="prior")
    vals = [V] if len(pr) == 1 else [V[:2]] * len(pr)
    run(job, Model([s]), [(c,) for c in kernel.spaces_canon(s, [1., 3., 7.], vals, ks)], radius)


def v2(job, kinds, ks, radius, poly):
    pr = [prior(f"p{i}", k, d, 1.0 + 0.5 * i, 1.4) for i, (k, d) in enumerate(kinds)]
    s = Sp("s", "v2", min(ks), max(ks), pr, lo=(0.5, 0.5), hi=(3.5, 2.5), polygon=L_SHAPE if poly else None, birth="prior")
    if poly:
        s.fixed, s.kmin, s.kmax = True, 2, 2
        ks = (2,)
    run(job, Model([s]), [(c,) for c in kernel.spaces_canon(s, [(1., 1.), (3., 2.)], [V[:2]] * len(pr), ks)],
        min(radius, 3), order_limit=2)


def fixed(job, kind, k, radius):
    s = Sp("s", kind, k, k, [prior("a", "G", 1 if kind == "v1" else 0, 1.3)], lo=0.5, hi=8.5, fixed=True)
    run(job, Model([s]), [(c,) for c in kernel.spaces_canon(s, [1., 2., 4., 8.], [V], (k,))], radius, order_limit=3)


def two(job, radius):
    a = Sp("a", "ps", 1, 2, [prior("x", "U", 0, 1.0)])
    b = Sp("b", "v1", 1, 2, [prior("x", "G", 1, 1.5, 1.2), prior("y", "L", 0, 2.0)], lo=0.5, hi=8.5)
    ca = [c for c in kernel.spaces_canon(a, None, [V], (1, 2))]
    cb = [c for c in kernel.spaces_canon(b, [1., 4.], [V[:2], V[1:]], (1, 2))]
    run(job, Model([a, b]), [(x, y) for x in ca[::2] for y in cb[::5]], radius)


def direct(job, kind):
    """the class of the move used by itself"""
    import bayesbay as bb
    kw = dict(ps={}, v1=dict(lo=0.5, hi=4.5), v2=dict(lo=(0.5, 1.5), hi=(3.5, 3.5)))[kind]
    d = dict(ps=0, v1=1, v2=2)[kind]
    s = Sp("s", kind, 1, 2, [prior("a", "U", d), prior("b", "G", d, 1.3)], birth="prior", **kw)
    t = Sp("t", "ps", 1, 2, [prior("a", "L")])
    sites = dict(ps=None, v1=[1., 2., 4.], v2=[(1., 2.), (3., 3.), (2., 2.)])[kind]
    cs = list(kernel.spaces_canon(s, sites, [V[:2], V[1:]], (1, 2)))
    ct = list(kernel.spaces_canon(t, None, [V[:2]], (1, 2)))
    m = Model([s, t])
    canon = [(x, y) for x in cs[::2 if job.quick else 1] for y in ct[::3]]
    canon = [c for c in canon if m.logpi(c) > float("-inf")]
    built = [x.build() for x in m.spaces]
    bb.parameterization.Parameterization(built)
    for b in built:
        f = bb.perturbations.ParamPerturbation(b.name, list(b.parameters.values()))
        for g in (f, f.perturb):
            kernel.check_kernel(job, m, [g], canon[::4] if g is f else canon, 2, order_limit=2, labels=[f"value:{b.name}"])
