"""C03: births that start from the neighbouring cell, and deaths."""
import itertools
from mc import kernel
from mc.spec import Sp, Model
from .common import prior, half, L_SHAPE

BOUNDS = ("all models with up to 4 cells over small lattices of sites and values; every birth onto the lattice within the "
          "radius around the neighbour's values, every death; sites with several equally near neighbours are left out")
ASSUMPTIONS = ["random draws are enumerated on a lattice and weighted by their density",
               "hyperparameters that depend on a 2D position are affine"]
V = [0.0, 1.0, 2.0]


def jobs(tier):
    q = tier == "quick"
    out = []
    for kind in "UGLCX":
        out.append((f"v1-{kind}", "v1", [(kind, 0)], 1, 3, 3))
        out.append((f"v1-{kind}-position", "v1", [(kind, 1)], 1, 3, 3))
        out.append((f"v2-{kind}", "v2", [(kind, 0)], "box", 1, 3))
        out.append((f"v2-{kind}-position", "v2", [(kind, 2)], "box", 1, 3))
    for kind in "UGL":
        out.append((f"v1-{kind}-half", "v1", [(kind, "h")], 1, 3, 2))
    out.append(("v1-nobirthstd", "v1", [("G", 0, None), ("U", 1, None)], 1, 3, 1))
    out.append(("v1-GU", "v1", [("G", 1), ("U", 0)], 1, 3, 1))
    out.append(("v1-UL", "v1", [("U", 1), ("L", 1)], 1, 2, 1))
    out.append(("v1-CG", "v1", [("C", 1), ("G", 1)], 1, 2, 1))
    out.append(("v1-UGL", "v1", [("U", 0), ("G", 1), ("L", 0)], 1, 2, 1))
    out.append(("v1-none", "v1", [], 1, 4, 1))
    out.append(("v2-polygon", "v2", [("G", 2), ("U", 0)], "poly", 1, 2))
    out.append(("v2-LU", "v2", [("L", 2), ("U", 2)], "box", 1, 2))
    out.append(("v1-4cells", "v1", [("G", 0)], 2, 4, 2))
    if not q:
        for a, b in itertools.permutations("UGLC", 2):
            out.append((f"v1-{a}{b}-deep", "v1", [(a, 1), (b, 1)], 1, 3, 2))
            out.append((f"v2-{a}{b}-deep", "v2", [(a, 2), (b, 2)], "box", 1, 3))
        for a, b, c in itertools.permutations("UGLC", 3):
            out.append((f"v1-{a}{b}{c}-deep", "v1", [(a, 1), (b, 0), (c, 1)], 1, 2, 1))
        out.append(("v1-5cells", "v1", [("L", 1)], 2, 5, 2))
    return out


def _p(i, t):
    k, d = t[:2]
    if d == "h":
        return half(f"p{i}", k)
    return prior(f"p{i}", k, d, 1.0 + 0.6 * i, t[2] if len(t) > 2 else 1.4 + 0.5 * i)


def v1(job, kinds, kmin, kmax, radius):
    pr = [_p(i, t) for i, t in enumerate(kinds)]
    s = Sp("s", "v1", kmin, kmax, pr, lo=0.5, hi=8.5, birth="neighbour")
    vals = [V] if len(pr) == 1 and kmax < 4 else [V[:2]] * len(pr)
    sites = [1., 2., 4., 8.] if kmax < 5 else [1., 2., 4., 7., 8.]
    m = Model([s])
    run(job, m, [(c,) for c in kernel.spaces_canon(s, sites, vals, range(kmin, kmax + 1))], radius)


def v2(job, kinds, dom, kmin, kmax):
    pr = [_p(i, t) for i, t in enumerate(kinds)]
    kw = dict(box=dict(lo=(0.5, 1.5), hi=(4.5, 3.5)), poly=dict(polygon=L_SHAPE))[dom]
    s = Sp("s", "v2", kmin, kmax, pr, birth="neighbour", **kw)
    sites = [(1., 2.), (2., 3.), (4., 3.)]
    canon = [(c,) for c in kernel.spaces_canon(s, sites, [V[:2]] * len(pr), range(kmin, kmax + 1))]
    run(job, Model([s]), canon, 1, max_draws=14 if dom == "poly" else 60, rtol=1e-3 if dom == "poly" else 1e-6,
        order_limit=2)


def run(job, m, canon, radius, **kw):
    import bayesbay as bb
    par = bb.parameterization.Parameterization([s.build() for s in m.spaces])
    canon = [c for c in canon if m.logpi(c) > float("-inf")]
    kernel.check_kernel(job, m, par.perturbation_funcs, canon, radius, labels=["birth:", "death:"], **kw)
