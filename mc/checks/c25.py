"""C25: log prior densities of the built-in priors and of whole parameter spaces."""
import itertools
import math

import numpy as np

from mc import rng
from mc.spec import Pr, Sp
from .c06 import states, thin
from .common import prior

BOUNDS = ("all combinations of constant and position-dependent hyperparameters of the three built-in priors (and custom ones), 7 sets of "
          "1D nodes in every order and 4 sets of 2D nodes, positions on, between and beyond the nodes, values at, next to and between the "
          "bounds and around the centre; all lattice models of nested parameter spaces up to three levels")
ASSUMPTIONS = ["2D: interpolation within the (unique) Delaunay triangle of the nodes; points on the border of the hull are left out"]

NODES1 = [[2.0], [0.5, 3.0], [0.0, 1.0, 4.0], [-2.5, -1.0, 0.5, 7.0], [10.0, 10.5, 12.0, 30.0, 31.0], [0.0, 1e-3, 1.0], [-1e6, 0.0, 1e6]]
NODES2 = [[(0., 0.), (4., 0.5), (1., 3.)], [(0., 0.), (4., 0.), (0., 3.), (5., 4.)],
          [(0., 0.), (6., 0.), (0., 5.), (7., 6.), (2., 2.5)], [(-3., 1.), (1., 4.), (2., -2.), (5., 3.), (0., 0.), (9., -1.)]]
HYPER = dict(U=("vmin", "vmax"), G=("mean", "std"), L=("mean", "scale"))


def jobs(tier):
    out = [(f"{k}-1D-{i}", "one_d", k, i) for k in "UGL" for i in range(len(NODES1))]
    out += [(f"{k}-2D-{i}", "two_d", k, i) for k in "UGL" for i in range(len(NODES2))]
    out += [(f"{k}-constant", "constant", k) for k in "UGL"] + [("custom", "custom")]
    out += [(f"joint-{n}", "joint", n) for n in ("flat", "two", "three", "siblings", "only-nested", "shared")]
    return out


def build(kind, name, h, perturb=1.0, position=None, bstd=None):
    import bayesbay as bb
    cls = dict(U=bb.prior.UniformPrior, G=bb.prior.GaussianPrior, L=bb.prior.LaplacePrior)[kind]
    kw = dict(zip(HYPER[kind], h))
    if bstd is not None:
        kw["perturb_std_birth"] = bstd
    return cls(name=name, perturb_std=perturb, position=position, **kw)


def density(kind, a, b, v):
    if kind == "U":
        return -math.log(b - a) if a <= v <= b else -math.inf
    if kind == "G":
        return -((v - a) ** 2) / (2 * b * b) - math.log(b * math.sqrt(2 * math.pi))
    return -abs(v - a) / b - math.log(2 * b)


def values(kind, a, b):
    if kind == "U":
        w = b - a
        return [a + w * f for f in (-2.0, -0.25, -1e-6, 1e-6, 0.25, 0.5, 1 - 1e-6, 1 + 1e-6, 1.5)]
    return [a + b * f for f in (-30.0, -3.0, -1.0, -0.125, 0.0, 0.5, 1.0, 2.0, 8.0)]


def same(got, want):
    try:
        got = float(got)
    except (TypeError, ValueError):
        return False
    if want == -math.inf or got in (math.inf, -math.inf) or got != got:
        return got == want
    return abs(got - want) <= 1e-9 * (1 + abs(want))


def judge(job, pr, kind, a, b, pos, **ctx):
    job.states += 1
    for v in values(kind, a, b):
        job.transitions += 1
        want = density(kind, a, b, v)
        for x in (v, np.float64(v)):
            got = pr.log_prior(x, pos) if pos is not None else pr.log_prior(x)
            if not same(got, want):
                job.violation("the log prior is not the log density of the documented distribution", value=v, position=pos, prior=kind,
                              log_prior=got, expected=want, hyperparameters=(a, b), **ctx)
                return False
    job.sample(prior=kind, position=pos, hyperparameters=(a, b), log_prior=want)
    job.traces += 1
    return True


def constant(job, kind):
    A = [-7.5, -1.0, 0.0, 0.3, 4.0, 1e5]
    B = [1e-3, 0.2, 1.0, 3.5, 1e4]
    for a, d in itertools.product(A, B):
        b = a + d if kind == "U" else d
        pr = build(kind, "p", (a, b))
        for pos in (None, 1.5, np.array([0.5, 2.0])):
            judge(job, pr, kind, a, b, pos)
        # with nodes given, but constant hyperparameters
        for nodes in (NODES1[2], NODES2[1]):
            pr = build(kind, "p", (a, b), position=nodes)
            judge(job, pr, kind, a, b, nodes[0] if np.isscalar(nodes[0]) else np.array(nodes[0]))
        # at the very bounds
        if kind == "U":
            for v in (a, b):
                job.require(same(pr.log_prior(v), density(kind, a, b, v)), "a uniform prior excludes its bounds", value=v, bounds=(a, b))
    # integers
    pr = build(kind, "p", (1, 3))
    for v in (1, 2, 3, 0, 4):
        job.require(same(pr.log_prior(v, None), density(kind, 1, 3, v)), "the log prior is wrong for integers", value=v)


def interp1(nodes, y, x):
    pts = sorted(zip(nodes, y))
    if x <= pts[0][0]:
        return pts[0][1]
    if x >= pts[-1][0]:
        return pts[-1][1]
    for (x0, y0), (x1, y1) in zip(pts, pts[1:]):
        if x0 <= x <= x1:
            return y0 + (y1 - y0) * (x - x0) / (x1 - x0)


def hyper(kind, n, shift=0):
    """hyperparameters at n nodes, not linear in the nodes"""
    c = [0.3, -1.2, 2.5, 0.7, -3.0, 1.1]
    w = [1.5, 0.4, 2.2, 0.9, 3.1, 0.6]
    a = [c[(i + shift) % 6] for i in range(n)]
    d = [w[(i + 2 * shift) % 6] for i in range(n)]
    return a, [x + y for x, y in zip(a, d)] if kind == "U" else d


def combos(kind, a, b):
    """constant or position-dependent, each"""
    if kind == "U":
        lo, hi = min(a) - 0.5, max(b) + 0.5
        return [(a, b), (lo, b), (a, hi), (lo, hi)]
    return [(a, b), (a[0], b), (a, b[0]), (a[0], b[0])]


def one_d(job, kind, i):
    nodes0 = NODES1[i]
    n = len(nodes0)
    perms = list(itertools.permutations(range(n)))
    if n > 4 and job.quick:
        perms = perms[::7] + perms[-1:]
    for shift in range(1 if job.quick else 6):
        a0, b0 = hyper(kind, n, shift)
        span = nodes0[-1] - nodes0[0] + 1
        xs = list(nodes0) + [nodes0[0] - span, nodes0[-1] + span, nodes0[0] - 1e-9, nodes0[-1] + 1e-9]
        for u, v in zip(nodes0, nodes0[1:]):
            xs += [u + f * (v - u) for f in (1e-6, 0.25, 0.5, 0.875)]
        for perm in perms:
            nodes, a, b = [[z[j] for j in perm] for z in (nodes0, a0, b0)]
            for (ha, hb), form in itertools.product(combos(kind, a, b), ("list", "array")):
                wrap = (lambda z: z) if form == "list" else (lambda z: np.array(z) if not np.isscalar(z) else z)
                given = [wrap(ha), wrap(hb), wrap(nodes)]
                pr = build(kind, "p", given[:2], perturb=wrap([0.1 * (k + 1) for k in range(n)]), position=given[2])
                if form == "array":
                    # changing the caller's arrays later has no effect
                    for z in given:
                        if isinstance(z, np.ndarray):
                            z += 17.0
                for x in xs:
                    ra = ha if np.isscalar(ha) else interp1(nodes, ha, x)
                    rb = hb if np.isscalar(hb) else interp1(nodes, hb, x)
                    if not judge(job, pr, kind, ra, rb, x if form == "list" else np.float64(x), nodes=nodes, at_nodes=(ha, hb)):
                        return


# ------------------------------------------------------------------ 2D
def delaunay(nodes):
    out = []
    for t in itertools.combinations(nodes, 3):
        (ax, ay), (bx, by), (cx, cy) = t
        d = 2 * (ax * (by - cy) + bx * (cy - ay) + cx * (ay - by))
        if abs(d) < 1e-12:
            continue
        ux = ((ax**2 + ay**2) * (by - cy) + (bx**2 + by**2) * (cy - ay) + (cx**2 + cy**2) * (ay - by)) / d
        uy = ((ax**2 + ay**2) * (cx - bx) + (bx**2 + by**2) * (ax - cx) + (cx**2 + cy**2) * (bx - ax)) / d
        r = math.hypot(ax - ux, ay - uy)
        rest = [math.hypot(x - ux, y - uy) for x, y in nodes if (x, y) not in t]
        assert all(abs(x - r) > 1e-6 for x in rest), "the triangulation is not unique"
        if all(x > r for x in rest):
            out.append(t)
    return out


def bary(t, p):
    (ax, ay), (bx, by), (cx, cy) = t
    d = (by - cy) * (ax - cx) + (cx - bx) * (ay - cy)
    l1 = ((by - cy) * (p[0] - cx) + (cx - bx) * (p[1] - cy)) / d
    l2 = ((cy - ay) * (p[0] - cx) + (ax - cx) * (p[1] - cy)) / d
    return l1, l2, 1 - l1 - l2


def two_d(job, kind, i):
    nodes = NODES2[i]
    n = len(nodes)
    tri = delaunay(nodes)
    lo, hi = np.min(nodes, 0), np.max(nodes, 0)
    k = 7 if job.quick else 17
    grid = [(x, y) for x in np.linspace(lo[0] - 1, hi[0] + 1, k) + 0.0137 for y in np.linspace(lo[1] - 1, hi[1] + 1, k) - 0.0071]
    for t in tri:
        grid.append(tuple(np.mean(t, 0)))
    for shift in range(2 if job.quick else 6):
        a, b = hyper(kind, n, shift)
        val = dict(zip(nodes, zip(a, b)))
        for ha, hb in combos(kind, a, b):
            pr = build(kind, "p", (ha, hb), position=nodes, perturb=[0.1 * (j + 1) for j in range(n)])
            for p in grid + list(nodes):
                inside = None
                border = False
                for t in tri:
                    l = bary(t, p)
                    border |= min(l) > -1e-6 and min(l) < 1e-6
                    if min(l) >= 0:
                        inside = (t, l)
                if p in nodes:
                    inside = ((p, p, p), (1.0, 0.0, 0.0))
                elif inside is None and border:
                    continue
                ctx = dict(nodes=nodes, at_nodes=(ha, hb))
                if inside is None:
                    if np.isscalar(ha) and np.isscalar(hb):
                        continue
                    job.transitions += 1
                    v = (ha if np.isscalar(ha) else ha[0]) + 0.1
                    try:
                        got = pr.log_prior(v, np.array(p))
                    except Exception:
                        continue
                    job.violation("a position outside the hull of the nodes is not refused", position=p, log_prior=got, **ctx)
                    return
                t, l = inside
                ra, rb = [h if np.isscalar(h) else sum(w * val[q][j] for w, q in zip(l, t)) for j, h in ((0, ha), (1, hb))]
                if not judge(job, pr, kind, ra, rb, np.array(p), **ctx):
                    return


# ------------------------------------------------------------------ custom priors
def custom(job):
    import bayesbay as bb
    f2 = lambda v, x: -abs(v - (0 if x is None else np.sum(x)))
    f1 = lambda v: -0.5 * v * v if v < 2 else -math.inf
    for f, two in ((f2, True), (f1, False)):
        for nodes, std in ((None, 1.0), (NODES1[2], [1.0, 2.0, 3.0]), (NODES2[0], [1.0, 2.0, 3.0])):
            pr = bb.prior.CustomPrior("p", log_prior=f, sample=lambda x=None: 0.0, perturb_std=std, position=nodes)
            for v, x in itertools.product((-1.0, 0.0, 1.5, 2.0, 5.0), (None, 0.5, np.array([1.0, 2.0]))):
                job.states += 1
                job.transitions += 1
                job.traces += 1
                want = f(v, x) if two else f(v)
                job.require(same(pr.log_prior(v, x), want), "a custom prior returns something else than the user's function", value=v,
                            position=x, log_prior=pr.log_prior(v, x), expected=want)


# ------------------------------------------------------------------ joint
def spaces(name):
    u, g, l = prior("u", "U"), prior("g", "G"), prior("l", "L")
    c = prior("c", "C")
    if name == "flat":
        return Sp("s", "ps", 1, 3, [u, g, l, c])
    if name == "two":
        return Sp("s", "ps", 1, 3, [g, Sp("in", "ps", 1, 2, [u, l])])
    if name == "three":
        return Sp("s", "ps", 1, 2, [Sp("in", "ps", 1, 2, [g, Sp("deep", "ps", 1, 2, [u])]), u])
    if name == "siblings":
        return Sp("s", "ps", 1, 2, [Sp("a", "ps", 1, 2, [u]), l, Sp("b", "ps", 2, 2, [g], fixed=True)])
    if name == "only-nested":
        return Sp("s", "ps", 1, 2, [Sp("in", "ps", 1, 2, [Sp("deep", "ps", 1, 2, [u, g])])])
    z = Sp("z", "ps", 1, 2, [u])
    return Sp("s", "ps", 1, 2, [Sp("a", "ps", 1, 2, [z]), z])


def joint(job, name):
    sp = spaces(name)
    ps = sp.build()

    def ref(sp, dims):
        r = 0.0
        for _, vals in dims:
            for p, v in zip(sp.params, vals):
                r += ref(p, v) if isinstance(p, Sp) else p.logpdf(v)
        return r
    vals = [-1.0, 0.0, 1.0, 2.5] if name in ("flat", "two") else [0.0, 2.5, -3.0]
    cs = thin(states(sp, vals, ks=range(1, sp.kmax + 1)), 3000 if job.quick else 60000)
    for c in cs:
        job.states += 1
        for order in itertools.islice(itertools.permutations(c), 2):
            job.transitions += 1
            job.traces += 1
            got, want = ps.log_prior(sp.to_state(order)), ref(sp, c)
            if not same(got, want):
                job.violation("the joint log prior is not the sum over dimensions, parameters and nested spaces", model=c,
                              log_prior=got, expected=want)
                return
