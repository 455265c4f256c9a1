"""C02: births drawn from the prior and deaths, in parameter spaces and Voronoi discretizations."""
import itertools
from mc import kernel
from mc.spec import Sp, Model, Pr
from .common import prior, L_SHAPE

BOUNDS = ("all models with up to 5 dimensions over small lattices of sites and values; every birth onto the lattice, every "
          "death, from every order of the dimensions (up to six orders)")
ASSUMPTIONS = ["random draws are enumerated on a lattice and weighted by their density",
               "births from the prior with position-dependent user-defined priors use the user's own sampler"]
V = [0.0, 1.0, 2.0]


def jobs(tier):
    q = tier == "quick"
    out = []
    for kind in "UGLCX":
        out.append((f"ps-{kind}", "ps", [kind], 1, 4))
        out.append((f"v1-{kind}", "v1", [(kind, 0)], 1, 4, 2))
        out.append((f"v1-{kind}-position", "v1", [(kind, 1)], 1, 3, 2))
        out.append((f"v2-{kind}-position", "v2", [(kind, 2)], "box", 1, 3))
    out.append(("ps-none", "ps", [], 1, 5))
    out.append(("ps-wide", "ps", ["U"], 2, 5))
    out.append(("ps-GU", "ps", ["G", "U"], 1, 3))
    out.append(("ps-LC", "ps", ["L", "C"], 1, 2))
    out.append(("v1-none", "v1", [], 1, 5, 2))
    out.append(("v1-GU", "v1", [("G", 1), ("U", 0)], 1, 3, 1))
    out.append(("v1-UL", "v1", [("U", 1), ("L", 1)], 1, 3, 1))
    out.append(("v2-none", "v2", [], "box", 1, 4))
    out.append(("v2-polygon", "v2", [("G", 0)], "poly", 1, 3))
    out.append(("v2-polygon-U", "v2", [("U", 2)], "poly", 1, 2))
    out.append(("v2-scalar-bounds", "v2", [("U", 0)], "scalar", 1, 3))
    out.append(("two-spaces", "two"))
    out += [("direct-ps", "direct", "ps"), ("direct-v1", "direct", "v1"), ("direct-v2", "direct", "v2")]
    if not q:
        for a, b in itertools.permutations("UGLC", 2):
            out.append((f"v1-{a}{b}-deep", "v1", [(a, 1), (b, 1)], 1, 4, 2))
            out.append((f"v2-{a}{b}-deep", "v2", [(a, 2), (b, 0)], "box", 1, 3))
            out.append((f"ps-{a}{b}-deep", "ps", [a, b], 1, 4))
        out.append(("ps-U-6", "ps", ["U"], 1, 6))
        out.append(("v1-U-6", "v1", [("U", 0)], 1, 6, 2))
        out.append(("v2-none-6", "v2", [], "box", 1, 6))
    return out


def run(job, m, canon, radius, **kw):
    import bayesbay as bb
    par = bb.parameterization.Parameterization([s.build() for s in m.spaces])
    canon = [c for c in canon if m.logpi(c) > float("-inf")]
    kernel.check_kernel(job, m, par.perturbation_funcs, canon, radius, labels=["birth:", "death:"], **kw)


def ps(job, kinds, kmin, kmax):
    pr = [prior(f"p{i}", k) for i, k in enumerate(kinds)]
    s = Sp("s", "ps", kmin, kmax, pr)
    vals = [V] if len(pr) == 1 else [V[:2]] * len(pr)
    canon = [(c,) for c in kernel.spaces_canon(s, None, vals, range(kmin, kmax + 1))]
    run(job, Model([s]), canon, 2, order_limit=6 if job.quick else 24)


def v1(job, kinds, kmin, kmax, nv):
    pr = [prior(f"p{i}", k, d, 1.0, 1.4) for i, (k, d) in enumerate(kinds)]
    s = Sp("s", "v1", kmin, kmax, pr, lo=0.5, hi=6.5, birth="prior")
    sites = [1., 2., 4., 6., 5., 3.][:max(4, kmax)]
    canon = [(c,) for c in kernel.spaces_canon(s, sites, [V[:nv]] * len(pr), range(kmin, kmax + 1))]
    run(job, Model([s]), canon, 1)


def v2(job, kinds, dom, kmin, kmax):
    pr = [prior(f"p{i}", k, d, 1.0, 1.4) for i, (k, d) in enumerate(kinds)]
    kw = dict(box=dict(lo=(0.5, 1.5), hi=(3.5, 3.5)), scalar=dict(lo=0.5, hi=3.5), poly=dict(polygon=L_SHAPE))[dom]
    if dom == "scalar":
        # the reference wants pairs
        s = Sp("s", "v2", kmin, kmax, pr, lo=(0.5, 0.5), hi=(3.5, 3.5), birth="prior")
        b = Sp("s", "v2", kmin, kmax, pr, lo=0.5, hi=3.5, birth="prior")
    else:
        s = b = Sp("s", "v2", kmin, kmax, pr, birth="prior", **kw)
    sites = [(1., 2.), (2., 3.), (3., 3.), (3., 2.)] if kmax < 5 else [(x, y) for x in (1., 2., 3.) for y in (2., 3.)]
    vals = [V[:2]] * len(pr)
    canon = [(c,) for c in kernel.spaces_canon(s, sites, vals, range(kmin, kmax + 1))]
    import bayesbay as bb
    par = bb.parameterization.Parameterization([b.build()])
    canon = canon if job.tier != "quick" or len(canon) < 40 else canon[::len(canon) // 40 + 1] + canon[:6] + canon[-6:]
    kernel.check_kernel(job, Model([s]), par.perturbation_funcs, canon, 1, labels=["birth:", "death:"],
                        max_draws=13 if dom == "poly" else 60, rtol=1e-3 if dom == "poly" else 1e-6, order_limit=2)


def two(job):
    a = Sp("a", "ps", 1, 3, [prior("x", "U")])
    b = Sp("b", "v1", 2, 4, [prior("x", "G", 1, 1.5, 1.2)], lo=0.5, hi=4.5, birth="prior")
    c = Sp("c", "ps", 2, 2, [prior("x", "L")], fixed=True)
    ca = list(kernel.spaces_canon(a, None, [V[:2]], (1, 2, 3)))
    cb = list(kernel.spaces_canon(b, [1., 2., 4.], [V[:2]], (2, 3)))
    cc = list(kernel.spaces_canon(c, None, [V[:2]], (2,)))
    run(job, Model([a, b, c]), [(x, y, z) for x in ca[::2] for y in cb[::3] for z in cc[::2]], 1, order_limit=2)


def direct(job, kind):
    """the classes of the moves used by themselves"""
    import bayesbay as bb
    kw = dict(ps={}, v1=dict(lo=0.5, hi=4.5), v2=dict(lo=(0.5, 1.5), hi=(3.5, 3.5)))[kind]
    d = dict(ps=0, v1=1, v2=2)[kind]
    s = Sp("s", kind, 1, 3, [prior("a", "U", d), prior("b", "G")], birth="prior", **kw)
    t = Sp("t", "ps", 1, 2, [prior("a", "L")])
    sites = dict(ps=None, v1=[1., 2., 4.], v2=[(1., 2.), (3., 3.), (2., 2.)])[kind]
    cs = list(kernel.spaces_canon(s, sites, [V[:2], V[1:]], (1, 2, 3)))
    ct = list(kernel.spaces_canon(t, None, [V[:2]], (1, 2)))
    m = Model([s, t])
    canon = [(x, y) for x in cs[::2 if job.quick else 1] for y in ct[::3]]
    canon = [c for c in canon if m.logpi(c) > float("-inf")]
    built = [x.build() for x in m.spaces]
    bb.parameterization.Parameterization(built)
    for b in built:
        one, two = bb.perturbations.BirthPerturbation(b), bb.perturbations.DeathPerturbation(b)
        for fs in ([one, two], [one.perturb, two.perturb]):
            kernel.check_kernel(job, m, fs, canon[::4] if fs[0] is one else canon, 1, order_limit=2,
                                labels=[f"birth:{b.name}", f"death:{b.name}"])
