"""C04: moves of Voronoi sites."""
from mc import kernel
from mc.spec import Sp, Model
from .common import prior, L_SHAPE

BOUNDS = ("all models with up to 4 cells over all lattice sites of small domains (so that every site is near a boundary); every "
          "displacement on the lattice within the radius")
ASSUMPTIONS = ["random draws are enumerated on a lattice and weighted by their density",
               "displacements that put two sites at one point are left out"]
V = [0.0, 1.0]


def jobs(tier):
    q = tier == "quick"
    out = []
    for kind in "UGLCX":
        for d in (0, 1):
            out.append((f"v1-{kind}-{d}", "v1", [(kind, d)], 3, 5, 1.0))
        for d in (0, 2):
            out.append((f"v2-{kind}-{d}", "v2", [(kind, d)], "box", 2))
        out.append((f"v2-{kind}-polygon", "v2", [(kind, 2)], "poly", 2))
    out.append(("v1-wide", "v1", [("G", 1)], 2, 7, 2.5))
    out.append(("v1-GU", "v1", [("G", 1), ("U", 0)], 2, 5, 1.3))
    out.append(("v1-UU", "v1", [("U", 1), ("L", 1)], 2, 5, 1.3))
    out.append(("v1-4", "v1", [("U", 0)], 4, 5, 1.0))
    out.append(("v1-nested", "nested", "v1"))
    out.append(("v2-nested", "nested", "v2"))
    out.append(("v1-fixed", "fixed"))
    out += [("direct-v1", "direct", "v1"), ("direct-v2", "direct", "v2")]
    out.append(("v2-kdtree", "v2", [("G", 2)], "kd", 2))
    if not q:
        for a in "UGLC":
            for b in "UGLC":
                out.append((f"v1-{a}{b}-deep", "v1", [(a, 1), (b, 1)], 3, 8, 2.0))
                out.append((f"v2-{a}{b}-deep", "v2", [(a, 2), (b, 2)], "box", 2))
        out.append(("v1-5", "v1", [("G", 1)], 5, 8, 1.0))
        out.append(("v2-3", "v2", [("G", 2)], "box", 3))
    return out


def run(job, m, canon, radius, **kw):
    import bayesbay as bb
    par = bb.parameterization.Parameterization([s.build() for s in m.spaces])
    canon = [c for c in canon if m.logpi(c) > float("-inf")]
    kernel.check_kernel(job, m, par.perturbation_funcs, canon, radius, labels=["site:"], **kw)


def v1(job, kinds, kmax, width, std):
    pr = [prior(f"p{i}", k, d, 1.0, 1.4) for i, (k, d) in enumerate(kinds)]
    s = Sp("s", "v1", 1, kmax, pr, lo=0.5, hi=0.5 + width, birth="prior", std=std)
    canon = [(c,) for c in kernel.spaces_canon(s, s.lattice(), [V[:2]] * len(pr), range(1, kmax + 1))]
    if job.quick and len(canon) > 150:
        canon = canon[::len(canon) // 150 + 1]
    # one radius for everything: displacements reach across the whole domain
    run(job, Model([s]), canon, width if len(pr) == 1 else 2)


def v2(job, kinds, dom, kmax):
    pr = [prior(f"p{i}", k, d, 1.0, 1.4) for i, (k, d) in enumerate(kinds)]
    kw = dict(box=dict(lo=(0.5, 1.5), hi=(3.5, 3.5)), poly=dict(polygon=L_SHAPE), kd=dict(lo=(0.5, 1.5), hi=(3.5, 3.5)))[dom]
    s = Sp("s", "v2", 1, kmax, pr, birth="prior", std=1.2, fixed=False, kdtree=dom == "kd", **kw)
    s.fixed, s.kmin = True, kmax
    sites = s.lattice()
    canon = [(c,) for c in kernel.spaces_canon(s, sites, [V] * len(pr), (kmax,))]
    if len(canon) > 160:
        canon = canon[::len(canon) // (160 if not job.quick else 60) + 1]
    run(job, Model([s]), canon, 2 if dom != "poly" or not job.quick else 3, order_limit=2)


def nested(job, kind):
    inner = Sp("in", "ps", 1, 2, [prior("q", "U")])
    kw = dict(lo=0.5, hi=4.5) if kind == "v1" else dict(lo=(0.5, 0.5), hi=(2.5, 2.5))
    s = Sp("s", kind, 2, 2, [prior("p", "G", 1 if kind == "v1" else 2, 1.0, 1.2), inner], fixed=True, birth="prior", **kw)
    ins = list(kernel.spaces_canon(inner, None, [V], (1, 2)))
    sites = s.lattice()
    canon = []
    import itertools
    for ss in itertools.combinations(sites, 2):
        for a, b in itertools.product(ins[:3], ins[2:]):
            canon.append((tuple(sorted([(ss[0], (0.0, a)), (ss[1], (1.0, b))])),))
    run(job, Model([s]), canon, 3 if kind == "v1" else 1, order_limit=2)


def fixed(job):
    for k in (1, 2, 4):
        s = Sp("s", "v1", k, k, [prior("p", "G", 1)], lo=0.5, hi=5.5, std=1.0, fixed=True)
        canon = [(c,) for c in kernel.spaces_canon(s, s.lattice(), [V], (k,))]
        run(job, Model([s]), canon[:60], 4)


def direct(job, kind):
    """the class of the move used by itself"""
    import bayesbay as bb
    kw = dict(v1=dict(lo=0.5, hi=4.5), v2=dict(lo=(0.5, 1.5), hi=(3.5, 3.5)))[kind]
    d = dict(v1=1, v2=2)[kind]
    s = Sp("s", kind, 1, 2, [prior("a", "U", d), prior("b", "G", d, 1.3)], birth="prior", **kw)
    t = Sp("t", "ps", 1, 2, [prior("a", "L")])
    cs = list(kernel.spaces_canon(s, s.lattice(), [V[:2], V[1:]], (1, 2)))
    ct = list(kernel.spaces_canon(t, None, [V[:2]], (1, 2)))
    m = Model([s, t])
    canon = [(x, y) for x in cs[::3 if job.quick else 1] for y in ct[::3]]
    canon = [c for c in canon if m.logpi(c) > float("-inf")]
    built = [x.build() for x in m.spaces]
    bb.parameterization.Parameterization(built)
    f = bb.perturbations.ParamPerturbation("s", [built[0]])
    for g in (f, f.perturb):
        kernel.check_kernel(job, m, [g], canon[::4] if g is f else canon, 4, order_limit=2, labels=["site:s"])
