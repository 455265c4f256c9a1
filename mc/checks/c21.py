"""C21: interpolation of tessellations and ensemble statistics."""
import itertools
import math
import numpy as np
from mc import rng

BOUNDS = ("every set of 1 to 6 (thorough 8) sites of an uneven lattice in 1D and of 1 to 5 (thorough 6) sites of a 2D lattice, shifted and scaled; "
          "every list of 1 to 5 (thorough 6) thicknesses from a menu; every order of values from a menu; queries inside, outside, near the interfaces, "
          "sorted, reversed, shuffled, repeated and single; three families of tessellations of 7 to 64 (thorough 200) cells with queries on a lattice; ensembles of 1 to 4 such tessellations of any sizes; births from the neighbouring cell "
          "at every lattice point of every small tessellation")
ASSUMPTIONS = ["queries with two nearest sites, or on an interface, may be given either value", "depths are not negative",
               "arrays of floating-point numbers"]
GRID = [0.0, 0.3, 1.0, 1.1, 2.5, 4.0, 7.25, 9.0]
GRID2 = [(0.1, 0.2), (2.0, 0.7), (1.1, 3.0), (3.3, 2.2), (0.6, 1.4), (2.9, 3.6)]


def jobs(tier):
    n1, n2, n3 = (6, 5, 5) if tier == "quick" else (8, 6, 6)
    return [(f"nuclei-{k}", "nuclei", k) for k in range(1, n1 + 1)] + [(f"extents-{k}", "extents", k) for k in range(1, n3 + 1)] + \
           [(f"sites2d-{k}", "sites2d", k) for k in range(1, n2 + 1)] + \
           [(f"ensembles-{t}", "ensembles", t) for t in ("nuclei", "extents", "2d")] + [("density", "density"), ("births", "births"),
                                                                                         ("agree", "agree"), ("samples", "samples")] + \
           [(f"many-{f}", "many", f) for f in ("halton", "lattice", "clusters")]


# ------------------------------------------------------------------ the reference
def near(sites, q):
    """indices of the nearest sites"""
    d = [abs(s - q) if np.isscalar(q) else math.hypot(s[0] - q[0], s[1] - q[1]) for s in sites]
    m = min(d)
    return [i for i, x in enumerate(d) if x <= m + 1e-9 * (1 + abs(m))]


def layer(ext, q):
    top = 0.0
    for i, e in enumerate(ext):
        if i == len(ext) - 1 or q < top + e - 1e-9 * (1 + top):
            return [i]
        if q <= top + e + 1e-9 * (1 + top):
            return [i, i + 1] + ([i + 2] if i + 2 < len(ext) and ext[i + 1] == 0 else [])
        top += e


def orders(qs):
    qs = list(qs)
    yield qs
    yield qs[::-1]
    yield qs[1::2] + qs[::2]
    yield [qs[len(qs) // 2], qs[0], qs[-1], qs[0], qs[len(qs) // 2]]
    n = len(qs)
    yield [qs[(i * 7 + 3) % n] for i in range(n)]


VALUES = [3.5, -1.25, 0.75, 8.0, 2.0, -6.5, 4.75, 11.0]


def perms(k, quick=True):
    v = VALUES[:k]
    yield v
    yield v[::-1]
    yield v[k // 2:] + v[:k // 2]
    if not quick:
        yield from itertools.islice(itertools.permutations(v), 0, None, 7)


def check(job, what, got, vals, cells, ctx):
    got = np.asarray(got)
    if got.shape != (len(cells),):
        job.violation(f"{what}: not one value per query point", shape=got.shape, **ctx)
        return False
    for q, (g, c) in enumerate(zip(got, cells)):
        if all(float(g) != vals[i] for i in c):
            job.violation(f"{what}: not the value of the cell that contains the point", query=ctx["queries"][q], value=float(g),
                          expected=[vals[i] for i in c], **ctx)
            return False
    return True


def lists(k):
    yield from itertools.combinations(GRID, k)
    for off, sc in ((-5.0, 1.0), (100.0, 0.01), (0.0, 1000.0)):
        for t in itertools.combinations(GRID, k):
            yield tuple(off + sc * x for x in t)


def queries(s):
    qs = {s[0] - 3.0, s[-1] + 3.0, s[0] - 0.01, s[-1] + 0.01, *s}
    for a, b in zip(s, s[1:]):
        m = (a + b) / 2
        d = b - a
        qs |= {a + 0.1 * d, m - 1e-6 * d, m + 1e-6 * d, b - 0.2 * d, m}
    return sorted(qs)


def nuclei(job, k):
    import bayesbay as bb
    V = bb.discretization.Voronoi1D
    for s in lists(k):
        arr = np.array(s)
        job.states += 1
        for j, vals in enumerate(perms(k, job.quick)):
            v = np.array(vals)
            for qs in orders(queries(s)):
                job.transitions += len(qs)
                job.traces += 1
                q = np.array(qs)
                got = V.interpolate_tessellation(arr, v, q)
                if not check(job, "sites", got, vals, [near(s, x) for x in qs], dict(sites=s, values=vals, queries=qs)):
                    break
                if got.dtype != float or not (np.array_equal(arr, s) and np.array_equal(v, vals) and np.array_equal(q, qs)):
                    job.violation("interpolation alters what it is given", sites=s)
            # strided arrays
            if j == 0:
                wide = np.array([s, vals]).T
                qq = queries(s)
                check(job, "columns of an array", V.interpolate_tessellation(wide[:, 0], wide[:, 1], np.array(qq)), vals, [near(s, x) for x in qq],
                      dict(sites=s, values=vals, queries=qq))
    job.sample(sites=s, values=vals)


def family(f, n):
    """n sites in the plane"""
    def halton(i, b):
        r, x = 0.0, 1.0 / b
        while i:
            r, i, x = r + x * (i % b), i // b, x / b
        return r
    if f == "halton":
        return [(10 * halton(i, 2), 7 * halton(i, 3) - 2) for i in range(1, n + 1)]
    m = math.ceil(math.sqrt(n))
    if f == "lattice":
        return [(i % m + 0.03 * (i * 7 % 11), i // m + 0.02 * (i * 5 % 13)) for i in range(n)]
    return [(10 * (i % 3) + 0.6 * halton(i + 1, 2), 5 * (i % 2) + 0.4 * halton(i + 1, 5)) for i in range(n)]


def many(job, f):
    """tessellations of up to 64 (200) cells, queries on a fine lattice"""
    import bayesbay as bb
    V1, V2 = bb.discretization.Voronoi1D, bb.discretization.Voronoi2D
    for n in [*range(7, 65, 3 if job.quick else 1)] + ([] if job.quick else [100, 150, 200]):
        sites = family(f, n)
        vals = [((i * 37) % 101) * 0.5 - 20 for i in range(n)]
        S, v = np.array(sites), np.array(vals)
        lo, hi = S.min(0) - 1, S.max(0) + 1
        g = np.array([(x, y) for x in np.linspace(lo[0], hi[0], 41) for y in np.linspace(lo[1], hi[1], 37)])
        d = np.hypot(*(g[:, None] - S[None]).transpose(2, 0, 1))
        job.states += 1
        job.transitions += len(g)
        job.traces += 1
        got = np.asarray(V2.interpolate_tessellation(S, v, g))
        ok = (got[:, None] == v[None]) & (d <= d.min(1)[:, None] * (1 + 1e-9) + 1e-12)
        if got.shape != (len(g),) or not ok.any(1).all():
            i = int(np.argmin(ok.any(1)))
            job.violation("many sites: not the value of the cell that contains the point", sites=sites, values=vals, query=g[i], value=got[i],
                          expected=v[d[i].argmin()])
        x = sorted({s[0] for s in sites})
        for arr, kind in ((x, "nuclei"), (np.diff([0.0, *np.cumsum([0.1 + abs(s[1]) for s in sites])]), "extents")):
            w = vals[:len(arr)]
            top = (x[-1] + 1) if kind == "nuclei" else sum(arr) * 1.1
            bot = (x[0] - 1) if kind == "nuclei" else 0.0
            qs = [bot + (top - bot) * i / 401 for i in range(402)]
            for q in (qs, qs[::-1], qs[1::2] + qs[::2]):
                job.transitions += len(q)
                got = V1.interpolate_tessellation(np.array(arr), np.array(w), np.array(q), input_type=kind)
                if not check(job, f"many {kind}", got, w, [near(arr, t) if kind == "nuclei" else layer(arr, t) for t in q],
                             dict(sites=list(arr), values=w, queries=q)):
                    break
    job.sample(cells=n, family=f)


THICK = [1.0, 0.3, 2.5, 0.05, 7.0]


def extents(job, k):
    import bayesbay as bb
    V = bb.discretization.Voronoi1D
    menus = [THICK] * k
    if k > 4:
        menus = [THICK[:3]] * k
    for e in itertools.product(*menus):
        job.states += 1
        cum = list(np.cumsum(e))
        qs = {0.0, cum[-1] + 5.0, cum[-1] + 0.01}
        top = 0.0
        for c in cum:
            qs |= {top + 0.25 * (c - top), c - 1e-6, c + 1e-6, (top + c) / 2}
            top = c
        vals = VALUES[:k] if job.states % 2 else VALUES[:k][::-1]
        for qq in orders(sorted(qs)):
            job.transitions += len(qq)
            job.traces += 1
            for last in ((e[-1],) if k > 3 else (e[-1], 0.0)):
                ext = list(e[:-1]) + [last]
                got = V.interpolate_tessellation(np.array(ext), np.array(vals), np.array(qq), input_type="extents")
                if not check(job, "extents", got, vals, [layer(ext, x) for x in qq], dict(extents=ext, values=vals, queries=qq)):
                    break
                if k < 3:
                    got = V.interpolate_tessellation(ext, vals, np.array(qq), input_type="extents")
                    check(job, "extents in lists", got, vals, [layer(ext, x) for x in qq], dict(extents=ext, values=vals, queries=qq))
    job.sample(extents=e, values=vals)
    try:
        V.interpolate_tessellation(np.array([1.0]), np.array([1.0]), np.array([1.0]), input_type="other")
    except ValueError:
        pass
    else:
        job.violation("an unknown type of input is not refused")


def sites2d(job, k):
    import bayesbay as bb
    V = bb.discretization.Voronoi2D
    qs = [(x, y) for x in (-1.0, 0.35, 1.3, 2.45, 5.0) for y in (-2.0, 0.8, 1.85, 3.1, 4.4)] + GRID2
    for off, sc in ((0.0, 1.0), (-30.0, 7.0), (1000.0, 0.5)):
        Q = [(off + sc * x, off + sc * y) for x, y in qs]
        for s in itertools.permutations(GRID2, k) if k < 4 else itertools.combinations(GRID2, k):
            s = [(off + sc * x, off + sc * y) for x, y in s]
            job.states += 1
            for vals in itertools.islice(perms(k, job.quick), 2 if job.quick else 12):
                for j, q in enumerate(orders(Q)):
                    if job.quick and j % 2:
                        continue
                    job.transitions += len(q)
                    job.traces += 1
                    arr, v = np.array(s), np.array(vals)
                    got = V.interpolate_tessellation(arr, v, np.array(q))
                    if not check(job, "2D sites", got, vals, [near(s, x) for x in q], dict(sites=s, values=vals, queries=q)):
                        break
                    if not (np.array_equal(arr, s) and np.array_equal(v, vals)):
                        job.violation("interpolation alters what it is given", sites=s)
    job.sample(sites=s, values=vals)


# ------------------------------------------------------------------ ensembles
ENS = {
    "nuclei": [((0.0, 1.0, 4.0), (1.0, 5.0, -2.0)), ((2.5,), (3.0,)), ((0.3, 9.0), (4.0, 0.5)), ((0.3, 1.1, 2.5, 7.25), (7.0, 6.0, -3.0, 2.0)),
               ((1.0, 4.5), (5.0, 5.0))],
    "extents": [((1.0, 2.0, 0.0), (1.0, 5.0, -2.0)), ((2.5,), (3.0,)), ((0.3, 4.0), (4.0, 0.5)), ((0.5, 1.5, 0.25, 3.0), (7.0, 6.0, -3.0, 2.0)),
                ((1.0, 4.5), (5.0, 5.0))],
    "2d": [(((0.1, 0.2), (2.0, 0.7), (1.1, 3.0)), (1.0, 5.0, -2.0)), (((3.3, 2.2),), (3.0,)), (((0.6, 1.4), (2.9, 3.6)), (4.0, 0.5)),
           (((0.1, 0.2), (3.3, 2.2), (0.6, 1.4), (2.9, 3.6)), (7.0, 6.0, -3.0, 2.0)), (((1.0, 1.0), (2.0, 2.0)), (5.0, 5.0))],
}
POS1 = [0.07, 0.61, 1.43, 2.31, 3.71, 6.9, 11.0]
POS2 = [(0.4, 0.3), (2.4, 0.9), (1.2, 2.2), (3.0, 3.0), (5.0, -1.0)]


def value_at(kind, cells, vals, q):
    c = layer(cells, q) if kind == "extents" else near(cells, q)
    assert len(c) == 1, (cells, q)
    return vals[c[0]]


def pct(xs, p):
    """percentile by linear interpolation between order statistics"""
    xs = sorted(xs)
    r = (len(xs) - 1) * p / 100
    i = min(int(r), len(xs) - 2) if len(xs) > 1 else 0
    return xs[0] if len(xs) == 1 else xs[i] + (r - i) * (xs[i + 1] - xs[i])


def selections(job, n):
    for r in range(1, 4 if job.quick else 5):
        yield from itertools.product(range(n), repeat=r)


def ensembles(job, kind):
    import bayesbay as bb
    V = bb.discretization.Voronoi2D if kind == "2d" else bb.discretization.Voronoi1D
    ens = ENS[kind]
    for sel in selections(job, len(ens)):
        cells = [ens[i][0] for i in sel]
        vals = [ens[i][1] for i in sel]
        base = POS2 if kind == "2d" else POS1
        for pos in (base, base[::-1], base[2:3], [base[3], base[0], base[3]]):
            for ps in ((10, 90), (0, 25, 100), (50,)):
                job.states += 1
                job.transitions += len(sel) * len(pos)
                job.traces += 1
                a = [np.array(c) if (i + len(sel)) % 2 else np.array(c) for i, c in enumerate(cells)]
                b = [np.array(v) for v in vals]
                kw = {} if kind == "2d" else dict(input_type=kind)
                st = V.get_tessellation_statistics(a, b, np.array(pos), percentiles=ps, **kw)
                x = [[value_at(kind, c, v, q) for q in pos] for c, v in zip(cells, vals)]
                col = list(zip(*x))
                n = len(sel)
                want = dict(mean=[sum(c) / n for c in col], median=[pct(c, 50) for c in col],
                            std=[math.sqrt(sum((y - sum(c) / n) ** 2 for y in c) / n) for c in col],
                            percentiles=[[pct(c, p) for c in col] for p in ps])
                ctx = dict(kind=kind, cells=cells, values=vals, positions=pos, percentiles=ps)
                if not set(want) <= set(st):
                    job.violation("statistics are missing", keys=list(st), **ctx)
                    return
                for k, w in want.items():
                    g = np.asarray(st[k])
                    if g.shape != np.shape(w) or np.abs(g - w).max() > 1e-9:
                        job.violation(f"the ensemble {k} is not that of the interpolated samples", got=g, expected=w, **ctx)
                        return
                if any(not np.array_equal(p, q) for p, q in zip(a, cells)) or any(not np.array_equal(p, q) for p, q in zip(b, vals)):
                    job.violation("statistics alter the samples", **ctx)
    job.sample(kind=kind, cells=cells, values=vals)


def density(job):
    import bayesbay as bb
    V = bb.discretization.Voronoi1D
    for kind in ("nuclei", "extents"):
        ens = ENS[kind]
        for sel in selections(job, len(ens)):
            cells, vals = [ens[i][0] for i in sel], [ens[i][1] for i in sel]
            for pb in (5, 9, np.array(POS1), np.array(POS1[::-1]), np.linspace(0.02, 8.03, 6)):
                for vb in (4, np.array([-10.0, -1.0, 2.2, 5.5, 9.0]), np.linspace(-10.2, 10.1, 8)):
                    job.states += 1
                    job.traces += 1
                    D, X, Y = V.get_tessellation_density([np.array(c) for c in cells], [np.array(v) for v in vals], pb, vb, kind)
                    ub = max(max(c) if kind == "nuclei" else sum(c) for c in cells)
                    pos = [float(p) for p in (np.linspace(0, ub, pb) if isinstance(pb, int) else pb)]
                    pts = []
                    tie = False
                    for c, v in zip(cells, vals):
                        for q in pos:
                            z = layer(c, q) if kind == "extents" else near(c, q)
                            tie = tie or len(z) > 1
                            pts.append((q, v[z[0]]))
                    if tie:
                        continue
                    job.transitions += len(pts)
                    ctx = dict(kind=kind, cells=cells, values=vals, position_bins=pb, value_bins=vb)
                    if D.shape != (len(X) - 1, len(Y) - 1) or (isinstance(vb, int) and len(Y) != vb + 1) or \
                            (not isinstance(vb, int) and not np.array_equal(Y, vb)) or (isinstance(pb, int) and len(X) != pb + 1):
                        job.violation("the density has not the requested bins", shape=D.shape, **ctx)
                        continue
                    if X[0] > min(pos) or X[-1] < max(pos):
                        job.violation("the density leaves out positions", edges=X, **ctx)
                        continue
                    want = np.zeros(D.shape)
                    edge = False
                    for q, v in pts:
                        i, e1 = bin_of(X, q)
                        j, e2 = bin_of(Y, v)
                        edge = edge or e1 or e2
                        if i is not None and j is not None:
                            want[i, j] += 1
                    if edge:
                        continue
                    want = want / want.sum() / np.outer(np.diff(X), np.diff(Y))
                    job.count("densities")
                    if np.abs(D - want).max() > 1e-9 * want.max():
                        job.violation("the density is not that of the interpolated samples", density=D, expected=want, **ctx)
                        return
    job.sample(cells=cells, values=vals)


def bin_of(edges, x):
    """(bin, whether x lies on an inner edge)"""
    n = len(edges) - 1
    tol = 1e-9 * (1 + abs(x))
    if abs(x - edges[0]) <= tol:
        return 0, False
    if abs(x - edges[-1]) <= tol:
        return n - 1, False
    for i in range(n):
        if edges[i] + tol < x < edges[i + 1] - tol:
            return i, False
    if edges[0] < x < edges[-1]:
        return None, True
    return None, False


# ------------------------------------------------------------------ the same cell everywhere
def agree(job):
    """the neighbouring cell used by births, from any tessellation, is the interpolated one"""
    import bayesbay as bb
    with rng.paused():
        v1 = bb.discretization.Voronoi1D("v", 0.0, 10.0, 1.0, parameters=[bb.prior.UniformPrior("p", 0, 1, 1)])
        v2 = bb.discretization.Voronoi2D("v", 0.0, 5.0, perturb_std=1.0, parameters=[bb.prior.UniformPrior("p", 0, 1, 1)])
    for k in range(1, 6 if job.quick else 8):
        for s in itertools.combinations(GRID, k):
            arr, idx = np.array(s), np.arange(float(k))
            for q in queries(s):
                job.states += 1
                job.transitions += 1
                i = v1.nearest_neighbour(arr, q)
                j = bb.discretization.Voronoi1D.interpolate_tessellation(arr, idx, np.array([q]))[0]
                want = near(s, q)
                if int(i) not in want or int(j) not in want:
                    job.violation("the neighbouring cell is not the nearest one", sites=s, query=q, neighbour=i, interpolated=j, nearest=want)
                elif len(want) > 1 and i != j:
                    job.count("ties_resolved_differently")
        if k > 5:
            continue
        for s in itertools.permutations(GRID2, k) if k < 4 else itertools.combinations(GRID2, k):
            arr, idx = np.array(s), np.arange(float(k))
            for q in [(x, y) for x in (-1.0, 0.35, 1.3, 2.45, 5.0) for y in (-2.0, 0.8, 1.85, 3.1, 4.4)] + GRID2:
                job.states += 1
                job.transitions += 1
                i = v2.nearest_neighbour(arr, np.array(q))
                j = bb.discretization.Voronoi2D.interpolate_tessellation(arr, idx, np.array([q]))[0]
                want = near(s, q)
                if int(i) not in want or int(j) not in want:
                    job.violation("the neighbouring cell is not the nearest one", sites=s, query=q, neighbour=i, interpolated=j, nearest=want)
    job.traces += job.states


def births(job):
    """births whose values are the neighbour's take the value interpolated at the new site"""
    import bayesbay as bb
    from mc.spec import Sp, Pr
    for kind in ("v1", "v2"):
        for k in range(1, 4 if job.quick else 5):
            with rng.paused():
                ps = [Pr("p", "U", -50.0, 50.0), Pr("q", "G", 0.0, 5.0)]
                sp = Sp("s", "v1", 1, 9, ps, lo=0.4, hi=7.6) if kind == "v1" else Sp("s", "v2", 1, 9, ps, lo=(0.4, 0.4), hi=(3.6, 3.6))
                space = sp.build()
            V = type(space)
            grid = [0.55, 1.2, 2.35, 4.1, 5.3, 7.5] if kind == "v1" else [(0.55, 1.2), (2.35, 0.6), (3.1, 3.3), (1.45, 2.15), (0.6, 3.4)]
            for s in itertools.combinations(grid, k):
                for shift in (0, 1):
                    vals = [float((7 * i + 3 * shift) % 11) for i in range(k)]
                    vals2 = [float((5 * i + 2 * shift) % 7 - 3) for i in range(k)]
                    st = sp.to_state([(x, (v, w)) for x, v, w in zip(s, vals, vals2)])
                    job.states += 1
                    for (new, ratio), w, trace in rng.explore(lambda: space.birth(st), radius=0):
                        job.transitions += 1
                        job.traces += 1
                        old = {tuple(np.atleast_1d(x)) for x in st["discretization"]}
                        fresh = [i for i, x in enumerate(new["discretization"]) if tuple(np.atleast_1d(x)) not in old]
                        if len(fresh) != 1:
                            continue
                        site = new["discretization"][fresh[0]]
                        q = float(site) if kind == "v1" else tuple(map(float, site))
                        want = near([float(x) for x in st["discretization"]] if kind == "v1" else [tuple(x) for x in st["discretization"]], q)
                        if len(want) > 1:
                            continue
                        for name in "pq":
                            g = V.interpolate_tessellation(np.array(st["discretization"]), np.array(st[name]), np.array([site]))[0]
                            if new[name][fresh[0]] != g or g != st[name][want[0]]:
                                job.violation("a birth starts from another cell than the interpolated one", kind=kind, sites=st["discretization"],
                                              values=st[name], new_site=q, newborn=new[name][fresh[0]], interpolated=g)
                                return


def samples(job):
    """models of real chains: statistics of the saved results are those of the models"""
    import bayesbay as bb
    from mc import history
    from mc.history import World
    for name in ("v1", "v1c", "v2", "poly"):
        for salt in range(6 if job.quick else 30):
            w, trace = history.single(lambda: run_world(name), (True, True, False), salt=salt)
            res = w.inv.get_results()
            V = bb.discretization.Voronoi1D if name[:2] == "v1" else bb.discretization.Voronoi2D
            pos = POS1 if name[:2] == "v1" else POS2
            n = len(res["s.p"])
            job.traces += 1
            job.states += n
            job.transitions += n * len(pos)
            st = V.get_tessellation_statistics(res["s.discretization"], res["s.p"], np.array(pos))
            for j, q in enumerate(pos):
                xs, tie = [], False
                for s, v in zip(res["s.discretization"], res["s.p"]):
                    c = near([float(x) for x in s] if name[:2] == "v1" else [tuple(x) for x in s], q)
                    tie = tie or len(c) > 1
                    xs.append(float(v[c[0]]))
                if not tie and (abs(st["mean"][j] - sum(xs) / n) > 1e-9 or abs(st["median"][j] - pct(xs, 50)) > 1e-9 or
                                abs(st["percentiles"][1][j] - pct(xs, 90)) > 1e-9):
                    job.violation("statistics of the results are not those of the models", model=name, position=q, values=xs, mean=st["mean"][j])


def run_world(name):
    from mc.history import World
    w = World(name)
    w.advance(8)
    return w
