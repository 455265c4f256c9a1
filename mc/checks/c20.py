"""C20: the geometry of 1D Voronoi cells."""
import itertools
import math
import numpy as np

BOUNDS = ("every sorted set of 1 to 6 (8 thorough) sites of an uneven lattice, every pair of bounds (given, absent as None, infinite), "
          "every fill value from a menu; exact reference geometry")
ASSUMPTIONS = ["distinct sites (coincident ones are also checked for extents)"]

GRID = [0.0, 0.3, 1.0, 1.1, 2.5, 4.0, 7.25, 9.0]


def jobs(tier):
    return [(f"extents-{k}", "extents", k) for k in range(1, 7 if tier == "quick" else 9)] + \
           [(f"interfaces-{k}", "interfaces", k) for k in range(2, 7 if tier == "quick" else 9)] + [("defaults", "defaults"), ("many", "many")]


def ref_extents(s, lb, ub, fill):
    n = len(s)
    mid = [(a + b) / 2 for a, b in zip(s, s[1:])]
    lo = [lb] + mid
    hi = mid + [ub]
    return [fill if math.isinf(l) or math.isinf(h) else h - l for l, h in zip(lo, hi)]


def _lists(k):
    yield from itertools.combinations(GRID, k)
    for off, sc in ((-5.0, 1.0), (100.0, 0.01), (0.0, 1000.0)):
        for t in itertools.combinations(GRID, k):
            yield tuple(off + sc * x for x in t)


def extents(job, k):
    import bayesbay as bb
    V = bb.discretization.Voronoi1D
    for s in _lists(k):
        job.states += 1
        lo, hi = s[0], s[-1]
        for lb, ub, fill in itertools.product([lo, lo - 0.5, lo - 20.0, None, -np.inf], [hi, hi + 0.25, hi + 30.0, None, np.inf],
                                              [0, -1.0, 99.5]):
            job.transitions += 1
            job.traces += 1
            arr = np.array(s)
            got = V.compute_cell_extents(arr, lb=lb, ub=ub, fill_value=fill)
            want = ref_extents(s, -np.inf if lb is None else lb, np.inf if ub is None else ub, fill)
            if np.shape(got) != (k,) or np.abs(np.asarray(got) - want).max() > 1e-9 * (1 + max(map(abs, s))):
                job.violation("cell extents are wrong", sites=s, lb=lb, ub=ub, fill_value=fill, extents=got, expected=want)
            if not np.array_equal(arr, s):
                job.violation("computing extents alters the sites", sites=s, now=arr)
            if lb is not None and ub is not None and not np.isinf(lb) and not np.isinf(ub) and abs(sum(got) - (ub - lb)) > 1e-8 * (1 + abs(ub - lb) + max(map(abs, s))):
                job.violation("cell extents do not fill the domain", sites=s, lb=lb, ub=ub, extents=got)
    job.sample(sites=s, lb=None, ub=hi, extents=V.compute_cell_extents(np.array(s), lb=None, ub=hi, fill_value=7.0))


def interfaces(job, k):
    import bayesbay as bb
    V = bb.discretization.Voronoi1D
    for s in _lists(k):
        job.states += 1
        mid = [(a + b) / 2 for a, b in zip(s, s[1:])]
        arr = np.array(s)
        tol = 1e-9 * (1 + max(map(abs, s)))
        got = V.compute_interface_positions(arr)
        if np.shape(got) != (k - 1,) or np.abs(got - mid).max() > tol:
            job.violation("interface positions are not the midpoints", sites=s, interfaces=got, expected=mid)
        for lb in (s[0] - 1.5, s[0], -50.0 + s[0]):
            for ub in (s[-1] + 2.0, None):
                job.transitions += 1
                job.traces += 1
                ext = V.compute_cell_extents(arr, lb=lb, ub=ub, fill_value=3.0)
                got = V.compute_interface_positions(ext, input_type="extents", lb_tessellation=lb)
                if np.shape(got) != (k - 1,) or np.abs(np.asarray(got) - mid).max() > 10 * tol + 1e-12 * abs(lb):
                    job.violation("interface positions from extents do not agree with those from sites", sites=s, lb=lb,
                                  interfaces=got, expected=mid)
    job.sample(sites=s, interfaces=mid)


def defaults(job):
    """default bounds: from zero to absent, filled with zero"""
    import bayesbay as bb
    V = bb.discretization.Voronoi1D
    for k in range(1, 5):
        for s in itertools.combinations(GRID[1:], k):
            job.states += 1
            job.transitions += 1
            job.traces += 1
            got = V.compute_cell_extents(np.array(s))
            want = ref_extents(s, 0, np.inf, 0)
            if np.abs(np.asarray(got) - want).max() > 1e-9:
                job.violation("cell extents with default bounds are wrong", sites=s, extents=got, expected=want)
    # coincident sites: the cells between them have no extent
    for s in itertools.combinations_with_replacement([0.5, 1.0, 3.0], 4):
        got = V.compute_cell_extents(np.array(s), lb=0.0, ub=4.0)
        if np.abs(np.asarray(got) - ref_extents(s, 0.0, 4.0, 0)).max() > 1e-9:
            job.violation("cell extents of coincident sites are wrong", sites=s, extents=got)


def many(job):
    """many cells, sites of models produced by the library"""
    import bayesbay as bb
    V = bb.discretization.Voronoi1D
    for n in (10, 57, 300):
        s = np.cumsum(0.1 + np.arange(n) % 7 * 0.37)
        for lb, ub in itertools.product((0.0, None), (s[-1] + 1, None)):
            job.states += 1
            job.transitions += 1
            job.traces += 1
            got = V.compute_cell_extents(s, lb=lb, ub=ub, fill_value=-7.0)
            want = ref_extents(list(s), -np.inf if lb is None else lb, np.inf if ub is None else ub, -7.0)
            if np.abs(np.asarray(got) - want).max() > 1e-8:
                job.violation("cell extents of many cells are wrong", n=n, lb=lb, ub=ub)
