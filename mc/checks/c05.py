"""C05: moves on unknown data noise."""
import itertools
from mc import kernel
from mc.spec import Sp, Model, Noise
from .common import prior

BOUNDS = ("all lattice values of the noise parameters between their bounds for up to three targets, every perturbation on the "
          "lattice (it reaches beyond the bounds from every value)")
ASSUMPTIONS = ["random draws are enumerated on a lattice and weighted by their density"]


def jobs(tier):
    q = tier == "quick"
    out = [("one", "run", [Noise("d")], False, 5, False),
           ("one-wide", "run", [Noise("d", 1.0, 6.0, 2.0)], False, 6, False),
           ("one-at-bounds", "run", [Noise("d", 1.0, 3.0, 1.0)], False, 3, False),
           ("correlated", "run", [Noise("d", correlated=True)], False, 2, False),
           ("correlated-bounds", "run", [Noise("d", 1.0, 3.0, correlated=True, clo=0.25, chi=0.75)], False, 4, False),
           ("two", "run", [Noise("d"), Noise("e", 1.0, 3.0, 1.5)], False, 3, False),
           ("two-one-correlated", "run", [Noise("d", 0.5, 3.5), Noise("e", 1.0, 3.0, 1.5, True, 0.25, 0.75, 0.25)], False, 2, False),
           ("mixed-with-known", "run", [Noise("d"), Noise("e", 1.0, 3.0, 1.5)], True, 3, False),
           ("with-spaces", "run", [Noise("d", 0.5, 3.5)], True, 3, True)]
    if not q:
        out += [("three", "run", [Noise("d", 0.5, 3.5), Noise("e", 1.0, 3.0, 1.5), Noise("f", 0.5, 2.5, 0.7)], True, 3, False),
                ("two-correlated", "run", [Noise("d", 0.5, 2.5, 1.0, True, 0.25, 0.75), Noise("e", 1.0, 3.0, 1.5, True, 0.25, 0.5, 0.25)], False, 2, False),
                ("correlated-full", "run", [Noise("d", correlated=True)], False, 6, False)]
    return out


def run(job, noises, known, radius, spaces):
    import bayesbay as bb
    import numpy as np
    targets = [n.build() for n in noises]
    if known:
        targets.insert(1, bb.likelihood.Target("k", np.zeros(2), covariance_mat_inv=4.0))
    ll = bb.likelihood.LogLikelihood(targets, [lambda s: np.zeros(2)] * len(targets))
    sp = []
    if spaces:
        sp = [Sp("a", "ps", 1, 2, [prior("x", "U")]), Sp("b", "v1", 1, 2, [prior("y", "G")])]
    m = Model(sp, noises)
    vals = []
    for n in noises:
        std = [float(x) for x in range(1, int(n.hi) + 1) if n.lo <= x <= n.hi]
        corr = [i / 16 for i in range(17) if n.clo <= i / 16 <= n.chi] if n.correlated else [None]
        vals.append([(a, b) for a in std for b in corr])
    canon = list(itertools.product(*vals))
    if spaces:
        ca = [((None, (0.0,)),), ((None, (0.0,)), (None, (2.0,)))]
        cb = [((1.0, (0.5,)), (3.0, (1.0,)))]
        canon = [(x, y) + t for x in ca for y in cb for t in canon]
    if job.quick and len(canon) > 60:
        canon = canon[::len(canon) // 60 + 1] + canon[:4] + canon[-4:]
        canon = list(dict.fromkeys(canon))
    funcs = ll.perturbation_funcs
    job.require(len(funcs) >= 1, "no move on unknown noise")
    before = repr([vars(t) for t in targets])
    # the perturbations of the likelihood only move the noise
    kernel.check_kernel(job, m, funcs, canon, radius, labels=None, order_limit=1, expect=False)
    _expect(job, m, funcs, canon, radius)
    job.require(repr([vars(t) for t in targets]) == before, "the move changes the target")


def _expect(job, m, funcs, canon, radius):
    """every perturbation inside the bounds is proposed"""
    nm = Model([], m.noises)
    ns = len(m.spaces)
    for c in canon:
        seen = set()
        for i, res, w, trace in kernel.explore_state(m, funcs, lambda: m.to_state(c), radius):
            if res is not kernel.rng.Truncated and res[1] != float("-inf"):
                seen.add(m.from_state(res[0]))
        for n2 in nm.expected(c[ns:], radius):
            if c[:ns] + n2 not in seen:
                job.violation("a noise move inside the bounds is never proposed", model=c, to=n2)
