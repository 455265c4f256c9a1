"""C23: after any sequence of reconfigurations the chains use the current targets, moves, weights and likelihood."""
import itertools
import math

import numpy as np

from mc import history, kernel, rng
from mc.spec import Malformed, Model, Noise, Sp
from .common import prior

BOUNDS = ("every sequence of up to 3 (thorough: 4) valid operations out of 11, one further invalid request out of 15 at every position of "
          "the sequences of up to 1 (thorough: 2) others; after each sequence one whole iteration of every chain from the listed models is "
          "explored completely and compared with an inversion configured this way from the start, then a short run")
ASSUMPTIONS = ["random draws are enumerated on a lattice and weighted by their density",
               "adding targets after replacing the perturbation functions brings the default ones back (as implemented)"]

DOBS = dict(t0=[0.4, -0.2], h1=[0.1, 0.6, -0.3], k2=[-0.3, 0.5], h3=[0.2, 0.3, 0.1, -0.4], h4=[0.2, 0.1], k5=[0.7])
NOISE = dict(h1=Noise("h1", 0.5, 2.5, n=3, dobs=DOBS["h1"]),
             h3=Noise("h3", 0.5, 2.5, 1.2, correlated=True, clo=0.25, chi=0.375, n=4, dobs=DOBS["h3"]),
             h4=Noise("h4", 1.0, 3.0, 1.4, n=2, dobs=DOBS["h4"]))
CINV = dict(t0=1.3, k2=np.diag([0.5, 0.8]), k5=2.0)


def space(kind):
    if kind == "ps":
        return Sp("s", "ps", 1, 2, [prior("p", "U", 0, 1.0)])
    return Sp("s", "v1", 1, 2, [prior("p", "U", 0, 1.0)], lo=0.5, hi=3.5, birth="prior")


def feature(name, dims, scale=1.0):
    """the reference forward function"""
    a = sum(v[0] * (1 + 0.2 * (s or 0.0)) for s, v in dims)
    b = sum(v[0] ** 2 for _, v in dims) + 0.5 * len(dims)
    j = list(DOBS).index(name) + 1
    return np.array([0.07 * j * a, 0.05 * b, 0.04 * a - 0.03 * j * b, 0.02 * a * b])[:len(DOBS[name])] * scale


CALLS = set()


def observed(name, dims, scale=1.0):
    CALLS.add((name, dims))
    return feature(name, dims, scale)


class Conf:
    """reference configuration"""

    def __init__(self, kind):
        self.kind = kind
        self.sp = space(kind)
        self.targets = ["t0"]
        self.funcs = None       # None: the defaults; else (number of targets then, indices, weights)
        self.n_chains = 2

    @property
    def model(self):
        return Model([self.sp], [NOISE[t] for t in self.targets if t in NOISE])

    def loglike(self, c):
        out, noise = 0.0, dict(zip([t for t in self.targets if t in NOISE], c[1:]))
        for t in self.targets:
            r = feature(t, c[0]) - np.array(DOBS[t])
            if t in NOISE:
                rho = noise[t][1] or 0.0
                C = noise[t][0] ** 2 * np.array([[rho ** abs(i - j) for j in range(len(r))] for i in range(len(r))])
                out += -0.5 * (r @ np.linalg.solve(C, r) + np.linalg.slogdet(C)[1])
            else:
                out += -0.5 * r @ (CINV[t] * np.eye(len(r)) @ r)
        return out

    def fresh_funcs(self):
        """(perturbation function, weight) pairs of an inversion with this configuration from the start"""
        import bayesbay as bb
        par = bb.parameterization.Parameterization([self.sp.build()])
        ll = make_ll(self, self.targets)
        fs = default_funcs(par, ll)
        if self.funcs is None:
            return list(zip(fs, list(par.perturbation_weights) + list(ll.perturbation_weights)))
        n, names, w = self.funcs
        full = dict(pick_funcs(par, make_ll(self, self.targets[:n]), self.sp))
        return [(full[k], x) for k, x in zip(names, w)]


def target(name):
    import bayesbay as bb
    if name in NOISE:
        return NOISE[name].build()
    return bb.likelihood.Target(name, np.array(DOBS[name]), covariance_mat_inv=CINV[name])


def fwd(conf, name, form="plain"):
    sp = conf.sp
    if form == "args":
        return (lambda s, k: observed(name, sp.from_state(s["s"]), k) / 2.0, [2.0])
    if form == "kwargs":
        return (lambda s, k=0.0: observed(name, sp.from_state(s["s"]), k) / 4.0, {"k": 4.0})
    return lambda s: observed(name, sp.from_state(s["s"]))


def make_ll(conf, names):
    import bayesbay as bb
    return bb.likelihood.LogLikelihood([target(t) for t in names], [fwd(conf, t) for t in names])


def default_funcs(par, ll):
    return list(par.perturbation_funcs) + list(ll.perturbation_funcs)


def toggler(sp):
    """a perturbation function of the user: one value of the first dimension, up or down"""
    def up_or_down(state):
        import random
        new = state.copy()
        ps = new["s"]
        v = np.array(ps["p"])
        v[0] += random.choice([1.0, -1.0])
        if not -0.5 <= v[0] <= 3.5:
            return state, -math.inf
        ps.set_param_values("p", v)
        return new, 0.0
    return up_or_down


def pick_funcs(par, ll, sp):
    """all functions a user could choose from, by name"""
    import bayesbay as bb
    ps = par.parameter_spaces["s"]
    P = bb.perturbations
    return [("space", par.perturbation_funcs[0]), ("birth", P.BirthPerturbation(ps)), ("death", P.DeathPerturbation(ps)),
            ("user", toggler(sp))] + [(f"noise", f) for f in ll.perturbation_funcs]


# ------------------------------------------------------------------ operations: op(job, inv, conf) changes both
def _add(*names, forms=None, bare=False):
    def op(job, inv, conf):
        forms_ = forms or ["plain"] * len(names)
        ts, fs = [target(t) for t in names], [fwd(conf, t, f) for t, f in zip(names, forms_)]
        if bare:
            ts, fs = ts[0], fs[0]
        if any(t in conf.targets for t in names):
            return refused(job, inv, conf, lambda: inv.log_likelihood.add_targets(ts, fs), f"adding {names} again")
        inv.log_likelihood.add_targets(ts, fs)
        conf.targets += names
        conf.funcs = None
    return op


def _set(names, weights, equal=None, none=False):
    def op(job, inv, conf):
        full = dict(pick_funcs(inv.parameterization, inv.log_likelihood, conf.sp))
        ns = [n for n in names if n in full]
        w = [x for n, x in zip(names, weights) if n in full]
        given = list(w)
        inv.set_perturbation_funcs([full[n] for n in ns], None if none else given)
        if given != w:
            job.violation("replacing perturbation functions modifies the weights it was given", weights=w, now=given)
        if none:
            w = [1] * len(w)
        elif equal:
            w[ns.index("death")] = w[ns.index("birth")]
        conf.funcs = (len(conf.targets), ns, w)
    return op


def _run(job, inv, conf):
    import bayesbay as bb
    res = history.single(lambda: inv.run(bb.samplers.VanillaSampler(), n_iterations=2, save_every=1, verbose=False,
                                         parallel_config=dict(n_jobs=1)), (True, False), salt=len(conf.targets))
    assert res is not None


def _worker(job, inv, conf):
    """what a run in worker processes does to the chains"""
    import cloudpickle
    inv.chains = [cloudpickle.loads(cloudpickle.dumps(c)) for c in inv.chains]


def _fewer(job, inv, conf):
    inv.chains = list(inv.chains)[-1:]
    conf.n_chains = 1


def _more(job, inv, conf):
    import bayesbay as bb
    import random
    with rng.paused():
        random.seed(21 + len(inv.chains)), np.random.seed(21 + len(inv.chains))
        new = bb.MarkovChain("new", inv.parameterization, inv.log_likelihood, inv.perturbation_funcs, inv.perturbation_weights)
    inv.chains = list(inv.chains) + [new]
    conf.n_chains += 1


VALID = {
    "add-h1": _add("h1", bare=True), "add-k2": _add("k2", forms=["args"]), "add-h3": _add("h3", forms=["kwargs"]),
    "add-h4-k5": _add("h4", "k5"),
    "set": _set(["user", "death", "noise", "birth", "space"], [2.0, 1, 4, 1, 3]),
    "set-unequal": _set(["birth", "user", "death", "space"], [3, 1.0, 1, 2], equal=True),
    "set-user": _set(["user", "space"], [1, 1], none=True),
    "run": _run, "worker": _worker, "fewer-chains": _fewer, "more-chains": _more,
}


def refused(job, inv, conf, f, what):
    try:
        f()
    except Exception:
        return
    job.violation("an invalid request is accepted: " + what, targets=conf.targets)


def _bad(what, f):
    def op(job, inv, conf):
        full = dict(pick_funcs(inv.parameterization, inv.log_likelihood, conf.sp))
        refused(job, inv, conf, lambda: f(inv, conf, full), what)
    return op


def _k(name):
    import bayesbay as bb
    return bb.likelihood.Target(name, np.zeros(2), covariance_mat_inv=1.0)


def _h(name):
    import bayesbay as bb
    return bb.likelihood.Target(name, np.zeros(2))


F = lambda s: np.zeros(2)
INVALID = {
    "dup-existing": _bad("a target with the name of another", lambda i, c, f: i.log_likelihood.add_targets(_k("t0"), F)),
    "dup-new": _bad("two new targets of the same name", lambda i, c, f: i.log_likelihood.add_targets([_h("n"), _h("n")], [F, F])),
    "dup-second": _bad("a new target and one with the name of another",
                       lambda i, c, f: i.log_likelihood.add_targets([_h("n"), _k("t0")], [F, F])),
    "too-many-functions": _bad("more functions than targets", lambda i, c, f: i.log_likelihood.add_targets([_h("n")], [F, F])),
    "too-few-functions": _bad("fewer functions than targets", lambda i, c, f: i.log_likelihood.add_targets([_h("n"), _k("m")], F)),
    "no-function": _bad("a target without a function", lambda i, c, f: i.log_likelihood.add_targets([_h("n")])),
    "no-target": _bad("a function that is no target", lambda i, c, f: i.log_likelihood.add_targets([_h("n"), "m"], [F, F])),
    "no-callable": _bad("a forward function that is not one", lambda i, c, f: i.log_likelihood.add_targets([_h("n"), _k("m")], [F, 3.0])),
    "bad-args": _bad("forward function arguments of a wrong type",
                     lambda i, c, f: i.log_likelihood.add_targets([_h("n"), _k("m")], [F, (F, 3.0)])),
    "birth-only": _bad("a birth without its death", lambda i, c, f: i.set_perturbation_funcs([f["user"], f["birth"]], [5, 7])),
    "death-only": _bad("a death without its birth", lambda i, c, f: i.set_perturbation_funcs([f["death"], f["user"]])),
    "two-births": _bad("two births", lambda i, c, f: i.set_perturbation_funcs([f["birth"], f["death"], f["birth"]], [1, 1, 1])),
    "weights": _bad("weights of another length", lambda i, c, f: i.set_perturbation_funcs([f["space"], f["user"]], [5, 7, 9])),
    "chains": _bad("chains that are none", lambda i, c, f: setattr(i, "chains", [i.chains[0], "chain"])),
    "chains-tuple": _bad("chains that are no list", lambda i, c, f: setattr(i, "chains", i.chains[0])),
}


def build(kind):
    import bayesbay as bb
    conf = Conf(kind)
    with rng.paused():
        par = bb.parameterization.Parameterization([conf.sp.build()])
        inv = bb.BayesianInversion(par, make_ll(conf, ["t0"]), n_chains=2)
    return inv, conf


def judge(job, inv, conf, ctx):
    m = conf.model
    if not job.require(len(inv.chains) == conf.n_chains, "the number of chains is another one", chains=len(inv.chains), **ctx):
        return
    with rng.paused():
        ref_funcs = conf.fresh_funcs()
    for ic, ch in enumerate(inv.chains):
        try:
            m.from_state(ch.current_state)
        except Malformed as e:
            job.violation(f"after reconfiguring, the model of a chain is not one of the configured inversion: {e}", chain=ic, **ctx)
            return
    # a short run: samples, predictions
    start = [ch.statistics["n_proposed_models_total"] for ch in inv.chains]
    before = [{k: len(v) for k, v in ch.saved_states.items()} for ch in inv.chains]
    CALLS.clear()
    _run(job, inv, conf)
    for ic, ch in enumerate(inv.chains):
        job.require(ch.statistics["n_proposed_models_total"] == start[ic] + 2, "a run advances a chain by another number of iterations",
                    chain=ic, **ctx)
        st = ch.current_state
        c = m.from_state(st)
        want = history.saved_form(m, st)
        pred = {f"{t}.dpred": history.deep(feature(t, c[0])) for t in conf.targets}
        saved = ch.saved_states
        for k, v in {**want, **pred}.items():
            new = saved[k][before[ic].get(k, 0):] if k in saved else []
            # (no prediction is there for a model that was never evaluated)
            due = k in pred and (k[:2], c[0]) in CALLS
            if (k in want and len(new) != 2) or (new and not close(history.deep(new[-1]), v)) or (due and not new):
                job.violation("after reconfiguring, the samples of a run are not the models with their predictions", key=k, chain=ic,
                              saved=new, expected=v, **ctx)
                return
    # one iteration, completely
    noises = [(1.0, n.clo if n.correlated else None) for n in m.noises]
    up = [(2.0, n.chi if n.correlated else None) for n in m.noises]
    if conf.kind == "ps":
        canon = [(((None, (1.0,)), (None, (3.0,))),) + tuple(noises), (((None, (0.0,)),),) + tuple(up)]
    else:
        canon = [(((1.0, (1.0,)), (3.0, (2.0,))),) + tuple(up)]
    wtot = sum(w for _, w in ref_funcs)
    for ic, ch in enumerate(inv.chains):
        n0 = len(job.violations)
        edges = kernel.check_chain(job, m, ch, conf.loglike, canon, 1, 1.0, order_limit=1, kernel=False)
        for c in canon:
            want = {}
            for f, w in ref_funcs:
                for i, res, p, trace in kernel.explore_state(m, [f], lambda: m.to_state(c), 1):
                    if res is rng.Truncated or res[1] == -math.inf:
                        continue
                    c2 = m.from_state(res[0])
                    if c2 != c:
                        want[c2] = want.get(c2, 0.0) + p * w / wtot
            have = {k: q for k, (lab, q, la) in edges[c].items()}
            for c2 in set(want) | set(have):
                if abs(want.get(c2, 0.0) - have.get(c2, 0.0)) > 1e-9 * (1e-3 + want.get(c2, 0.0)):
                    if want.get(c2, 0) and m.logpi(c2) == -math.inf:
                        continue
                    job.violation("after reconfiguring, a chain proposes a model with another probability than an inversion configured "
                                  "this way from the start", chain=ic, model=c, to=c2, probability=have.get(c2, 0.0),
                                  expected=want.get(c2, 0.0), **ctx)
                    return
        if len(job.violations) > n0:
            job.violations[-1]["data"].update(sequence=ctx["sequence"], chain=ic)
            return


def close(a, b):
    if isinstance(a, (tuple, list)):
        return isinstance(b, (tuple, list)) and len(a) == len(b) and all(close(x, y) for x, y in zip(a, b))
    if isinstance(a, float) or isinstance(b, float):
        return abs(a - b) <= 1e-12 * (1 + abs(b))
    return a == b


def sequences(tier):
    q = tier == "quick"
    d = 3 if q else 4
    out = [s for n in range(d + 1) for s in itertools.product(VALID, repeat=n)]
    # an invalid request anywhere
    for n in range(d - 1):
        for s in itertools.product(VALID, repeat=n):
            for i in range(n + 1):
                for b in INVALID:
                    out.append(s[:i] + (b,) + s[i:])
    if q:
        for o in ("worker", "run", "more-chains"):
            for b in INVALID:
                out.append(("set", b, o)), out.append(("add-h3", b, o))
    return list(dict.fromkeys(out))


PARTS = 16


def jobs(tier):
    out = [(f"sequences-{i}", "run", i) for i in range(PARTS)]
    out += [("worker-processes", "processes"), ("construction", "construction"), ("base", "base")]
    return out


def run(job, part):
    seqs = sequences(job.tier)
    for k in range(part, len(seqs), PARTS):
        kind = "ps" if k % 3 else "v1"
        inv, conf = build(kind)
        ops = {**VALID, **INVALID}
        ctx = dict(sequence=seqs[k], space=kind)
        n0 = len(job.violations)
        for o in seqs[k]:
            with np.errstate(all="ignore"):
                ops[o](job, inv, conf)
            job.count("operations")
        if len(job.violations) == n0:
            judge(job, inv, conf, ctx)
        else:
            job.violations[-1]["data"].update(sequence=seqs[k], space=kind)
        job.count("sequences")


def processes(job):
    """a run in real worker processes in between"""
    import bayesbay as bb
    for seq in (("add-h1", "P", "add-k2"), ("P", "add-h3", "P"), ("set", "P", "set-unequal"), ("P", "fewer-chains", "add-h4-k5")):
        inv, conf = build("ps")
        for o in seq:
            if o == "P":
                with rng.paused():
                    inv.run(n_iterations=2, save_every=1, verbose=False, parallel_config=dict(n_jobs=2))
            else:
                VALID[o](job, inv, conf)
        judge(job, inv, conf, dict(sequence=seq, space="ps"))


def construction(job):
    """invalid requests at construction are refused, valid ones are not"""
    import bayesbay as bb
    P, D, L = bb.parameterization, bb.discretization, bb.likelihood
    u = lambda n: bb.prior.UniformPrior(n, 0, 1, 0.1)
    ps = lambda n, *p: P.ParameterSpace(name=n, n_dimensions_max=3, parameters=list(p))
    v1 = lambda n, *p: D.Voronoi1D(name=n, vmin=0, vmax=1, perturb_std=0.1, n_dimensions_max=3, parameters=list(p))
    v2 = lambda n, *p: D.Voronoi2D(name=n, vmin=0, vmax=1, perturb_std=0.1, n_dimensions_max=3, parameters=list(p))
    makers = [ps, v1, v2]
    good, bad = [], []
    for a, b in itertools.product(makers, repeat=2):
        good.append(lambda a=a, b=b: P.Parameterization([a("x", u("p")), b("y", u("p"))]))
        good.append(lambda a=a, b=b: P.Parameterization([a("x", b("y", u("p")), u("p"))]))
        bad.append(("two spaces of one name", lambda a=a, b=b: P.Parameterization([a("x", u("p")), b("x", u("q"))])))
        bad.append(("a nested space with the name of another", lambda a=a, b=b: P.Parameterization([a("x", u("p")), b("y", a("x", u("q")))])))
        bad.append(("a nested space with the name of its parent", lambda a=a, b=b: P.Parameterization(a("x", b("x", u("q"))))))
        bad.append(("two nested spaces of one name in different parents",
                    lambda a=a, b=b: P.Parameterization([a("x", a("z", u("p"))), b("y", b("z", u("q")))])))
        bad.append(("a parameter with the name of a nested space", lambda a=a, b=b: P.Parameterization(a("x", u("y"), b("y", u("q"))))))
    for a in makers:
        shared = lambda a=a: (lambda z: P.Parameterization([a("x", z), a("y", z)]))(a("z", u("p")))
        good.append(shared)
        bad.append(("two parameters of one name", lambda a=a: P.Parameterization(a("x", u("p"), u("q"), u("p")))))
        bad.append(("two parameters of one name in a nested space", lambda a=a: P.Parameterization(ps("o", a("x", u("p"), u("p"))))))
    t = lambda n: L.Target(n, np.zeros(2), covariance_mat_inv=1.0)
    for k in (1, 2, 3):
        good.append(lambda k=k: L.LogLikelihood([t(f"t{i}") for i in range(k)], [F] * k))
        bad.append(("fewer functions than targets", lambda k=k: L.LogLikelihood([t(f"t{i}") for i in range(k + 1)], [F] * k)))
        bad.append(("more functions than targets", lambda k=k: L.LogLikelihood([t(f"t{i}") for i in range(k)], [F] * (k + 1))))
        bad.append(("two targets of one name", lambda k=k: L.LogLikelihood([t("t0")] + [t(f"t{i}") for i in range(k)], [F] * (k + 1))))
    good += [lambda: L.LogLikelihood(t("a"), F), lambda: L.LogLikelihood(log_like_func=F), lambda: L.LogLikelihood(log_like_ratio_func=F)]
    bad += [("neither targets nor functions", lambda: L.LogLikelihood()),
            ("something that is no target", lambda: L.LogLikelihood(["a"], [F])),
            ("a forward function that is not one", lambda: L.LogLikelihood([t("a")], [3.0])),
            ("targets without functions", lambda: L.LogLikelihood([t("a")])),
            ("standard deviations in the wrong order", lambda: L.Target("a", np.zeros(2), std_min=2, std_max=1)),
            ("negative standard deviations", lambda: L.Target("a", np.zeros(2), std_min=-1, std_max=1)),
            ("correlations in the wrong order", lambda: L.Target("a", np.zeros(2), noise_is_correlated=True, correlation_min=.5, correlation_max=.1)),
            ("a correlation above one", lambda: L.Target("a", np.zeros(2), noise_is_correlated=True, correlation_max=1.5))]
    par = lambda: P.Parameterization(ps("x", u("p")))
    bad += [("a likelihood that is none", lambda: bb.BayesianInversion(par(), F, n_chains=2)),
            ("fewer starting models than chains", lambda: bb.BaseBayesianInversion([0.0], [F], log_like_func=F, n_chains=2)),
            ("more starting models than chains", lambda: bb.BaseBayesianInversion([0.0] * 3, [F], log_like_func=F, n_chains=2)),
            ("weights of another length", lambda: bb.BaseBayesianInversion([0.0] * 2, [F], [1, 2], log_like_func=F, n_chains=2)),
            ("no likelihood", lambda: bb.BaseBayesianInversion([0.0] * 2, [F], n_chains=2))]
    good += [lambda: bb.BayesianInversion(par(), L.LogLikelihood(t("a"), F), n_chains=2),
             lambda: bb.BaseBayesianInversion([0.0] * 2, [F, F], [1, 2], log_like_func=F, n_chains=2)]
    with rng.paused():
        for i, f in enumerate(good):
            job.states += 1
            try:
                f()
            except Exception as e:
                job.violation(f"a valid configuration is refused: {type(e).__name__}: {e}", number=i)
        for what, f in bad:
            job.states += 1
            job.transitions += 1
            try:
                f()
            except Exception:
                continue
            job.violation("an invalid configuration is accepted: " + what)


def base(job):
    """the low-level interface: perturbation functions and weights replaced between runs"""
    import bayesbay as bb
    ops = dict(A=([1.0, -1.0], [1, 3]), B=([2.0], None), C=([1.0, 2.0, 3.0], (2, 1, 1)))
    depth = 3 if job.quick else 5
    for n in range(depth + 1):
        for seq in itertools.product(list(ops) + ["bad", "run", "worker", "fewer"], repeat=n):
            steps, weights = [1.0], [1]
            mk = lambda ds: [lambda x, d=d: (x + d, 0.0) for d in ds]
            inv = bb.BaseBayesianInversion([0.0, 10.0], mk(steps), log_like_func=lambda x: -0.1 * x * x, n_chains=2)
            for o in seq:
                if o == "bad":
                    try:
                        inv.set_perturbation_funcs(mk([7.0, 8.0]), [1])
                    except Exception:
                        pass
                    else:
                        job.violation("an invalid request is accepted: weights of another length", sequence=seq)
                elif o == "run":
                    history.single(lambda: inv.run(n_iterations=1, verbose=False, parallel_config=dict(n_jobs=1)), (True,))
                elif o == "worker":
                    _worker(job, inv, None)
                elif o == "fewer":
                    inv.chains = list(inv.chains)[:1]
                else:
                    steps, weights = ops[o]
                    inv.set_perturbation_funcs(mk(steps), weights)
                    weights = weights or [1] * len(steps)
            job.states += 1
            for ch in inv.chains:
                x0, got = 3.0, {}

                def one():
                    ch.current_state = x0
                    ch.advance_chain(1, verbose=False)
                    return ch.current_state - x0
                for d, w, trace in rng.explore(one, unit=[1e-300]):
                    job.transitions += 1
                    got[d] = got.get(d, 0.0) + w
                want = {d: w / sum(weights) for d, w in zip(steps, weights)}
                if set(got) != set(want) or any(abs(got[k] - want[k]) > 1e-12 for k in want):
                    job.violation("a chain uses other perturbation functions or weights than the present ones", sequence=seq,
                                  probabilities=got, expected=want)
                job.traces += 1
