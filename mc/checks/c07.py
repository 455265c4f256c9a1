"""C07: the acceptance rule, and the choice of perturbations by weight."""
import itertools
import math
from mc import rng

BOUNDS = ("every combination of reported log ratio, log likelihoods, temperature and likelihood form from small menus, with the "
          "acceptance variate just below and just above the expected probability; every weight list")
ASSUMPTIONS = ["the unit variate drawn after the proposal decides about acceptance"]

RS = [-math.inf, -50.0, -2.0, -0.3, 0.0, 0.7, 30.0]
LS = [-300.0, -3.25, -3.0, 0.0, 1.5, 40.0]
TS = [1, 1.0, 1.5, 5, 20.0]


def jobs(tier):
    out = [(f"rule-{form}", "rule", form, tier) for form in ("func", "ratio", "likelihood", "func-args", "chain")]
    out += [("weights", "weights", tier), ("targets", "targets"), ("sequence", "sequence", tier)]
    return out


class M:
    """a model: an opaque object with a log likelihood"""

    def __init__(self, ll):
        self.ll = ll


def rule(job, form, tier):
    import bayesbay as bb
    evaluated = []
    proposal = {}

    def func(m, *a, **k):
        evaluated.append(m)
        return m.ll

    def ratio(m1, m2, *a, **k):
        evaluated.extend([m1, m2])
        return m2.ll - m1.ll

    def perturb(m):
        proposal["called"] = True
        return proposal["new"], proposal["r"]

    kw = {}
    if form == "func":
        kw = dict(log_like_func=func)
    elif form == "func-args":
        kw = dict(log_like_func=(func, [1], {"x": 2}))
    elif form == "ratio":
        kw = dict(log_like_ratio_func=ratio)
    elif form == "likelihood":
        kw = dict(log_like_ratio_func=bb.likelihood.LogLikelihood(log_like_func=func))
    if form == "chain":
        chain = bb.BaseMarkovChain(id=0, starting_state=M(0), perturbation_funcs=[perturb], perturbation_weights=[1],
                                   log_likelihood=bb.likelihood.LogLikelihood(log_like_ratio_func=ratio))
        # (a plain function given to a chain directly is called as it is)
    else:
        inv = bb.BaseBayesianInversion(walkers_starting_states=[M(0)], perturbation_funcs=[perturb], n_chains=1, **kw)
        chain = inv.chains[0]
    rs, ls, ts = RS, LS, TS
    if tier == "thorough":
        rs = sorted(set(RS + [-700.0, -10.0, -1.0, -0.05, 0.05, 1.0, 3.0]))
        ls = sorted(set(LS + [-1000.0, -50.0, -1.0, 0.01, 3.0]))
        ts = TS + [1.1, 2, 3.0, 100]
    for r, l0, l1, T in itertools.product(rs, ls, ls, ts):
        job.states += 1
        la = min(0.0, r + (l1 - l0) / T) if r > -math.inf else -math.inf
        if la == -math.inf:
            menu = [1e-300, 0.3, 1 - 1e-12]
        elif la < -680:
            menu = [1e-290]
        elif la < 0:
            a = math.exp(la)
            menu = [a * (1 - 1e-9), a * (1 + 1e-9)]
            if a > 1e-5:
                menu += [a / 2, min(1 - 1e-12, (1 + a) / 2)]
        else:
            menu = [1e-12, 0.5, 1 - 1e-12]
        old, new = M(l0), M(l1)

        def once():
            proposal.update(new=new, r=r, called=False)
            evaluated.clear()
            chain.current_state = old
            chain.temperature = T
            chain.advance_chain(1, verbose=False, save_every=10 ** 9)
            return chain.current_state, list(evaluated)

        ex = rng.Explorer(unit=lambda k: [(u, 1.0) for u in menu] if proposal["called"] else [(0.5, 1.0)])
        for (cur, ev), w, trace in ex.run_all(once):
            job.transitions += 1
            job.traces += 1
            us = [x[1] for x in trace if x[0] == "unit"]
            u = us[-1] if us else 0.5
            want = new if la == 0 or (la > -math.inf and math.log(u) < la) else old
            ctx = dict(form=form, log_ratio=r, l_old=l0, l_new=l1, T=T, u=u)
            job.sample(accepted=want is new, **ctx)
            if cur is not want:
                job.violation("a proposal is not accepted by the tempered Metropolis-Hastings rule",
                              accepted=cur is new, **ctx)
            if r == -math.inf and any(m is new for m in ev):
                job.violation("the likelihood of an impossible proposal is evaluated", **ctx)
            if chain.temperature != T:
                job.violation("an iteration changes the temperature", **ctx)


def weights(job, tier):
    import bayesbay as bb
    lists = [[1], [1, 3], [3, 1], [0.5, 2, 1.5], [1, 1, 1, 1], [0, 2], [2, 0, 1], [10, 1, 1], [0.1, 0.2, 0.7]]
    if tier == "thorough":
        lists += [list(t) for n in (2, 3, 4) for t in itertools.product([0.5, 1, 2, 5], repeat=n)]
    lists += [None]
    for ws in lists:
        for via in ("init", "set", "chain"):
            n = len(ws) if ws else 3
            hit = []
            funcs = [lambda m, i=i: (hit.append(i), (m + 1, -math.inf))[1] for i in range(n)]
            other = [lambda m: (m, 0.0)]
            if via == "init":
                inv = bb.BaseBayesianInversion([0], funcs, ws and list(ws), log_like_func=lambda m: 0.0, n_chains=1)
                chain = inv.chains[0]
            elif via == "set":
                inv = bb.BaseBayesianInversion([0], other, None, log_like_func=lambda m: 0.0, n_chains=1)
                inv.set_perturbation_funcs(funcs, ws and list(ws))
                chain = inv.chains[0]
            elif ws is None:
                continue
            else:
                chain = bb.BaseMarkovChain(0, 0, funcs, list(ws), bb.likelihood.LogLikelihood(log_like_func=lambda m: 0.0))
            job.states += 1
            got = [0.0] * n

            def once():
                hit.clear()
                chain.advance_chain(1, verbose=False, save_every=10 ** 9)
                return list(hit)

            total = sum(ws) if ws else n
            N = 240
            ex = rng.Explorer(unit=lambda k: [((j + 0.5) / N, 1.0 / N) for j in range(N)] if not hit else [(0.5, 1.0)])
            for h, w, trace in ex.run_all(once):
                job.transitions += 1
                job.traces += 1
                if len(h) != 1:
                    job.violation("an iteration does not call exactly one perturbation", weights=ws, called=h)
                    continue
                got[h[0]] += w
            want = [x / total for x in (ws or [1] * n)]
            if max(abs(a - b) for a, b in zip(got, want)) > 5e-3:
                job.violation("perturbations are not chosen with probability proportional to their weights", weights=ws,
                              measured=got, via=via)


def targets(job):
    """the rule with targets: the ratio of a perturbation given by the user together with real targets"""
    import bayesbay as bb
    import numpy as np
    from mc.spec import Sp, Model
    from .common import prior
    m = Model([Sp("s", "ps", 1, 1, [prior("p", "G")], fixed=True)])
    d = np.array([0.3, -0.4])
    fwd_calls = []

    def fwd(s):
        fwd_calls.append(s)
        return s["s"]["p"][0] * np.array([0.5, 0.2])
    for cinv, T, r, v0, v1 in itertools.product([1.0, 3.0], [1, 2.0, 7.0], [-math.inf, -1.0, 0.0, 0.4],
                                                [0.0, 1.0], [-1.0, 0.5, 2.0]):
        job.states += 1
        ll = bb.likelihood.LogLikelihood(bb.likelihood.Target("d", d, covariance_mat_inv=cinv), fwd)
        new = m.to_state((((None, (v1,)),),))
        inv = bb.BayesianInversion(bb.parameterization.Parameterization([s.build() for s in m.spaces]), ll, n_chains=1)
        called = []
        inv.set_perturbation_funcs([lambda s: (called.append(1), (new, r))[1]])
        chain = inv.chains[0]
        L = lambda v: -0.5 * cinv * float(np.sum((v * np.array([0.5, 0.2]) - d) ** 2))
        la = min(0.0, r + (L(v1) - L(v0)) / T)
        a = math.exp(la) if la > -math.inf else 0
        menu = [0.5, 1e-300] if a == 0 else [1 - 1e-12, 0.1] if la == 0 else [a * (1 - 1e-9), a * (1 + 1e-9)]

        def once():
            chain.current_state = m.to_state((((None, (v0,)),),))
            chain.temperature = T
            fwd_calls.clear()
            called.clear()
            new.cache.clear()
            chain.advance_chain(1, verbose=False, save_every=10 ** 9)
            return chain.current_state is new, [s is new for s in fwd_calls]

        ex = rng.Explorer(unit=lambda k: [(u, 1.0) for u in menu] if called else [(0.5, 1.0)])
        for (acc, ev), w, trace in ex.run_all(once):
            job.transitions += 1
            job.traces += 1
            us = [x[1] for x in trace if x[0] == "unit"]
            u = us[-1] if us else 0.5
            want = la == 0 or (a > 0 and u < a)
            if acc != want:
                job.violation("a proposal is not accepted by the tempered Metropolis-Hastings rule", cinv=cinv, T=T,
                              log_ratio=r, v_old=v0, v_new=v1, u=u, accepted=acc)
            if r == -math.inf and any(ev):
                job.violation("the likelihood of an impossible proposal is evaluated", cinv=cinv, T=T)


def sequence(job, tier):
    """several iterations in a row: every decision is taken from the model held at that time"""
    import bayesbay as bb
    n = 4 if tier == "quick" else 6
    lls = [0.0, -1.2, 0.8]
    log = []

    def perturb(m):
        log.append(["p", m])
        return (m + 1) % 3, 0.25 if m == 0 else -0.1
    for T in (1, 2.5):
        inv = bb.BaseBayesianInversion([0], [perturb], log_like_func=lambda m: lls[m], n_chains=1)
        chain = inv.chains[0]

        def once():
            log.clear()
            chain.current_state = 0
            chain.temperature = T
            seq = []
            for _ in range(n):
                chain.advance_chain(1, verbose=False, save_every=10 ** 9)
                seq.append(chain.current_state)
            return seq, [x[1] for x in log]

        ex = rng.Explorer(unit=[1e-9, 0.6, 0.95])
        for (seq, starts), w, trace in ex.run_all(once):
            job.transitions += n
            job.traces += 1
            us = [x[1] for x in trace if x[0] == "unit"]
            cur = 0
            job.states += 1
            if len(us) != n or len(starts) != n:
                job.violation("iterations do not take one decision each", variates=us, proposals=starts)
                continue
            for u, s, got in zip(us, starts, seq):
                if s != cur:
                    job.violation("a proposal does not start from the current model", trace=trace)
                new = (cur + 1) % 3
                la = (0.25 if cur == 0 else -0.1) + (lls[new] - lls[cur]) / T
                cur = new if math.log(u) < la else cur
                if got != cur:
                    job.violation("a wrong decision in a sequence of iterations", T=T, variates=us, got=seq)
                    break
