"""C15: parallel tempering swaps temperatures reversibly and counts iterations."""
import itertools
import math
import numpy as np
from mc import rng, history
from mc.history import World

BOUNDS = ("ladders of 2 to 12 chains; the complete swap kernel of 2, 3 and (thorough) 4 chains at distinct and equal temperatures for several "
          "likelihoods and forms of the likelihood, every pair and every interval of the acceptance variate between the possible thresholds, "
          "both ends of every interval for 2 chains; every run sequence of up to three runs with small iteration numbers, burn-ins, saving and "
          "swap intervals, every swap decision of the smaller ones")
ASSUMPTIONS = ["at least two chains; chains run one after another (n_jobs=1; other backends: C18)",
               "between the chosen pair no likelihood is minus infinity"]


def jobs(tier):
    out = [("ladder", "ladder")]
    out += [(f"kernel-2-{f}", "kernel", 2, f) for f in ("func", "ratio", "targets", "noise")]
    out += [(f"kernel-3-{f}", "kernel", 3, f) for f in ("func", "targets")]
    if tier == "thorough":
        out += [("kernel-4-func", "kernel", 4, "func"), ("kernel-3-noise", "kernel", 3, "noise")]
    out += [(f"runs-{n}", "runs", n, tier) for n in (2, 3, 4)]
    out += [("decisions", "decisions", tier), ("targets-runs", "targets_runs", tier), ("mixing", "mixing")]
    return out


# ------------------------------------------------------------------ the ladder
def expected_ladder(n, share, tmax):
    ones = min(n, max(2, math.floor(n * share + 1e-9)))
    rest = n - ones
    return sorted([1.0] * ones + [tmax ** ((i + 1) / rest) for i in range(rest)])


def ladder(job):
    import bayesbay as bb
    for n, share, tmax in itertools.product(range(2, 13), (0, 0.1, 0.25, 0.4, 0.5, 0.75, 1.0), (1, 1.5, 5, 100)):
        if abs(n * share - round(n * share)) < 1e-6 and n * share != round(n * share):
            continue
        inv = bb.BaseBayesianInversion([i for i in range(n)], [lambda m: (m, -math.inf)], log_like_func=lambda m: 0.0, n_chains=n)
        seen = []
        kw = {} if (share, tmax) == (0.4, 5) else dict(temperature_max=tmax, chains_with_unit_temperature=share)
        s = bb.samplers.ParallelTempering(**kw)
        s.add_on_initialize(lambda s, chains: seen.append(sorted(float(c.temperature) for c in chains)))
        inv.run(s, n_iterations=1, verbose=False, parallel_config={"n_jobs": 1})
        job.states += 1
        job.transitions += 1
        job.traces += 1
        want = expected_ladder(n, share, tmax)
        now = sorted(float(c.temperature) for c in inv.chains)
        for got, when in ((seen[0], "after initialization"), (now, "after a batch")):
            if not np.allclose(got, want, rtol=1e-9) or [t for t in got if t == 1] != [t for t in want if t == 1]:
                job.violation(f"the temperatures {when} are not the configured ladder", chains=n, share=share, tmax=tmax, got=got, expected=want)


# ------------------------------------------------------------------ the swap kernel
def chains_of(form, n):
    """inversion whose chains hold fixed models, and their log likelihoods"""
    import bayesbay as bb
    lls = [-3.0, -1.5, -4.5, 0.0][:n]
    if form in ("func", "ratio"):
        kw = dict(log_like_func=lambda m: lls[m]) if form == "func" else dict(log_like_ratio_func=lambda a, b: lls[b] - lls[a])
        inv = bb.BaseBayesianInversion(list(range(n)), [lambda m: (m, -math.inf)], n_chains=n, **kw)
        return inv, lls, lambda ch: ch.current_state
    w = World("v1" if form == "targets" else "noise2", n_chains=n, wrap=False)
    m = w.model
    if form == "targets":
        starts = [(((2.0, (0.0,)), (4.0, (1.0,))),), (((1.0, (2.0,)),),), (((1.0, (0.5,)), (3.0, (1.5,)), (5.0, (0.0,))),)][:n]
        tg = [([0.4, -0.2, 0.3, 0.1], np.diag([1., .5, .25, 1.]), "d1"), ([-0.3, 0.5], 0.7 * np.eye(2), "d2")]
    else:
        starts = [(((1.0, (1.0,)),), (2.0, 0.25), (2.0, None)), (((2.0, (0.5,)), (3.0, (0.0,))), (1.5, 0.5), (1.0, None)),
                  (((3.0, (2.0,)),), (3.0, 0.3), (2.5, None))][:n]
    lls = []
    for ch, st in zip(w.inv.chains, starts):
        ch.current_state = m.to_state(st)
        ll = 0.0
        if form == "targets":
            for d, C, t in tg:
                r = w.ref_dpred(t, st) - np.array(d)
                ll -= 0.5 * r @ C @ r
        else:
            for i, (d, t) in enumerate((([0.4, -0.2, 0.3, 0.1], "d1"), ([-0.3, 0.5], "d2"))):
                r = w.ref_dpred(t, st) - np.array(d)
                sd, rho = st[1 + i]
                k = len(d)
                C = sd ** 2 * np.array([[(rho or 0.0) ** abs(a - b) if a != b else 1.0 for a in range(k)] for b in range(k)])
                ll -= 0.5 * r @ np.linalg.solve(C, r) + 0.5 * np.linalg.slogdet(C)[1]
        lls.append(ll)
    ids = {id(ch): i for i, ch in enumerate(w.inv.chains)}
    return w.inv, lls, lambda ch: ids[id(ch)]


def cells(ps, both):
    """the unit interval cut at the thresholds: (value, weight)"""
    cut = sorted({p for p in ps if 0 < p < 1})
    cut = [0.0] + [c for i, c in enumerate(cut) if i == 0 or c - cut[i - 1] > 1e-9] + [1.0]
    out = []
    for a, b in zip(cut, cut[1:]):
        if both:
            eps = 1e-7 * (b - a)
            out += [(a + eps if a > 0 else 1e-12, (b - a) / 2), (b - eps, (b - a) / 2)]
        else:
            out.append(((a + b) / 2, b - a))
    return out


def kernel(job, n, form):
    """the distribution of the temperatures after a batch, from every assignment, against a power of the reference kernel"""
    import bayesbay as bb
    tempsets = {2: [(1.0, 5.0), (1.0, 1.0), (2.0, 3.0)], 3: [(1.0, 1.0, 4.0)] + [(1.0, 1 / 0.6, 5.0)] * (form == "func"), 4: [(1.0, 1.0, 1.0, 3.0)]}[n]
    if n == 2:
        tempsets += [(1.0, 1.2), (1.0, 100.0)]
    for temps in tempsets:
        inv, lls, ident = chains_of(form, n)
        chains = list(inv.chains)
        sampler = bb.samplers.ParallelTempering()
        sampler.parallel_config = {"n_jobs": 1}
        sampler.initialize(chains)
        configs = sorted(set(itertools.permutations(temps)))
        models = [ident(c) for c in chains]

        def ratio(cf, i, j):
            return (1 / cf[i] - 1 / cf[j]) * (lls[j] - lls[i])
        # reference
        K = {a: {} for a in configs}
        for a in configs:
            for i, j in itertools.combinations(range(n), 2):
                b = list(a)
                b[i], b[j] = a[j], a[i]
                b = tuple(b)
                p = min(1.0, math.exp(min(0.0, ratio(a, i, j)))) / math.comb(n, 2)
                K[a][b] = K[a].get(b, 0.0) + p
                K[a][a] = K[a].get(a, 0.0) + 1 / math.comb(n, 2) - p
        M = np.array([[K[a].get(b, 0.0) for b in configs] for a in configs])
        thresholds = [math.exp(ratio(a, i, j)) for a in configs for i, j in itertools.permutations(range(n), 2) if ratio(a, i, j) < 0]
        menu = cells(thresholds, both=n == 2)
        P = np.zeros_like(M)
        starts = configs if n < 4 else configs[:1]
        for a in starts:
            def one():
                with rng.paused():
                    for c, t in zip(chains, a):
                        c.temperature = t
                sampler.end_advance_chain()
                return tuple(float(c.temperature) for c in chains)
            for res, w, trace in rng.Explorer(unit=lambda k: menu, max_draws=60).run_all(one):
                job.transitions += 1
                job.traces += 1
                if [ident(c) for c in chains] != models or sampler.chains is not chains and list(sampler.chains) != chains:
                    job.violation("swapping moved a model or a chain", start=a, trace=trace)
                if res not in K:
                    job.violation("the temperatures are not those of the ladder any more", start=a, now=res, trace=trace)
                    continue
                P[configs.index(a), configs.index(res)] += w
            job.states += 1
        rows = [configs.index(a) for a in starts]
        ok = None
        for m in range(1, 2 * n + 1):
            if np.allclose(P[rows], np.linalg.matrix_power(M, m)[rows], atol=2e-6 if n == 2 else 1e-9):
                ok = m
        if ok is None:
            job.violation("the swaps of a batch are not Metropolis swaps of uniformly chosen pairs", temperatures=temps,
                          log_likelihoods=lls, kernel=P.tolist(), expected_one_attempt=M.tolist(), form=form)
        job.count(f"attempts_{ok}")
        # reversibility, by itself
        for (x, a), (y, b) in itertools.product(list(enumerate(configs)), repeat=2):
            if x in rows and y in rows:
                fa = math.exp(sum(l / t for l, t in zip(lls, a))) * P[x, y]
                fb = math.exp(sum(l / t for l, t in zip(lls, b))) * P[y, x]
                if abs(fa - fb) > 1e-5 * max(fa, fb) + 1e-12:
                    job.violation("swaps are not reversible with respect to the tempered likelihoods", a=a, b=b, forward=fa, backward=fb)
        job.sample(temperatures=temps, log_likelihoods=lls, attempts=ok)


# ------------------------------------------------------------------ runs
class Watch:
    """follows all chains of an inversion through hooks and keeps what has to be saved"""

    current = None

    def __init__(self, job, inv, sampler):
        Watch.current = self
        self.job, self.inv = job, inv
        self.order = list(inv.chains)
        self.it = [0] * len(self.order)
        self.want = [[] for _ in self.order]
        self.batches = []
        self.cur = [0] * len(self.order)
        sampler.add_on_begin_iteration(self.begin)
        sampler.add_on_end_iteration(self.end)
        sampler.add_on_end_advance_chain(self.batch)
        self.temp = {}
        self.p = None
        self.inside = False

    def idx(self, ch):
        return [c is ch for c in self.order].index(True)

    def begin(self, s, ch):
        i = self.idx(ch)
        self.temp[i] = ch.temperature
        self.inside = True

    def end(self, s, ch):
        i = self.idx(ch)
        self.inside = False
        self.it[i] += 1
        self.cur[i] += 1
        b, e = self.p
        k = self.it[i]
        if ch.temperature != self.temp[i]:
            self.job.violation("the temperature changed during an iteration", chain=i)
        if k > b and (k - b) % e == 0 and ch.temperature == 1:
            self.want[i].append(ch.current_state)

    def batch(self, s):
        self.batches.append(tuple(self.cur))
        self.cur = [0] * len(self.order)


def run_sequence(job, n, runs, swap_every, new_sampler=False, **kw):
    import bayesbay as bb
    inv = bb.BaseBayesianInversion([(i, 0) for i in range(n)], [lambda m: ((m[0], m[1] + 1), 0.0)], n_chains=n,
                                   log_like_func=lambda m: -0.5 * (m[0] + 1) * ((m[1] * 7 + m[0]) % 5), **kw)
    sampler = bb.samplers.ParallelTempering(temperature_max=4, chains_with_unit_temperature=0.5, swap_every=swap_every)
    watch = Watch(job, inv, sampler)
    batches = []
    for nit, b, e in runs:
        watch.p = (b, e)
        watch.batches = []
        inv.run(sampler, n_iterations=nit, burnin_iterations=b, save_every=e, verbose=False, parallel_config={"n_jobs": 1})
        batches.append(watch.batches)
    return inv, watch, batches


def judge(job, inv, watch, batches, n, runs, swap_every, trace):
    ctx = dict(chains=n, runs=runs, swap_every=swap_every, trace=trace[:80])
    for (nit, b, e), bs in zip(runs, batches):
        for i in range(n):
            if sum(x[i] for x in bs) != nit:
                job.violation("a run did not advance a chain by the requested number of iterations", chain=i, batches=bs, **ctx)
            if any(x[i] > swap_every for x in bs):
                job.violation("a batch longer than the swap interval", batches=bs, **ctx)
        if len(bs) > -(-nit // swap_every) or any(not any(x) for x in bs):
            job.violation("more batches of iterations than needed", batches=bs, **ctx)
    if len(inv.chains) != n or any(a is not b for a, b in zip(inv.chains, watch.order)):
        job.violation("the chains are not in order", **ctx)
    for i, ch in enumerate(watch.order):
        total = sum(r[0] for r in runs)
        if ch.statistics["n_proposed_models_total"] != total:
            job.violation("the iteration count of a chain is wrong", chain=i, counted=ch.statistics["n_proposed_models_total"], **ctx)
        if ch.current_state[0] != i or any(m[0] != i for m in ch.saved_states):
            job.violation("a model or sample moved to another chain", chain=i, **ctx)
        if list(ch.saved_states) != watch.want[i]:
            job.violation("a chain does not save on schedule in its own iteration count while at temperature one", chain=i,
                          saved=list(ch.saved_states), expected=watch.want[i], **ctx)


def runs(job, n, tier):
    its = (1, 2, 5) if tier == "quick" else (0, 1, 2, 3, 5, 6)
    swaps = (1, 2, 3, 500)
    k = 0
    for n1, n2, b, e, sw in itertools.product(its, its, (0, 1, 4, 7), (1, 2, 3), swaps):
        seqs = [[(n1, b, e), (n2, b, e)]]
        if n1 == 2:
            seqs += [[(n1, b, e), (n2, b + 2, 1 + e % 3), (3, b, e)]]
        for seq in seqs:
            k += 1
            (inv, watch, bs), trace = history.single(lambda: run_sequence(job, n, seq, sw), [(True,), (False,), (True, False), (True, True, False)][k % 4], salt=k)
            job.states += sum(len(w) for w in watch.want)
            job.transitions += sum(watch.it)
            job.traces += 1
            judge(job, inv, watch, bs, n, seq, sw, trace)


def decisions(job, tier):
    """all swap decisions and pairs of short runs"""
    cases = [(2, [(3, 0, 1)], 1), (2, [(4, 1, 2)], 2), (3, [(2, 0, 1)], 1), (2, [(1, 0, 1), (2, 1, 1)], 1)]
    if tier == "thorough":
        cases += [(3, [(3, 0, 1)], 1), (2, [(4, 2, 1)], 1), (4, [(2, 0, 1)], 1)]
    for n, seq, sw in cases:
        def one():
            return run_sequence(job, n, seq, sw)

        def unit(k):
            return [(history.ACCEPT, .5), (history.REJECT, .5)]
        def ends(kind, opts):
            if n > 2:
                return [opts[len(rng.Ctl.explorer.trail) * 5 % len(opts)]]
            return opts if len(opts) <= 2 else [opts[0], opts[-1]]
        seen = set()
        # acceptance of the models is not branched over: only the draws between batches are
        class Ex(rng.Explorer):
            def d_unit(self):
                if Watch.current is not None and Watch.current.inside:
                    return 0.5
                return super().d_unit()
        for res, w, trace in Ex(unit=unit, int_menu=ends, max_draws=60).run_all(one):
            if res is rng.Truncated:
                job.violation("far more random draws than swaps need", trace=trace[:80])
                continue
            inv, watch, bs = res
            job.transitions += 1
            job.traces += 1
            judge(job, inv, watch, bs, n, seq, sw, trace)
            seen.add(tuple(c.temperature for c in inv.chains))
        job.states += len(seen)


def targets_runs(job, tier):
    """states with targets: samples and caches stay with their chain, temperatures are used in acceptance"""
    import bayesbay as bb
    for name, n, salt in itertools.product(("v1", "noise", "v2"), (2, 3), range(3 if tier == "quick" else 12)):
        def one():
            w = World(name, n_chains=n, wrap=False)
            sampler = bb.samplers.ParallelTempering(temperature_max=3, swap_every=2)
            watch = Watch(job, w.inv, sampler)
            watch.p = (1, 2)
            held = {}

            def begin(s, ch):
                i = watch.idx(ch)
                if i in held and ch.current_state is not held[i]:
                    job.violation("a swap changed the model of a chain", chain=i)

            def end(s, ch):
                held[watch.idx(ch)] = ch.current_state
            sampler.add_on_begin_iteration(begin)
            sampler.add_on_end_iteration(end)
            w.inv.run(sampler, n_iterations=7, burnin_iterations=1, save_every=2, verbose=False, parallel_config={"n_jobs": 1})
            for i, ch in enumerate(w.inv.chains):
                if ch.current_state is not held[i]:
                    job.violation("a swap changed the model of a chain", chain=i)
                c = w.model.from_state(ch.current_state)
                for t in w.targets:
                    if ch.current_state.saved_in_cache(f"{t}.dpred") and \
                            not np.allclose(ch.current_state.load_from_cache(f"{t}.dpred"), w.ref_dpred(t, c), rtol=1e-12, atol=1e-12):
                        job.violation("a prediction does not belong to the chain's model", chain=i)
                key = w.model.spaces[0].name + "." + w.model.spaces[0].params[0].name
                got = [history.deep(v) for v in ch.saved_states.get(key, [])]
                want = [history.deep(s[w.model.spaces[0].name][w.model.spaces[0].params[0].name]) for s in watch.want[i]]
                if got != want:
                    job.violation("the saved samples of a chain are not the models it held at temperature one", chain=i, saved=got, expected=want)
            return watch
        watch, trace = history.single(one, [(True,), (True, False), (False, False, True)][salt % 3], salt=salt)
        job.traces += 1
        job.transitions += sum(watch.it)
        job.states += sum(len(x) for x in watch.want)


def mixing(job):
    """acceptance within a batch uses the temperature the chain has in that batch"""
    import bayesbay as bb
    for n in (2, 3, 4):
        log = []
        inv = bb.BaseBayesianInversion([(i, 0) for i in range(n)], [lambda m: ((m[0], m[1] + 1), 0.0)], n_chains=n,
                                       log_like_func=lambda m: -1.0 * m[1])
        sampler = bb.samplers.ParallelTempering(temperature_max=7, chains_with_unit_temperature=0.0, swap_every=1)
        state = {}

        def begin(s, ch):
            state["T"], state["m"] = ch.temperature, ch.current_state

        def end(s, ch):
            moved = ch.current_state is not state["m"]
            if moved != (state["u"] < math.exp(-1.0 / state["T"])):
                job.violation("acceptance does not use the temperature of the chain", T=state["T"], u=state["u"], accepted=moved)
            state.pop("u")
            log.append(state["T"])
        sampler.add_on_begin_iteration(begin)
        sampler.add_on_end_iteration(end)

        def unit(k):
            if "T" in state and "u" not in state:
                p = math.exp(-1.0 / state["T"])
                state["u"] = p * (1 - 1e-6) if k % 2 else p + (1 - p) * 1e-6
                u = state["u"]
                return [(u, 1.0)]
            return [((0.1, 0.5, 0.9)[k % 3], 1.0)]

        def begin_swap(s):
            state.pop("T", None)
        sampler.add_on_end_advance_chain(begin_swap)
        # the sampler's own swaps precede the hook: variates drawn there follow the end of an iteration
        ex = rng.Explorer(unit=lambda k: unit(k) if state.get("in") else [((0.1, 0.5, 0.9)[k % 3], 1.0)], int_menu=lambda k, o: [o[len(rng.Ctl.explorer.trail) % len(o)]],
                          max_draws=10000)
        sampler.add_on_begin_iteration(lambda s, c: state.update({"in": True}))
        sampler.add_on_end_iteration(lambda s, c: state.update({"in": False}))
        for res, w, trace in ex.run_all(lambda: inv.run(sampler, n_iterations=30, save_every=1, verbose=False, parallel_config={"n_jobs": 1})):
            job.traces += 1
        job.transitions += len(log)
        job.states += len(set(log))
        if len(set(log)) < 2 and n > 2:
            job.violation("no chain ever ran at another temperature", temperatures=sorted(set(log)))
