"""C16: simulated annealing cools on schedule and samples only at temperature one."""
import itertools
import math
from mc import rng, history
from mc.history import World

BOUNDS = ("every sequence of up to three runs with small iteration numbers, burn-ins and saving intervals, 1 to 3 chains, several starting "
          "temperatures; other samplers in between; failing proposals; the temperature compared at every proposal and acceptance")
ASSUMPTIONS = ["chains run one after another (n_jobs=1; other backends: C18)"]


def jobs(tier):
    out = [(f"schedule-{n}", "schedule", n, tier) for n in (1, 2, 3)]
    out += [("acceptance", "acceptance", tier), ("targets", "targets", tier), ("between", "mixed_samplers", tier), ("long", "long"), ("failing", "failing", tier)]
    return out


def expected(T0, i, burnin):
    """temperature of iteration i = 0, 1, ..."""
    return T0 * math.exp(-i * math.log(T0) / burnin) if i < burnin else 1.0


class Watch:
    def __init__(self, job, n):
        self.job = job
        self.it = [0] * n
        self.want = [[] for _ in range(n)]
        self.p = None
        self.chains = None
        self.ctx = {}

    def check(self, i, T, when):
        T0, b, e = self.p
        want = expected(T0, self.it[i], b)
        if self.it[i] >= b and T != 1 or abs(T - want) > 1e-9 * want:
            self.job.violation(f"the temperature {when} is not the annealing schedule's", chain=i, iteration=self.it[i], temperature=T,
                               expected=want, start=T0, burnin=b, **self.ctx)

    def done(self, i, model):
        T0, b, e = self.p
        self.it[i] += 1
        if self.it[i] > b and (self.it[i] - b) % e == 0:
            self.want[i].append(model)


def plain(job, n, seq, T0, pattern, fail=None, ctx=None, samplers=None):
    """runs on models that are (chain, counter); seq: (iterations, burn-in, saving interval)"""
    import bayesbay as bb
    w = Watch(job, n)
    w.ctx = ctx or {}

    def perturb(m):
        i = m[0]
        if w.p is not None:
            w.check(i, w.chains[i].temperature, "while proposing")
        if fail is not None:
            fail(m)
        return (i, m[1] + 1), 0.0

    def like(a, b):
        if w.p is not None:
            w.check(a[0], w.chains[a[0]].temperature, "while evaluating")
        return 0.0 if (b[1] + a[0]) % 3 else -1e6
    inv = bb.BaseBayesianInversion([(i, 0) for i in range(n)], [perturb], log_like_ratio_func=like, n_chains=n)
    w.chains = list(inv.chains)
    sampler = bb.samplers.SimulatedAnnealing(temperature_start=T0)
    sampler.add_on_begin_iteration(lambda s, c: w.check(c.current_state[0], c.temperature, "at the beginning of an iteration"))

    def end(s, c):
        w.check(c.current_state[0], c.temperature, "at the end of an iteration")
        w.done(c.current_state[0], c.current_state)
    sampler.add_on_end_iteration(end)
    for k, (nit, b, e) in enumerate(seq):
        w.p = (T0, b, e)
        inv.run(sampler, n_iterations=nit, burnin_iterations=b, save_every=e, verbose=False, parallel_config={"n_jobs": 1})
        if samplers and k + 1 < len(seq):
            # another sampler in between
            w.p = None
            other = samplers()
            cnt = [0]
            other.add_on_end_iteration(lambda s, c: between(w, c, b, e))
            inv.run(other, n_iterations=2, burnin_iterations=b, save_every=e, verbose=False, parallel_config={"n_jobs": 1})
    return inv, w


def between(w, c, b, e):
    i = c.current_state[0]
    w.it[i] += 1
    if w.it[i] > b and (w.it[i] - b) % e == 0 and c.temperature == 1:
        w.want[i].append(c.current_state)


def judge(job, inv, w, seq, **ctx):
    for i, ch in enumerate(inv.chains):
        if w.it[i] != ch.statistics["n_proposed_models_total"]:
            job.violation("iterations are miscounted", chain=i, runs=seq, **ctx)
        if list(ch.saved_states) != w.want[i]:
            job.violation("samples are not saved on schedule after the burn-in", chain=i, runs=seq, saved=list(ch.saved_states),
                          expected=w.want[i], **ctx)


def schedule(job, n, tier):
    its = (1, 2, 4) if tier == "quick" else (0, 1, 2, 3, 4, 6)
    k = 0
    for T0, b, e, n1, n2 in itertools.product((1, 1.5, 10, 200.0), (0, 1, 2, 3, 5), (1, 2, 3), its, its):
        seqs = [[(n1, b, e)], [(n1, b, e), (n2, b, e)]] if n2 == 1 else [[(n1, b, e), (n2, b, e)]]
        if n1 == 2:
            seqs.append([(n1, b, e), (n2, b + 3, 1 + e % 2), (2, b, e)])
        for seq in seqs:
            k += 1
            ctx = dict(T0=T0, runs=seq)
            (inv, w), trace = history.single(lambda: plain(job, n, seq, T0, None, ctx=ctx), [(True,), (True, False)][k % 2], salt=k)
            job.traces += 1
            job.transitions += sum(w.it)
            job.states += sum(w.it)
            judge(job, inv, w, seq, T0=T0)
            if k == 1:
                job.sample(**ctx)


def between_factory(which):
    import bayesbay as bb
    return {"vanilla": bb.samplers.VanillaSampler, "pt": lambda: bb.samplers.ParallelTempering(temperature_max=3, swap_every=1)}[which]


def failing(job, tier):
    """retried iterations do not advance the schedule"""
    for T0, b, e, n in itertools.product((1.5, 10), (0, 2, 4), (1, 2), (1, 2)):
        for bad in itertools.product((0, 1, 3), repeat=3):
            cnt = {}

            def fail(m):
                k = (m, len(w0))
                cnt[k] = cnt.get(k, 0) + 1
                if m[1] < 3 and cnt[k] <= bad[m[1]]:
                    raise ValueError("fails")
            w0 = []
            seq = [(5, b, e), (2, b, e)]
            (inv, w), trace = history.single(lambda: plain(job, n, seq, T0, None, fail=fail), (True,), salt=1)
            job.traces += 1
            job.transitions += sum(w.it)
            job.states += 1
            judge(job, inv, w, seq, T0=T0, failures=bad)


def acceptance(job, tier):
    """acceptance decisions of annealed iterations use the temperature of the schedule"""
    import bayesbay as bb
    for T0, b, dl in itertools.product((1.5, 4.0, 30.0), (1, 3, 6), (0.3, 1.0, 5.0)):
        for side in (0, 1):
            w = dict(i=0)

            def unit(k):
                T = expected(T0, w["i"], b)
                p = math.exp(-dl / T)
                w["u"] = p * (1 - 1e-6) if (k + side) % 2 else p + (1 - p) * 1e-6
                return [(w["u"], 1.0)]

            def one():
                w["i"] = 0
                inv = bb.BaseBayesianInversion([0], [lambda m: (m + 1, 0.0)], log_like_func=lambda m: -dl * m, n_chains=1)
                s = bb.samplers.SimulatedAnnealing(temperature_start=T0)
                held = [0]

                def end(s, c):
                    T = expected(T0, w["i"], b)
                    if (c.current_state != held[0]) != (w["u"] < math.exp(-dl / T)):
                        job.violation("acceptance does not use the annealing temperature", T0=T0, burnin=b, iteration=w["i"], u=w["u"], drop=dl)
                    held[0] = c.current_state
                    w["i"] += 1
                s.add_on_end_iteration(end)
                inv.run(s, n_iterations=b + 3, burnin_iterations=b, save_every=1, verbose=False, parallel_config={"n_jobs": 1})
            for _ in rng.Explorer(unit=unit, max_draws=1000).run_all(one):
                job.traces += 1
            job.transitions += b + 3
            job.states += 1


def mixed_samplers(job, tier):
    for which, T0, b, n1, n2, n in itertools.product(("vanilla", "pt"), (2.0, 10), (0, 2, 6), (1, 3), (1, 4), (2, 3)):
        seq = [(n1, b, 1), (n2, b, 1)]
        (inv, w), trace = history.single(lambda: plain(job, n, seq, T0, None, samplers=between_factory(which)), (True, False), salt=n1)
        job.traces += 1
        job.transitions += sum(w.it)
        job.states += 1
        judge(job, inv, w, seq, T0=T0, other=which)


def targets(job, tier):
    """the same with states and targets, checked in the forward function"""
    import bayesbay as bb
    for name, b, e, n, salt in itertools.product(("v1", "noise"), (0, 2, 5), (1, 2), (1, 2), range(2)):
        def one():
            cur = {}

            def probe(w, s, c):
                if "chain" in cur:
                    ch, i = cur["chain"]
                    T = expected(8.0, cur["it"][i], b)
                    if abs(ch.temperature - T) > 1e-9 * T:
                        job.violation("the temperature in a forward call is not the schedule's", chain=i, iteration=cur["it"][i],
                                      temperature=ch.temperature, expected=T)
            w = World(name, n_chains=n, probe=probe, wrap=False)
            s = bb.samplers.SimulatedAnnealing(8.0)
            cur["it"] = [0] * n
            chains = list(w.inv.chains)
            want = [[] for _ in chains]
            sp = w.model.spaces[0]
            key = (sp.name, sp.params[0].name)

            def begin(s, c):
                cur["chain"] = (c, [x is c for x in chains].index(True))

            def end(s, c):
                i = cur["chain"][1]
                cur["it"][i] += 1
                if cur["it"][i] > b and (cur["it"][i] - b) % e == 0:
                    want[i].append(history.deep(c.current_state[key[0]][key[1]]))
            s.add_on_begin_iteration(begin)
            s.add_on_end_iteration(end)
            for k in (3, 5):
                w.inv.run(s, n_iterations=k, burnin_iterations=b, save_every=e, verbose=False, parallel_config={"n_jobs": 1})
            for i, ch in enumerate(w.inv.chains):
                got = [history.deep(v) for v in ch.saved_states.get(".".join(key), [])]
                if got != want[i]:
                    job.violation("samples are not saved on schedule after the burn-in", chain=i, saved=got, expected=want[i], burnin=b, every=e)
            return sum(cur["it"])
        k, trace = history.single(one, [(True,), (False, True)][salt], salt=salt)
        job.traces += 1
        job.transitions += k
        job.states += 1


def long(job):
    for T0, b, n in ((10, 1000, 1200), (50.0, 333, 700), (1, 100, 150)):
        seq = [(n // 3, b, 7), (n - n // 3, b, 7), (50, b, 7)]
        (inv, w), trace = history.single(lambda: plain(job, 2, seq, T0, None), (True,), salt=1, max_draws=10 ** 6)
        job.traces += 1
        job.transitions += sum(w.it)
        job.states += 1
        judge(job, inv, w, seq, T0=T0)
