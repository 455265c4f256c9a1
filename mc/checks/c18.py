"""C18: chains do not influence each other under any interleaving."""
import itertools
import os
import time
import numpy as np
from mc import rng, history, interleave
from mc.history import World, deep

BOUNDS = ("two chains of one inversion in threads, one preemption at every line of the library (quick: one or two iterations each; thorough: "
          "three), two preemptions at every pair of function calls (thorough: of lines for single iterations), both orders of start; all "
          "interleavings of whole iterations of two and three chains; runs in threads and worker processes compared with solo runs")
ASSUMPTIONS = ["compiled code runs atomically (it holds the interpreter lock)",
               "every chain keeps its own stream of random draws whatever the interleaving"]
NAMES = ["ps", "v1", "v1c", "v2", "noise", "noise2", "v1-ps", "v1-v2", "mixed", "plain", "plain-ratio"]


def jobs(tier):
    parts = 4
    out = []
    for n in NAMES:
        k = 8 if n in ("v1-v2", "mixed", "v1-ps") else parts
        out += [(f"lines-{n}-{o}-{p}", "lines", n, o, p, k) for o in (0, 1) for p in range(k)]
    names = ["plain", "ps", "noise"] if tier == "quick" else NAMES
    parts = 4 if tier == "quick" else 16
    out += [(f"calls2-{n}-{p}", "calls2", n, p, parts) for n in names for p in range(parts)]
    out += [(f"iterations-{n}", "iterations", n, tier) for n in NAMES]
    out += [(f"backend-{b}", "backend", b) for b in ("sequential", "threading", "loky", "default")]
    out += [("order", "order"), ("samplers", "samplers"), ("objects", "objects")]
    return out


def build(name, n):
    """(chains, sampler, what to compare) of a new inversion"""
    import bayesbay as bb
    with rng.paused():
        if name.startswith("plain"):
            kw = dict(log_like_func=(like, [0.5], {"b": 1.0})) if name == "plain" else dict(log_like_ratio_func=(ratio, [0.5]))
            inv = bb.BaseBayesianInversion([np.array([i, 0.0]) for i in range(n)], [up, (down, [2.0])], n_chains=n, **kw)
        else:
            w = World(name, n_chains=n, wrap=False)
            inv = w.inv
            other = second_start(name, w)
            for i, ch in enumerate(inv.chains):
                ch.current_state = w.model.to_state(w.start if i % 2 == 0 else other)
        sampler = bb.samplers.SimulatedAnnealing(3)
        sampler.burnin_iterations, sampler.cooling_rate = 2, np.log(3) / 2
        sampler.initialize(inv.chains)
    return inv, sampler


def second_start(name, w):
    for c in w.model.expected(w.start, 1):
        if w.model.logpi(c) > -np.inf:
            last = c
    return last


def up(m):
    import random
    return m + np.array([0, random.normalvariate(0, 1)]), 0.0


def down(m, d):
    import random
    return m - np.array([0, d * random.random()]), -0.1


def like(m, a, b=0):
    return -a * float(m[1] - m[0]) ** 2 * b


def ratio(a, b, f):
    return f * float(abs(a[1]) - abs(b[1]))


def look(ch):
    return dict(model=deep(ch.current_state), statistics=deep({k: (dict((a, dict(b) if isinstance(b, dict) else b) for a, b in v.items()) if isinstance(v, dict) else v)
                                                               for k, v in ch.statistics.items()}),
                saved=deep(dict(ch.saved_states) if isinstance(ch.saved_states, dict) else list(ch.saved_states)),
                temperature=float(ch.temperature), id=ch.id)


def runner(inv, sampler, i, n_it, log):
    ch = inv.chains[i]

    def end(c):
        sampler.end_iteration(c)
        log.append(deep(c.current_state))

    def f():
        ch.advance_chain(n_it, burnin_iterations=0, save_every=1, verbose=False, begin_iteration=sampler.begin_iteration, end_iteration=end)
    return f


ACC = [(True, True, False), (True, False)]


def solo(name, i, n_it, n=2, coarse=False, salt=0):
    """the chain alone, with its own draws: (trajectory, final look, number of points)"""
    inv, sampler = build(name, n)
    log = []
    fns = [(lambda: None)] * n
    fns[i] = runner(inv, sampler, i, n_it, log)
    streams = [interleave.stream(3 + 11 * j + salt, ACC[j % 2]) for j in range(n)]
    r = interleave.Run(fns, streams, [], coarse).go()
    if r.error[i] is not None:
        raise r.error[i]
    return log, look(inv.chains[i]), r.points[i], streams[i].trace


def concurrent(name, n_it, schedule, n=2, coarse=False, salt=0):
    inv, sampler = build(name, n)
    logs = [[] for _ in range(n)]
    streams = [interleave.stream(3 + 11 * j + salt, ACC[j % 2]) for j in range(n)]
    r = interleave.Run([runner(inv, sampler, i, n_it, logs[i]) for i in range(n)], streams, schedule, coarse).go()
    return logs, [look(c) for c in inv.chains], r, [s.trace for s in streams]


def compare(job, name, refs, n_it, schedule, coarse=False, n=2, salt=0):
    logs, looks, r, traces = concurrent(name, n_it, schedule, n, coarse, salt)
    job.traces += 1
    job.transitions += sum(r.points)
    ctx = dict(model=name, schedule=schedule, iterations=n_it, points="calls" if coarse else "lines")
    for i in range(n):
        if r.error[i] is not None:
            job.violation("a chain fails when another one runs in between", chain=i, error=repr(r.error[i]), **ctx)
            return
        ref = refs[i]
        if logs[i] != ref[0]:
            job.violation("the trajectory of a chain depends on the interleaving with another", chain=i, trajectory=logs[i], alone=ref[0], **ctx)
            return
        for k in ref[1]:
            if looks[i][k] != ref[1][k]:
                job.violation(f"{k} of a chain depends on the interleaving with another", chain=i, interleaved=looks[i][k], alone=ref[1][k], **ctx)
                return


def lines(job, name, first, part, parts):
    """one preemption, at every line"""
    heavy = name in ("v1-v2", "mixed", "v1-ps", "noise2")
    n_it = (1 if heavy else 2) if job.quick else 3
    for salt in ((0, 5) if heavy and job.quick else (0,) if job.quick else (0, 5, 9)):
        refs = [solo(name, i, n_it, salt=salt) for i in range(2)]
        L = refs[first][2]
        job.count("scheduling_points", L)
        for k in range(part, L + 1, parts):
            job.states += 1
            compare(job, name, refs, n_it, [(first, k), (1 - first, None)] if False else [(first, k), (1 - first, 10 ** 9)], salt=salt)
    job.sample(model=name, preempted=first, points=L)


def calls2(job, name, part, parts):
    """two preemptions, at every pair of function calls"""
    n_it = 1
    for salt in ((0,) if job.quick else (0, 5)):
        refs = [solo(name, i, n_it, coarse=True, salt=salt) for i in range(2)]
        for first in (0, 1):
            L0, L1 = refs[first][2], refs[1 - first][2]
            for j, (a, b) in enumerate(itertools.product(range(1, L0 + 1), range(1, L1 + 1))):
                if j % parts != part:
                    continue
                job.states += 1
                compare(job, name, refs, n_it, [(first, a), (1 - first, b), (first, 10 ** 9)], coarse=True, salt=salt)


def iterations(job, name, tier):
    """all interleavings of whole iterations"""
    cases = [(2, 3), (3, 2)] if tier == "quick" else [(2, 4), (3, 2), (2, 5)]
    for n, n_it in cases:
        refs = []
        for i in range(n):
            refs.append(solo(name, i, n_it, n=n))
        for order in sorted(set(itertools.permutations([i for i in range(n) for _ in range(n_it)]))):
            inv, sampler = build(name, n)
            streams = [interleave.stream(3 + 11 * j, ACC[j % 2]) for j in range(n)]
            logs = [[] for _ in range(n)]
            rng.Ctl.active, rng.Ctl.started = True, time.time()
            try:
                for i in order:
                    rng.Ctl.explorer = streams[i]
                    runner(inv, sampler, i, 1, logs[i])()
            finally:
                rng.Ctl.active = False
            job.traces += 1
            job.states += 1
            job.transitions += len(order)
            for i, ch in enumerate(inv.chains):
                now = look(ch)
                if logs[i] != refs[i][0] or now != refs[i][1]:
                    job.violation("a chain depends on the order in which iterations of other chains come", model=name, order=order, chain=i,
                                  interleaved=[logs[i], now], alone=list(refs[i][:2]))
                    break


# ------------------------------------------------------------------ real backends
def seeded(sampler, chain):
    """begin-iteration hook: the draws of every iteration depend on the chain and its iteration only"""
    import random
    import numpy as np
    k = 1000 * chain.id + chain.statistics["n_proposed_models_total"]
    random.seed(k)
    np.random.seed(k)
    chain.__dict__.setdefault("begun", []).append(chain.statistics["n_proposed_models_total"])


def ended(sampler, chain):
    chain.__dict__.setdefault("ended", []).append(chain.statistics["n_proposed_models_total"])


def fwd1(s):
    v = s["s"]
    s.save_to_extra_storage("extra", float(v["p"].sum()))
    return np.array([float(v["p"].sum()), float(v["p"].max()), float(v["discretization"].sum()), float(v["p"] @ v["discretization"])]) / 10


def inversion(n, seed=3):
    import bayesbay as bb
    from mc.spec import Sp, Model, Noise
    from mc.checks.common import prior
    with rng.paused():
        sp = Sp("s", "v1", 1, 4, [prior("p", "G", 1, 1.2, 1.5), prior("q", "U", 0, 1.)], lo=0.5, hi=9.5, std=1.3)
        t = bb.likelihood.Target("d", np.array([.1, .2, .3, .4]), std_min=0.1, std_max=3, std_perturb_std=.2, noise_is_correlated=True,
                                 correlation_min=0.01, correlation_max=.9, correlation_perturb_std=.1)
        return bb.BayesianInversion(bb.parameterization.Parameterization([sp.build()]), bb.likelihood.LogLikelihood(t, fwd1), n_chains=n)


def walk(m):
    """a deterministic, always accepted perturbation of any model"""
    return (m[0], m[1] + 1, (m[2] * 1103515245 + 12345) % 2 ** 31), 0.0


def flat(m):
    return 0.0


def slow(m):
    time.sleep(0.05 if m[0] == 0 else 0.0)
    return walk(m)


CONFIG = dict(sequential={"n_jobs": 1}, threading={"n_jobs": 3, "backend": "threading"}, loky={"n_jobs": 2, "backend": "loky"}, default=None)


def view(ch):
    r = look(ch)
    r["begun"], r["ended"] = ch.__dict__.get("begun"), ch.__dict__.get("ended")
    return r


def backend(job, which):
    import bayesbay as bb
    cfg = CONFIG[which]
    # deterministic low-level models: any backend
    for n, runs in ((3, [4]), (4, [3, 2]), (2, [1, 1, 2])):
        inv = bb.BaseBayesianInversion([(i, 0, i + 1) for i in range(n)], [walk], log_like_func=flat, n_chains=n)
        for k in runs:
            inv.run(n_iterations=k, save_every=1, verbose=False, parallel_config=cfg)
        tot = sum(runs)
        job.traces += 1
        job.states += n
        job.transitions += n * tot
        if len(inv.chains) != n:
            job.violation("a run changed the number of chains", backend=which)
            continue
        for i, ch in enumerate(inv.chains):
            want, m = [], (i, 0, i + 1)
            for _ in range(tot):
                m = walk(m)[0]
                want.append(m)
            if list(ch.saved_states) != want or ch.current_state != m or ch.id != i or ch.statistics["n_proposed_models_total"] != tot or \
                    ch.statistics["n_accepted_models_total"] != tot:
                job.violation("a chain is not what it would have been alone, or not in order", backend=which, chain=i, saved=list(ch.saved_states),
                              expected=want, statistics=dict(ch.statistics))
    if which == "threading":
        return      # the random generators are shared by threads: decided by the controlled schedules
    # full inversions whose draws are seeded by chain and iteration
    for n, runs in ((3, [(6, 2, 2)]), (2, [(3, 0, 1), (5, 4, 1)])):
        def start(only=None):
            inv = inversion(n)
            s = bb.samplers.VanillaSampler()
            s.add_on_begin_iteration(seeded)
            s.add_on_end_iteration(ended)
            return inv, s
        refs = []
        for i in range(n):
            # alone: only this chain is run
            inv, s = start()
            ch = inv.chains[i]
            for k, b, e in runs:
                s.initialize([ch])
                ch.advance_chain(k, burnin_iterations=b, save_every=e, verbose=False, begin_iteration=s.begin_iteration, end_iteration=s.end_iteration)
            refs.append(view(ch))
        inv, s = start()
        for k, b, e in runs:
            inv.run(s, n_iterations=k, burnin_iterations=b, save_every=e, verbose=False, parallel_config=cfg)
        job.traces += 1
        for i, ch in enumerate(inv.chains):
            job.states += 1
            job.transitions += sum(r[0] for r in runs)
            now = view(ch)
            for k in refs[i]:
                if now[k] != refs[i][k]:
                    job.violation(f"{k} of a chain is not what it would have been alone", backend=which, chain=i, now=now[k], alone=refs[i][k])
        res = inv.get_results(keys="s.p", concatenate_chains=True)["s.p"]
        if [deep(x) for x in res] != [x for i in range(n) for x in refs[i]["saved"][1]["s.p"][1]]:
            job.violation("the results are not in chain order", backend=which)


def order(job):
    """results come back in chain order although the first chain is the slowest"""
    import bayesbay as bb
    for cfg in ({"n_jobs": 4, "backend": "threading"}, {"n_jobs": 3, "backend": "loky"}, {"n_jobs": 2, "backend": "threading"}, {"n_jobs": 1}):
        n = 5
        inv = bb.BaseBayesianInversion([(i, 0, i) for i in range(n)], [slow], log_like_func=flat, n_chains=n)
        inv.run(n_iterations=3, save_every=1, verbose=False, parallel_config=cfg)
        job.states += n
        job.transitions += 3 * n
        job.traces += 1
        if [c.id for c in inv.chains] != list(range(n)) or [c.current_state[0] for c in inv.chains] != list(range(n)):
            job.violation("chains come back in another order", parallel_config=cfg, ids=[c.id for c in inv.chains])
        if [m[0] for m in inv.get_results()] != [i for i in range(n) for _ in range(3)]:
            job.violation("results come back in another order", parallel_config=cfg)


def samplers(job):
    """tempering and annealing in worker processes do what they do one after another"""
    import bayesbay as bb
    for kind, cfg in itertools.product(("pt", "sa"), (CONFIG["loky"], {"n_jobs": 3, "backend": "threading"})):
        def go(cfg):
            inv = bb.BaseBayesianInversion([(i, 0, i + 1) for i in range(3)], [walk], log_like_func=flat, n_chains=3)
            s = bb.samplers.ParallelTempering(temperature_max=4, swap_every=2) if kind == "pt" else bb.samplers.SimulatedAnnealing(3)
            temps = []
            s.add_on_end_advance_chain(lambda s: temps.append([float(c.temperature) for c in s.chains]))
            hist = []
            for k in (5, 2):
                np.random.seed(4)
                inv.run(s, n_iterations=k, burnin_iterations=3, save_every=1, verbose=False, parallel_config=cfg)
            return inv, temps
        a, ta = go({"n_jobs": 1})
        # (the hooks are not sent to processes: they are called between batches)
        b, tb = go(cfg)
        job.states += 3
        job.transitions += 21
        job.traces += 1
        if len(ta) != len(tb):
            job.violation("another number of batches in parallel", sampler=kind, config=cfg, sequential=ta, parallel=tb)
        for x, y in zip(a.chains, b.chains):
            if x.current_state != y.current_state or x.statistics["n_proposed_models_total"] != y.statistics["n_proposed_models_total"] or x.id != y.id:
                job.violation("a chain depends on the backend", sampler=kind, config=cfg, chain=x.id, sequential=look(x), parallel=look(y))
            if kind == "sa" and (list(x.saved_states) != list(y.saved_states) or x.temperature != y.temperature):
                job.violation("an annealed chain depends on the backend", config=cfg, chain=x.id, sequential=look(x), parallel=look(y))
        if kind == "pt" and sorted(ta[-1]) != sorted(tb[-1]):
            job.violation("the ladder depends on the backend", sequential=ta[-1], parallel=tb[-1])


def objects(job):
    """no mutable model data, statistics or samples are shared between the chains of an inversion"""
    for name in history_names():
        inv, sampler = build(name, 3)
        seen = {}
        for ch in inv.chains:
            for label, x in mutable(ch.current_state, "model"):
                job.transitions += 1
                for a in seen.get(id(x), []):
                    if a[0] is not ch:
                        job.violation("chains share an object of their models", model=name, what=label)
                seen.setdefault(id(x), []).append((ch, x))
            for label in ("statistics", "saved_states"):
                for other in inv.chains:
                    if other is not ch and getattr(other, label) is getattr(ch, label):
                        job.violation(f"chains share their {label}", model=name)
            job.states += 1
        job.traces += 1


def history_names():
    return [n for n in NAMES if not n.startswith("plain")]


def mutable(x, label):
    import bayesbay as bb
    if isinstance(x, (bb.State, bb.ParameterSpaceState)):
        yield label, x
        yield label + ".param_values", x.param_values
        yield label + ".cache", x.cache
        for k, v in x.param_values.items():
            yield from mutable(v, f"{label}.{k}")
    elif isinstance(x, list):
        yield label, x
        for i, v in enumerate(x):
            yield from mutable(v, f"{label}[{i}]")
    elif isinstance(x, np.ndarray):
        yield label, x
