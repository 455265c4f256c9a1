"""C17: sampler hooks are called in order, once, with the right chain."""
import itertools
from mc import rng, history
from mc.history import World, deep

BOUNDS = ("every built-in sampler and user-defined samplers of three kinds, every number of user hooks of each kind up to 2 (quick) or 3, one "
          "to three chains, sequences of up to three runs, failing and refused proposals included; every event trace judged by a reference "
          "automaton, every model compared between hooks")
ASSUMPTIONS = ["chains run one after another (n_jobs=1; other backends: C18)", "hooks do not raise"]


def jobs(tier):
    out = [(f"{s}-{n}", "run", s, n, tier) for s in ("vanilla", "pt", "sa", "own", "own-batches") for n in (1, 2, 3)]
    out += [("nothing-else", "nothing_else", tier), ("failing", "failing", tier), ("decisions", "decisions", tier), ("default", "default"),
            ("own-vanilla", "derived", "VanillaSampler"), ("own-pt", "derived", "ParallelTempering"), ("own-sa", "derived", "SimulatedAnnealing"),
            ("temperature", "temperature")]
    return out


OWN = ("on_initialize", "on_begin_iteration", "on_end_iteration", "on_end_advance_chain")


def observed(cls, events):
    """the class with its own hooks recorded"""
    ns = {}
    for name in OWN:
        def f(self, *a, _n=name):
            events.append((_n, "own", self, a))
            return getattr(cls, _n)(self, *a)
        ns[name] = f
    return type("Observed" + cls.__name__, (cls,), ns)


def make_sampler(kind, events, swap_every=2):
    import bayesbay as bb
    S = bb.samplers
    if kind == "vanilla":
        return observed(S.VanillaSampler, events)()
    if kind == "pt":
        return observed(S.ParallelTempering, events)(swap_every=swap_every)
    if kind == "sa":
        return observed(S.SimulatedAnnealing, events)(temperature_start=3)

    class Own(S.Sampler):
        def on_initialize(self, chains):
            pass

        def on_begin_iteration(self, chain):
            pass

        def on_end_iteration(self, chain):
            pass

        def on_end_advance_chain(self):
            pass

        def run(self, n_iterations, burnin_iterations=0, save_every=100, verbose=True, print_every=100):
            kw = dict(burnin_iterations=burnin_iterations, save_every=save_every, verbose=verbose, print_every=print_every)
            if kind == "own":
                return self.advance_chain(n_iterations, **kw)
            for i in range(n_iterations):
                self.advance_chain(1, **kw)
            return self.chains
    return observed(Own, events)()


def look(sampler):
    """the chains a user hook finds on its sampler"""
    try:
        return list(sampler.chains)
    except Exception:
        return None


def add_hooks(sampler, counts, events):
    for j in range(counts[0]):
        sampler.add_on_initialize(lambda *a, _j=j: events.append(("on_initialize", _j, a[0], a[1:], look(a[0]))))
    for j in range(counts[1]):
        sampler.add_on_begin_iteration(lambda *a, _j=j: events.append(("on_begin_iteration", _j, a[0], a[1:], look(a[0]))))
    for j in range(counts[2]):
        sampler.add_on_end_iteration(lambda *a, _j=j: events.append(("on_end_iteration", _j, a[0], a[1:], look(a[0]))))
    for j in range(counts[3]):
        sampler.add_on_end_advance_chain(lambda *a, _j=j: events.append(("on_end_advance_chain", _j, a[0], a[1:], look(a[0]))))


def automaton(events, sampler, chains, counts, n_it, batches):
    """None, or what is wrong with the events of one run

    events: hooks as (name, who, sampler, arguments), and ("propose", chain index)
    """
    names = dict(zip(OWN, counts))
    ev = list(events)
    pos = 0

    def group(name, args_ok):
        """own hook, then the user hooks in order"""
        nonlocal pos
        for who in ["own"] + list(range(names[name])):
            if pos >= len(ev):
                return f"{name} ({who}) is missing at the end"
            e = ev[pos]
            if e[0] != name or e[1] != who:
                return f"event {pos} is {e[:2]}, expected {name} ({who})"
            if e[2] is not sampler:
                return f"{name} ({who}) got another sampler"
            if len(e) > 4 and (e[4] is None or [id(c) for c in e[4]] != [id(c) for c in chains]):
                return f"{name} ({who}) does not find the chains of the run on its sampler"
            if not args_ok(e[3]):
                return f"{name} ({who}) got the wrong argument"
            pos += 1
        return None
    bad = group("on_initialize", lambda a: len(a) == 1 and len(a[0]) == len(chains) and all(x is y for x, y in zip(a[0], chains)))
    if bad:
        return bad
    for b in batches:
        left = [b] * len(chains)
        while any(left):
            if pos >= len(ev):
                return "iterations are missing"
            e = ev[pos]
            if e[0] != "on_begin_iteration":
                return f"event {pos} is {e[:2]}, expected the begin of an iteration"
            i = [c is e[3][0] for c in chains].index(True) if len(e[3]) == 1 and any(c is e[3][0] for c in chains) else None
            if i is None:
                return "a hook got something that is not one of the chains"
            if not left[i]:
                return f"chain {i} runs more than its iterations in a batch"
            me = lambda a: len(a) == 1 and a[0] is chains[i]
            bad = group("on_begin_iteration", me)
            if bad:
                return bad
            n = 0
            while pos < len(ev) and ev[pos][0] == "propose":
                if ev[pos][1] != i:
                    return f"chain {ev[pos][1]} proposes within an iteration of chain {i}"
                n += 1
                pos += 1
            if n == 0:
                return "nothing is proposed between the hooks of an iteration"
            if n > 1 + sum(1 for e in ev[pos - n:pos] if e[2] == "failed") or any(e[2] != "failed" for e in ev[pos - n:pos - 1]):
                return "more than one iteration between the hooks of one"
            bad = group("on_end_iteration", me)
            if bad:
                return bad
            left[i] -= 1
        bad = group("on_end_advance_chain", lambda a: a == ())
        if bad:
            return bad
    if pos != len(ev):
        return f"additional event {ev[pos][:2]} at {pos}"
    return None


def batches_of(kind, n_it, swap_every=2):
    if kind == "pt":
        return [min(swap_every, n_it - k) for k in range(0, n_it, swap_every)]
    if kind == "own-batches":
        return [1] * n_it
    return [n_it]


def show(events):
    return [(e[0], e[1]) for e in events][:60]


def go(job, kind, n, counts, runs, fail=(), seed=0, sampler_each_run=False):
    import bayesbay as bb
    events = []
    k = [0]

    def perturb(m):
        k[0] += 1
        bad = (m[0], m[1]) in fail and fails.get(m, 0) < fail[(m[0], m[1])] if fail else False
        events.append(("propose", m[0], "failed" if bad else "ok"))
        if bad:
            fails[m] = fails.get(m, 0) + 1
            raise ValueError("fails")
        return (m[0], m[1] + 1), 0.0 if (k[0] + seed) % 3 else float("-inf")
    fails = {}
    inv = bb.BaseBayesianInversion([(i, 0) for i in range(n)], [perturb], log_like_func=lambda m: 0.0, n_chains=n)
    chains = list(inv.chains)
    sampler = make_sampler(kind, events)
    add_hooks(sampler, counts, events)
    for nit, b in runs:
        del events[:]
        inv.run(sampler, n_iterations=nit, burnin_iterations=b, save_every=1, verbose=False, parallel_config={"n_jobs": 1})
        bad = automaton(events, sampler, chains, counts, nit, batches_of(kind, nit))
        job.transitions += len(events)
        if bad:
            job.violation("hooks are not called as documented: " + bad, sampler=kind, chains=n, hooks=counts, runs=runs, events=show(events))
            return
    job.states += 1
    job.traces += 1


def run(job, kind, n, tier):
    top = 3 if tier == "quick" else 4
    if kind == "pt" and n == 1:
        return job.__setattr__("states", 1)
    k = 0
    for counts in itertools.product(range(top), repeat=4):
        for runs in ([(1, 0)], [(3, 1), (2, 1)]) if tier == "quick" else ([(1, 0)], [(0, 0)], [(3, 1), (2, 1)], [(5, 2), (1, 9), (4, 0)]):
            k += 1
            if kind != "pt" or runs[0][0]:
                history.single(lambda: go(job, kind, n, counts, runs, seed=k), [(True,), (True, False)][k % 2], salt=k)
    if kind != "own-batches":
        for runs in ([(5, 3), (1, 3), (4, 3)], [(7, 0), (7, 0)]):
            history.single(lambda: go(job, kind, n, (1, 2, 1, 1), runs), (True,), salt=k)
    job.sample(sampler=kind, chains=n, hooks=counts, runs=runs)


def failing(job, tier):
    """iterations with retries are surrounded once"""
    for kind, n in (("vanilla", 1), ("vanilla", 2), ("sa", 2), ("pt", 2), ("own-batches", 1)):
        for a, b, c in itertools.product((0, 1, 3), repeat=3):
            fail = {(0, 0): a, (0, 1): b, (n - 1, 2): c}
            history.single(lambda: go(job, kind, n, (1, 1, 1, 1), [(4, 0), (2, 0)], fail={k: v for k, v in fail.items() if v} or {(9, 9): 1}), (True,), salt=a)


def decisions(job, tier):
    """all accept and reject decisions"""
    for kind, n in (("vanilla", 2), ("sa", 1), ("own", 2)):
        def one():
            go(job, kind, n, (1, 1, 1, 1), [(2, 0), (2, 1)])
            return True
        for res, w, trace in rng.Explorer(unit=[history.ACCEPT, history.REJECT], int_menu=history.one_int, max_draws=200).run_all(one):
            job.traces += 1


def nothing_else(job, tier):
    """with real states: between the end of an iteration and the next begin nothing changes, and between them exactly one iteration"""
    import bayesbay as bb
    for name, kind, n, salt in itertools.product(("v1", "noise", "v1-ps"), ("vanilla", "sa", "pt"), (2, 3), range(2 if tier == "quick" else 8)):
        def one():
            w = World(name, n_chains=n, wrap=False)
            events = []
            sampler = make_sampler(kind, events)
            chains = list(w.inv.chains)
            snap = {}
            count = [0]

            def look(c):
                return (deep(c.current_state), deep(dict(c.saved_states)), c.statistics["n_proposed_models_total"],
                        c.statistics["n_accepted_models_total"])

            def begin(s, c):
                count[0] += 1
                for x in chains:
                    if id(x) in snap and snap[id(x)] != look(x):
                        job.violation("a chain changed outside of its iterations", sampler=kind, model=name)
                snap["begin"] = look(c)
                snap["others"] = [look(x) for x in chains if x is not c]

            def end(s, c):
                now, was = look(c), snap["begin"]
                if now[2] != was[2] + 1 or not 0 <= now[3] - was[3] <= 1:
                    job.violation("between the hooks there is not exactly one iteration", before=was[2:], after=now[2:], sampler=kind)
                if [look(x) for x in chains if x is not c] != snap["others"]:
                    job.violation("an iteration changed another chain", sampler=kind, model=name)
                if now[3] == was[3] and now[0] != was[0]:
                    job.violation("the model and the acceptance count do not agree", sampler=kind, model=name)
                for x in chains:
                    snap[id(x)] = look(x)
            sampler.add_on_begin_iteration(begin)
            sampler.add_on_end_iteration(end)
            sampler.add_on_end_advance_chain(lambda s: [snap.__setitem__(id(x), snap[id(x)]) for x in chains])
            for k in (3, 2):
                w.inv.run(sampler, n_iterations=k, burnin_iterations=1, save_every=2, verbose=False, parallel_config={"n_jobs": 1})
            for x in chains:
                if snap[id(x)] != look(x):
                    job.violation("a chain changed after its last iteration", sampler=kind, model=name)
            return count[0]
        k, trace = history.single(one, [(True,), (True, False)][salt % 2], salt=salt)
        job.traces += 1
        job.states += k
        job.transitions += k


def default(job):
    """without a sampler, and with no user hooks at all, iterations still run; hooks added between runs count from then on"""
    import bayesbay as bb
    for n in (1, 2, 3):
        calls = []

        def perturb(m):
            calls.append(m[0])
            return (m[0], m[1] + 1), 0.0
        inv = bb.BaseBayesianInversion([(i, 0) for i in range(n)], [perturb], log_like_func=lambda m: 0.0, n_chains=n)
        inv.run(n_iterations=3, verbose=False, parallel_config={"n_jobs": 1})
        if sorted(calls) != sorted(list(range(n)) * 3):
            job.violation("the default sampler does not run every chain", calls=calls)
        events = []
        s = make_sampler("vanilla", events)
        chains = list(inv.chains)
        for counts in ((0, 0, 0, 0), (1, 0, 0, 0), (1, 1, 0, 0), (1, 1, 1, 0), (1, 1, 1, 1)):
            added = [a - b for a, b in zip(counts, getattr(default, "had", (0, 0, 0, 0)))]
            add_hooks(s, added, events)
            default.had = counts
            del events[:], calls[:]
            inv.run(s, n_iterations=2, verbose=False, parallel_config={"n_jobs": 1})
            got = [e for e in events]
            # proposals are put in place by the automaton's counts
            bad = automaton(_with_proposals(got, chains), s, chains, counts, 2, [2])
            if bad:
                job.violation("hooks are not called as documented: " + bad, hooks=counts, events=show(got))
            job.transitions += len(got)
            job.states += 1
        default.had = (0, 0, 0, 0)
        job.traces += 1


def _with_proposals(events, chains):
    out = []
    for k, e in enumerate(events):
        if e[0] == "on_end_iteration" and e[1] == "own":
            out.append(("propose", [c is e[3][0] for c in chains].index(True), "ok"))
        out.append(e)
    return out


def derived(job, base):
    """classes derived from the built-in samplers: their own hooks come first too, and see what the built-in ones did"""
    import bayesbay as bb
    for n, runs in itertools.product((2, 3), ([(3, 1)], [(2, 0), (4, 3)])):
        events = []
        cls = getattr(bb.samplers, base)

        class Mine(cls):
            def on_begin_iteration(self, chain):
                events.append(("mine", chain.id))
                super().on_begin_iteration(chain)

            def on_end_iteration(self, chain):
                events.append(("mine-end", chain.id))
                super().on_end_iteration(chain)
        s = Mine()
        s.add_on_begin_iteration(lambda s, c: events.append(("user", c.id)))
        s.add_on_end_iteration(lambda s, c: events.append(("user-end", c.id)))
        inv = bb.BaseBayesianInversion([(i, 0) for i in range(n)], [lambda m: ((m[0], m[1] + 1), 0.0)], log_like_func=lambda m: 0.0, n_chains=n)

        def one():
            for k, b in runs:
                inv.run(s, n_iterations=k, burnin_iterations=b, verbose=False, parallel_config={"n_jobs": 1})
        history.single(one, (True,))
        for i in range(n):
            mine = [e[0] for e in events if e[1] == i]
            if mine != ["mine", "user", "mine-end", "user-end"] * sum(r[0] for r in runs):
                job.violation("hooks of a derived sampler are not called in order", sampler=base, chain=i, events=mine[:20])
        job.states += n
        job.transitions += len(events)
        job.traces += 1


def temperature(job):
    """the built-in samplers' own hooks come before the user's: user hooks see the temperature of the iteration"""
    import bayesbay as bb
    for T0, b in itertools.product((2.0, 10.0), (1, 3)):
        seen, used = [], []
        inv = bb.BaseBayesianInversion([0], [lambda m: (used.append(inv.chains[0].temperature) or m + 1, 0.0)], log_like_func=lambda m: 0.0, n_chains=1)
        s = bb.samplers.SimulatedAnnealing(T0)
        s.add_on_begin_iteration(lambda s, c: seen.append(c.temperature))
        history.single(lambda: inv.run(s, n_iterations=b + 2, burnin_iterations=b, verbose=False, parallel_config={"n_jobs": 1}), (True,))
        job.states += len(seen)
        job.transitions += len(seen)
        job.traces += 1
        if seen != used:
            job.violation("user hooks run before the sampler's own", T0=T0, burnin=b, seen=seen, used=used)
        first = []
        s = bb.samplers.ParallelTempering(temperature_max=4, chains_with_unit_temperature=0)
        inv = bb.BaseBayesianInversion([0, 1, 2], [lambda m: (m, 0.0)], log_like_func=lambda m: 0.0, n_chains=3)
        s.add_on_initialize(lambda s, cs: first.append(sorted(c.temperature for c in cs)))
        history.single(lambda: inv.run(s, n_iterations=1, verbose=False, parallel_config={"n_jobs": 1}), (True,))
        if first[0][-1] == 1:
            job.violation("user initialization hooks run before the sampler's own", temperatures=first[0])
