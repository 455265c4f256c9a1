"""C14: failures in user functions neither corrupt nor stall the chain."""
import itertools
import numpy as np
from mc import rng, history, spec
from mc.history import World, deep

LEVEL = "fault_enumeration"
RULE = ("one evaluation per explored history: every user-function call of a history either fails or not (all patterns up to the stated "
        "number of faults), combined with every accept/reject decision and menu of draws; non-trivial: at least one call failed")
BOUNDS = ("histories of 2 to 4 iterations on real chains with up to 3 (quick) or 5 (thorough) failing calls at any places in forward "
          "functions, user perturbations and user likelihoods, with every type of exception of a list; 0 to 1001 consecutive failures "
          "around the limit of 500 per iteration, several iterations in a row, per kind of failing function")
ASSUMPTIONS = ["user functions raise exceptions derived from Exception and do not modify the model they are given"]

NAMES = ["ps", "v1", "v2", "noise", "noise2", "v1-ps", "mixed"]


class Boom(Exception):
    pass


class Quiet(Exception):
    """an exception with a peculiar interface"""
    message = 42

    def __str__(self):
        return ""


class Args(Exception):
    def __init__(self, a, b):
        self.a, self.b = a, b


def _arith():
    return 1 / 0


MAKERS = [lambda: Boom("boom"), lambda: Quiet(), lambda: Args(1, 2), lambda: ValueError("x"), lambda: KeyError("k"), lambda: IndexError(3),
          lambda: ZeroDivisionError(), lambda: FloatingPointError("nan"), lambda: StopIteration(), lambda: RuntimeError("r"),
          lambda: AssertionError(), lambda: TypeError("t"), lambda: AttributeError("a"), lambda: NotImplementedError(), lambda: OSError(2, "no"),
          lambda: MemoryError(), lambda: RecursionError("deep"), lambda: np.linalg.LinAlgError("singular"), lambda: UnicodeError("u"), lambda: Exception()]


def jobs(tier):
    out = [(f"{n}-{w}", "run", n, w, (i + j) % 3 > 0) for i, n in enumerate(NAMES)
           for j, w in enumerate(("forward", "second", "perturb", "all")) if w != "second" or n != "noise"]
    out += [(f"{n}-{w}", "run", n, w, s) for n, w, s in (("ps", "like", True), ("ps", "ratio", False), ("v1", "like", False),
                                                         ("v1", "ratio", True), ("noise", "like", True), ("noise", "ratio", False))]
    out += [("types", "types"), ("choice", "choice")]
    out += [(f"limit-{w}", "limit", w) for w in ("forward", "second", "perturb", "like", "ratio", "mixed", "plain-perturb", "plain-like", "plain-ratio")]
    out += [("plain", "plain"), ("other-chains", "others")]
    return out


class Faults:
    """decides at every call of a user function whether it fails"""

    def __init__(self, job, where, limit, make=MAKERS[0]):
        self.job, self.where, self.limit, self.make = job, where, limit, make
        self.n = 0              # in this history
        self.here = 0           # in this iteration
        self.seen = {}
        self.last = None
        self.on = False
        self.watch = None

    def __call__(self, where):
        if self.watch is not None:
            self.watch(where)
        if not self.on or where not in self.where or self.n >= self.limit:
            return
        if rng.Ctl.explorer.pick("fault", [(False, .5), (True, .5)]):
            self.n += 1
            self.here += 1
            self.seen[where] = self.seen.get(where, 0) + 1
            self.last = self.make()
            raise self.last


def world(job, name, where, fl, **kw):
    """a world whose user functions consult the faults"""
    def shift(w):
        sp = w.model.spaces[0]
        p = sp.priors[0].name if sp.priors else None

        def shifted(state):
            fl.invoked = getattr(fl, "invoked", 0) + 1
            new = state.copy()
            if p is not None:
                new[sp.name].set_param_values(p, new[sp.name][p] + 0.25)
            fl("perturb")
            w.proposals.append(("shifted", state, new, 0.0))
            return new, 0.0
        return shifted

    def wrap(w, f, s):
        fl.invoked = getattr(fl, "invoked", 0) + 1
        return f(s)
    likelihood = None
    if "like" in where or "ratio" in where:
        import bayesbay as bb

        def likelihood(w):
            val = lambda s: -0.1 * float(history.features(w.model, w.model.from_state(s)) @ np.ones(4))

            def like(s):
                fl("like")
                return val(s)

            def ratio(a, b):
                fl("ratio")
                return val(b) - val(a)
            return bb.likelihood.LogLikelihood(log_like_func=like) if "like" in where else \
                bb.likelihood.LogLikelihood(log_like_ratio_func=ratio)
        if name.startswith("noise"):
            ts = [n for n in history.models(name)[0].noises]

            def likelihood(w, inner=likelihood, ts=ts):
                import bayesbay as bb
                l = inner(w)
                return bb.likelihood.LogLikelihood(targets=[n.build() for n in ts], log_like_func=l.log_like_func and l.log_like_func.func,
                                                   log_like_ratio_func=l.log_like_ratio_func and l.log_like_ratio_func.func)
    w = World(name, fail=lambda w, s: fl("forward"), fail2=lambda w, s: fl("second"), wrap=wrap, user=[shift], likelihood=likelihood, **kw)
    w.targeted = likelihood is None
    return w


def snapshot(ch):
    return deep({k: v for k, v in ch.saved_states.items()})


def run(job, name, kind, save_dpred):
    where = ("forward", "second", "perturb") if kind == "all" else (kind,)
    limit = (1 if kind == "all" and name not in ("ps", "noise") else 2) if job.quick else 4

    def int_menu(kind, opts):
        # all perturbations first, two of them after a failure
        if kind == "choices" and len(opts) > 2 and rng.Ctl.explorer.faults.here:
            i = len(rng.Ctl.explorer.trail)
            return [opts[i % len(opts)], opts[(i + len(opts) // 2) % len(opts)]]
        return history.one_int(kind, opts)

    def one(depth):
        fl = Faults(job, where, limit)
        rng.Ctl.explorer.faults = fl
        w = world(job, name, where, fl, save_dpred=save_dpred)
        ch, m = w.chain, w.model
        samples = 0
        for i in range(1, depth + 1):
            held, before, saved = ch.current_state, deep(ch.current_state), snapshot(ch)
            calls0 = ch.statistics["n_proposed_models_total"]
            trace = rng.Ctl.explorer.trace

            def watch(where):
                # while anything goes on, the chain holds the former model and the former samples
                if ch.current_state is not held or deep(held) != before:
                    job.violation("the current model changed before the iteration was decided", trace=list(trace), after_faults=fl.here)
                if snapshot(ch) != saved or ch.statistics["n_proposed_models_total"] != calls0:
                    job.violation("a sample or proposal counted before the iteration was decided", trace=list(trace), after_faults=fl.here)
            w.proposals.clear()
            fl.on, fl.here, fl.invoked, fl.watch = True, 0, 0, watch
            w.advance(save_every=2)
            fl.on, fl.watch = False, None
            ctx = dict(iteration=i, faults=fl.here, trace=list(trace))
            if fl.invoked != 1 + fl.here:
                job.violation("a failed attempt is not followed by exactly one newly chosen perturbation", invoked=fl.invoked, **ctx)
            if ch.statistics["n_proposed_models_total"] != i:
                job.violation("an iteration with failures is not one proposal", counted=ch.statistics["n_proposed_models_total"], **ctx)
            if sum(ch.statistics["exceptions"].values()) != fl.n:
                job.violation("failures are miscounted", counted=dict(ch.statistics["exceptions"]), faults=fl.n, **ctx)
            st = ch.current_state
            fname, old, new, r = w.proposals[-1]
            if st is not held and st is not new:
                job.violation("the chain holds a model that was discarded", **ctx)
            if old is not held:
                job.violation("a proposal was made from another model than the current one", **ctx)
            if deep(held) != before:
                job.violation("the current model was changed", before=before, after=deep(held), **ctx)
            for x in {id(st): st, id(held): held}.values():
                if w.targeted:
                    c = m.from_state(x) if fname != "shifted" else _canon(m, x)
                    for t in w.targets:
                        if c is not None and x.saved_in_cache(f"{t}.dpred") and \
                                not np.allclose(x.load_from_cache(f"{t}.dpred"), w.ref_dpred(t, c), rtol=1e-12, atol=1e-12):
                            job.violation("a cached prediction is wrong after failures", target=t, **ctx)
            # the saving schedule
            now = ch.saved_states
            key = f"{m.spaces[0].name}." + (m.spaces[0].priors[0].name if m.spaces[0].priors else "n_dimensions")
            n = len(now[key]) if key in now else 0
            samples += i % 2 == 0
            if n != samples:
                job.violation("failures changed the saving schedule", samples=n, expected=samples, **ctx)
            for k, old_vals in saved[1].items():
                if deep(now[k])[1][:len(old_vals[1])] != old_vals[1]:
                    job.violation("a saved sample changed", key=k, **ctx)
            if i % 2 == 0 and deep(now[key][-1]) != deep(st[m.spaces[0].name][key.split(".")[1]]):
                job.violation("the saved sample is not the model held after the iteration", **ctx)
        return fl

    k = 0
    for fl, trace in history.histories(job, one, budget=1200 if job.quick else 60000, int_menu=int_menu, menu=history.one_of,
                                       max_depth=4):
        job.transitions += 1
        job.states += fl.n > 0
        job.count("failures_injected", fl.n)
        k += fl.n > 0
        if fl.n and k == 7:
            job.sample(failures=fl.seen, history=trace)
    if not k:
        job.violation("no call ever failed: user functions were never called")


def _canon(m, x):
    try:
        return m.from_state(x)
    except spec.Malformed:
        return None


def types(job):
    """every type of exception, at every place, is a failure of the proposal only"""
    for make, kind in itertools.product(MAKERS, ("forward", "second", "perturb", "like", "ratio")):
        def one():
            fl = Faults(job, (kind,), 2, make)
            w = world(job, "v1", (kind,), fl)
            fl.on = True
            for i in range(3):
                w.advance()
            return fl, w.chain
        n = 0
        ex = rng.Explorer(radius=1, unit=[history.ACCEPT], max_draws=200, menu=history.one_of,
                          int_menu=lambda k, o: [o[(5 * len(rng.Ctl.explorer.trail) + 2) % len(o)]])
        for res, wt, trace in ex.run_all(one):
            n += 1
            if res is rng.Truncated:
                continue
            fl, ch = res
            job.transitions += 1
            job.states += fl.n > 0
            if ch.statistics["n_proposed_models_total"] != 3 or sum(ch.statistics["exceptions"].values()) != fl.n:
                job.violation("iterations or failures are miscounted", exception=repr(make()), where=kind, faults=fl.n, trace=trace)


def choice(job):
    """after a failure the perturbation is chosen anew, with the same weights"""
    import bayesbay as bb
    for ws in ([1, 1], [1, 2, 3], [5, 1]):
        for kind in ("perturb", "like"):
            got = {}
            calls = []

            def make(i):
                def f(m):
                    calls.append(i)
                    if kind == "perturb" and len(calls) == 1:
                        raise Boom()
                    return m + 1, 0.0
                return f

            def like(m):
                if kind == "like" and len(calls) == 1:
                    raise Boom()
                return 0.0
            fs = [make(i) for i in range(len(ws))]

            def one():
                calls.clear()
                inv = bb.BaseBayesianInversion([0], fs, list(ws), log_like_func=like, n_chains=1)
                inv.chains[0].advance_chain(1, verbose=False)
                return tuple(calls)
            for res, w, trace in rng.Explorer(unit=[0.5]).run_all(one):
                job.transitions += 1
                job.states += 1
                got[res] = got.get(res, 0) + w
            want = {(i, j): a * b / sum(ws) ** 2 for i, a in enumerate(ws) for j, b in enumerate(ws)}
            if set(got) != set(want) or any(abs(got[k] - want[k]) > 1e-9 for k in want):
                job.violation("after a failure the perturbation is not chosen anew by weight", weights=ws, where=kind, got=got, expected=want)


def reachable(err):
    """the exceptions reachable from err by cause, context and arguments"""
    seen, todo = [], [err]
    while todo:
        e = todo.pop()
        if e is None or any(e is x for x in seen):
            continue
        seen.append(e)
        todo += [e.__cause__, e.__context__] + [a for a in getattr(e, "args", ()) if isinstance(a, BaseException)]
    return seen


def limit(job, kind):
    counts = [0, 1, 2, 250, 498, 499, 500, 501, 999, 1000] if job.quick else list(range(0, 6)) + list(range(490, 510)) + [998, 999, 1000, 1001]
    pats = [(499, 499), (499, 0, 499), (1, 499), (498, 2), (499, 500), (0, 500)]
    for pattern in [(n,) for n in counts] + pats:
        todo = []
        raised = []

        class Planned(Faults):
            def __call__(self, where):
                if not self.on or where not in self.where:
                    return
                self.calls += 1
                if kind == "mixed" and where != ("perturb", "forward")[len(raised) % 2]:
                    return
                if todo and todo[0] > 0:
                    todo[0] -= 1
                    raised.append(MAKERS[len(raised) % len(MAKERS)]())
                    raise raised[-1]
        where = ("perturb", "forward") if kind == "mixed" else (kind.split("-")[-1],)
        fl = Planned(job, where, 10 ** 9)
        fl.calls = 0

        def build():
            if kind.startswith("plain"):
                import bayesbay as bb

                def perturb(m):
                    fl("perturb")
                    return m + 1, 0.0

                def like(m):
                    fl("like")
                    return 0.0

                def ratio(a, b):
                    fl("ratio")
                    return 0.0
                kw = dict(log_like_ratio_func=ratio) if kind.endswith("ratio") else dict(log_like_func=like)
                inv = bb.BaseBayesianInversion([7], [perturb], n_chains=1, **kw)
                return inv.chains[0], None
            w = world(job, "ps", where, fl)
            if "perturb" in where:
                # user perturbation only
                w.inv.set_perturbation_funcs([w.inv.perturbation_funcs[-1]])
            return w.chain, w

        def one():
            todo.clear()
            raised.clear()
            fl.on, fl.n, fl.calls = False, 0, 0
            ch, w = build()
            fl.on = True
            done, err = 0, None
            states = []
            for n in pattern:
                todo[:] = [n]
                held, before = ch.current_state, deep(ch.current_state)
                k0 = len(raised)
                try:
                    ch.advance_chain(1, verbose=False, save_every=1)
                    done += 1
                except RuntimeError as e:
                    err = e
                states.append((n, len(raised) - k0, err, ch.current_state is held, deep(held) == before,
                               raised[-1] if raised else None))
                if err is not None:
                    break
            # the chain goes on from where it was
            total = ch.statistics["n_proposed_models_total"]
            todo[:] = [0]
            ch.advance_chain(1, verbose=False, save_every=1)
            return states, done, total, ch

        n_attempts = [0]

        def int_menu(k, opts):
            # births are refused at the maximum without evaluating anything: rotate
            n_attempts[0] += 1
            return [opts[n_attempts[0] % len(opts)]]
        ex = rng.Explorer(radius=1, unit=[history.ACCEPT], max_draws=10 ** 6, menu=lambda k, p: [p[len(p) // 2]] if p else p, int_menu=int_menu)
        for res, wt, trace in ex.run_all(one):
            break
        rng.Ctl.active = False
        states, done, total, ch = res
        job.transitions += len(states)
        job.states += sum(1 for s in states if s[1])
        job.count("failures_injected", len(raised))
        refused = kind not in ("perturb", "mixed") and not kind.startswith("plain")
        for n, fails, err, same, intact, last in states:
            ctx = dict(kind=kind, consecutive_failures=n, pattern=pattern, failures=fails)
            if n < 500 and err is not None:
                job.violation("an error although fewer than 500 consecutive attempts failed", error=repr(err), **ctx)
            if n >= 500:
                if err is None and refused and fails < 500:
                    continue        # an attempt that needed no evaluation ended the iteration
                if err is None:
                    job.violation("500 consecutive failures raise no error", **ctx)
                    continue
                if fails != 500:
                    job.violation("the number of attempts before giving up is not 500", **ctx)
                if err.__cause__ is None or not any(x is last for x in reachable(err.__cause__)) and not _wraps(err.__cause__, last):
                    job.violation("the error does not carry the last failure as its cause", cause=repr(err.__cause__), last=repr(last), **ctx)
                if not same or not intact:
                    job.violation("giving up changed the current model", **ctx)
            elif not intact:
                job.violation("the former model was changed", **ctx)
        if total != done:
            job.violation("iterations that failed are counted as proposals", pattern=pattern, total=total, completed=done)
        if ch.statistics["n_proposed_models_total"] != total + 1:
            job.violation("the chain cannot go on", pattern=pattern)
        nsaved = len(ch.saved_states) if isinstance(ch.saved_states, list) else max([len(v) for v in ch.saved_states.values()])
        if nsaved != done + 1:
            job.violation("failures changed the number of samples saved", pattern=pattern, saved=nsaved, expected=done + 1)


def _wraps(cause, last):
    return type(last).__name__ in str(cause)


def plain(job):
    """models of any type: all fault patterns of a short history"""
    import bayesbay as bb
    depth, lim = (3, 2) if job.quick else (4, 3)
    for form, save_dpred in itertools.product(("like", "ratio"), (True, False)):
        for model in (0, (1, 2), {"a": 1}):
            def one():
                fl = Faults(job, ("p0", "p1", "like"), lim)
                fl.on = True
                cnt = [0]

                def mk(i):
                    def f(m):
                        cnt[0] += 1
                        fl(f"p{i}")
                        return ({"a": cnt[0]} if isinstance(model, dict) else (cnt[0], i)), 0.0
                    return f

                def like(m):
                    fl("like")
                    return 0.0

                def ratio(a, b):
                    fl("like")
                    return 0.0
                kw = dict(log_like_func=like) if form == "like" else dict(log_like_ratio_func=ratio)
                inv = bb.BaseBayesianInversion([model], [mk(0), mk(1)], n_chains=1, save_dpred=save_dpred, **kw)
                ch = inv.chains[0]
                for i in range(1, depth + 1):
                    held = ch.current_state
                    fl.watch = lambda where: ch.current_state is held or job.violation("the model changed during an attempt", trace=list(rng.Ctl.explorer.trace))
                    ch.advance_chain(1, verbose=False, save_every=1)
                    sv = ch.saved_states["a"] if isinstance(model, dict) else ch.saved_states
                    if ch.statistics["n_proposed_models_total"] != i or len(sv) != i:
                        job.violation("an iteration with failures is not one proposal and one sample", iteration=i,
                                      trace=list(rng.Ctl.explorer.trace), saved=list(sv), statistics=dict(ch.statistics))
                    last = {"a": cnt[0]} if isinstance(model, dict) else cnt[0]
                    if (ch.current_state if isinstance(model, dict) else ch.current_state[0]) != last:
                        job.violation("the proposal made after the failures was not accepted", held=ch.current_state, trace=list(rng.Ctl.explorer.trace))
                return fl
            ex = rng.Explorer(unit=[0.5], max_draws=60)
            for fl, w, trace in ex.run_all(one):
                if fl is rng.Truncated:
                    continue
                job.transitions += 1
                job.states += fl.n > 0


def others(job):
    """a failing chain raises through run, others keep their own history and every chain stays usable"""
    import bayesbay as bb
    for bad, when, nch in itertools.product((0, 1, 2), (1, 3), (3,)):
        cnt = {}

        def perturb(m):
            k = m[0]
            cnt[k] = cnt.get(k, 0) + 1
            if k == bad and armed[0] and m[1] == when:
                raise Boom()
            return (k, m[1] + 1), 0.0
        armed = [True]
        inv = bb.BaseBayesianInversion([(i, 0) for i in range(nch)], [perturb], log_like_func=lambda m: 0.0, n_chains=nch)
        chains = list(inv.chains)
        try:
            inv.run(n_iterations=5, save_every=1, verbose=False, parallel_config={"n_jobs": 1})
            job.violation("a chain that cannot go on raises no error", bad=bad)
        except RuntimeError as e:
            if not _wraps(e.__cause__, Boom()):
                job.violation("the error does not carry the last failure", cause=repr(e.__cause__))
        job.transitions += 1
        job.states += 1
        for i, ch in enumerate(chains):
            n = ch.statistics["n_proposed_models_total"]
            want = 5 if i < bad else when if i == bad else 0
            if n != want or ch.current_state != (i, n) or list(ch.saved_states) != [(i, j) for j in range(1, n + 1)]:
                job.violation("a failing chain corrupted a chain", chain=i, bad=bad, statistics=dict(ch.statistics), held=ch.current_state)
        if cnt[bad] != when + 500:
            job.violation("the number of attempts before giving up is not 500", attempts=cnt[bad] - when)
        armed[0] = False
        inv.run(n_iterations=2, save_every=1, verbose=False, parallel_config={"n_jobs": 1})
        for i, ch in enumerate(inv.chains):
            want = (5 if i < bad else when if i == bad else 0) + 2
            if ch.statistics["n_proposed_models_total"] != want or ch.current_state != (i, want):
                job.violation("a chain does not go on after an error", chain=i, bad=bad)
