"""C12: samples are saved on schedule and stay aligned across keys."""
import itertools
import numpy as np
from mc import rng, history
from mc.history import World, deep

BOUNDS = ("every schedule of up to three runs with small numbers of iterations, burn-ins and saving intervals, with temperatures one and "
          "above, for several acceptance patterns; every history of 2 to 6 iterations on fixed schedules with reduced menus of draws")
ASSUMPTIONS = ["models with a forward function per target; extra results stored in the first forward function"]
KNOWN = ("predictions and extra results of a starting model that is saved before it was ever evaluated are missing "
         "(their lists are shorter than the parameters')")

NAMES = ["ps", "psfix", "v1", "v1fix", "v2", "v1-ps", "v1-v1", "ps-ps-ps", "mixed", "noise", "noise2"]


def jobs(tier):
    out = [(f"schedules-{n}", "schedules", n, True) for n in ("ps", "v1", "noise")]
    out += [("schedules-no-dpred", "schedules", "v1", False)]
    out += [(f"histories-{n}", "run", n, b, e) for n in NAMES for b, e in ((0, 1), (1, 2))]
    out += [("inversion-runs", "inversion"), ("own-saving", "plain"), ("names", "names")]
    return out


class Ref:
    """the samples that have to be saved, by key"""

    def __init__(self, w, save_dpred):
        self.w, self.save_dpred, self.it = w, save_dpred, 0
        self.samples = []

    def after(self, burnin, every):
        """called after every iteration"""
        self.it += 1
        ch = self.w.chain
        if self.it > burnin and (self.it - burnin) % every == 0 and ch.temperature == 1:
            st = ch.current_state
            s = history.saved_form(self.w.model, st)
            c = self.w.model.from_state(st)
            ev = st.saved_in_extra_storage("extra") if self.w.extra else st.saved_in_cache(f"{self.w.targets[0]}.dpred")
            pred = {}
            if self.save_dpred:
                pred = {f"{t}.dpred": deep(self.w.ref_dpred(t, c) * 1.0) for t in self.w.targets}
            if self.w.extra:
                pred["extra"] = deep(self.w.ref_extra(c))
            self.samples.append((self.it, s, pred, ev))

    def judge(self, job, saved, ctx):
        keys = set()
        for _, s, p, _ in self.samples:
            keys |= set(s) | set(p)
        unevaluated = [not ev for _, _, _, ev in self.samples]
        got = {k for k, v in saved.items() if len(v)}
        late = set().union(*[set(p) for _, _, p, _ in self.samples]) if self.samples else set()
        if got != keys and not (any(unevaluated) and keys - got <= late and got <= keys):
            job.violation("the keys of the saved samples are not the model's", keys=sorted(got), expected=sorted(keys), **ctx)
            return
        for k in sorted(keys):
            is_pred = k in late
            want = [p[k] if is_pred else s[k] for _, s, p, _ in self.samples]
            have = [deep(v) for v in saved.get(k, [])]
            if not _close(have, want):
                if is_pred and any(unevaluated):
                    n0 = sum(unevaluated)
                    if all(unevaluated[:n0]) and _close(have, want[n0:]):
                        job.known_finding(KNOWN)
                        continue
                job.violation("the saved samples of a key are not the models held at the scheduled iterations", key=k,
                              saved=have, expected=want, iterations=[i for i, *_ in self.samples], **ctx)
                return


def _close(a, b):
    if isinstance(a, (tuple, list)):
        return isinstance(b, (tuple, list)) and len(a) == len(b) and all(_close(x, y) for x, y in zip(a, b))
    if isinstance(a, dict):
        return isinstance(b, dict) and set(a) >= set(b) and all(_close(a[k], b[k]) for k in b)
    if isinstance(a, float) or isinstance(b, float):
        return abs(a - b) <= 1e-12 * (1 + abs(b))
    return a == b


PATTERNS = [(True,), (False,), (True, False), (False, False, True)]


def schedules(job, name, save_dpred):
    ns = (0, 1, 3) if job.quick else (0, 1, 2, 3, 4, 5)
    burn = (0, 1, 3) if job.quick else (0, 1, 2, 3, 5, 7)
    every = (1, 2, 3) if job.quick else (1, 2, 3, 4)
    temps = [(1, 1, 1), (2.0, 1, 1.0), (1, 3, 1)]
    n = 0
    for n1, n2, n3, b, e, T in itertools.product((2, 4, 5), ns, ns[:2], burn, every, temps):
        # the second run may have another burn-in and interval
        for b2, e2 in ((b, e), (b + 1, 1 + e % 3)):
            n += 1
            pat = PATTERNS[n % len(PATTERNS)]

            def one():
                w = World(name, save_dpred=save_dpred)
                ref = Ref(w, save_dpred)
                for (k, bb_, ee), t in zip(((n1, b, e), (n2, b2, e2), (n3, b, e)), T):
                    w.chain.temperature = t
                    w.chain.advance_chain(k, burnin_iterations=bb_, save_every=ee, verbose=False,
                                          begin_iteration=lambda c: None, end_iteration=lambda c: ref.after(bb_, ee))
                return w, ref
            (w, ref), trace = history.single(one, pat, salt=n)
            job.traces += 1
            job.states += len(ref.samples)
            job.transitions += ref.it
            ctx = dict(runs=[(n1, b, e), (n2, b2, e2), (n3, b, e)], temperatures=T, pattern=pat, trace=trace[:60])
            ref.judge(job, w.chain.saved_states, ctx)
            if n == 1:
                job.sample(**ctx)


def run(job, name, burnin, every):
    def one(depth):
        w = World(name)
        ref = Ref(w, True)
        for _ in range(depth):
            w.advance(1, burnin_iterations=burnin, save_every=every)
            ref.after(burnin, every)
        return w, ref
    k = 0
    for (w, ref), trace in history.histories(job, one, budget=700 if job.quick else 60000, min_depth=3 if every == 2 else 2, int_menu=history.one_int,
                                             menu=history.one_of if "-" in name else history.ends):
        job.transitions += ref.it
        job.states += len(ref.samples)
        ref.judge(job, w.chain.saved_states, dict(burnin=burnin, every=every, trace=trace))
        k += 1
        if k == 1:
            job.sample(history=trace)


def inversion(job):
    """the same through BayesianInversion.run, several chains and runs: all chains keep their own schedule"""
    for runs in ([(3, 0, 1)], [(5, 2, 2)], [(4, 1, 3), (5, 1, 3)], [(2, 5, 1), (3, 5, 1), (4, 5, 1)], [(3, 0, 2), (4, 5, 1)]):
        for nch in (1, 3):
            for salt in range(3):
                def one():
                    w = World("v1", n_chains=nch)
                    import bayesbay as bb
                    refs = []
                    for ch in w.chains:
                        v = type("V", (), dict(chain=ch, model=w.model, targets=w.targets, extra=True,
                                               ref_dpred=w.ref_dpred, ref_extra=w.ref_extra))
                        refs.append(Ref(v, True))
                    sampler = bb.samplers.VanillaSampler()
                    cur = {}
                    sampler.add_on_end_iteration(
                        lambda s, c: refs[[x is c for x in w.inv.chains].index(True)].after(*cur["p"]))
                    for n, b, e in runs:
                        cur["p"] = (b, e)
                        w.inv.run(sampler=sampler, n_iterations=n, burnin_iterations=b, save_every=e, verbose=False,
                                  parallel_config={"n_jobs": 1})
                    return w, refs
                (w, refs), trace = history.single(one, PATTERNS[salt], salt=salt)
                job.traces += 1
                for i, (ch, ref) in enumerate(zip(w.inv.chains, refs)):
                    job.transitions += ref.it
                    job.states += len(ref.samples)
                    if ref.it != sum(r[0] for r in runs):
                        job.violation("a chain did not run the requested number of iterations", chain=i, iterations=ref.it, runs=runs)
                    ref.judge(job, ch.saved_states, dict(chain=i, runs=runs, salt=salt))


def plain(job):
    """models that are numbers or dictionaries"""
    import bayesbay as bb
    for kind, n, b, e, T, pat in itertools.product(("number", "dict"), (1, 2, 5), (0, 1, 2), (1, 2), (1, 2.5), PATTERNS):
        def one():
            mk = (lambda i: i) if kind == "number" else (lambda i: {"a": i, "b": [i, 2 * i]})
            cnt = [0]

            def perturb(m):
                cnt[0] += 1
                return mk(cnt[0]), 0.0
            inv = bb.BaseBayesianInversion([mk(0)], [perturb], log_like_func=lambda m: 0.0 if (m if kind == "number" else m["a"]) == 0 else -1.0,
                                           n_chains=1)
            ch = inv.chains[0]
            ch.temperature = T
            want = []
            for i in range(1, n + 1):
                ch.advance_chain(1, burnin_iterations=b, save_every=e, verbose=False)
                if i > b and (i - b) % e == 0 and T == 1:
                    want.append(ch.current_state)
            return ch.saved_states, want
        (saved, want), trace = history.single(one, pat)
        job.traces += 1
        job.transitions += n
        job.states += len(want)
        if kind == "number":
            ok = list(saved) == want
        else:
            ok = not want and not saved or (set(saved) == {"a", "b"} and saved["a"] == [x["a"] for x in want]
                                            and saved["b"] == [x["b"] for x in want])
        if not ok:
            job.violation("saved models are not those held at the scheduled iterations", kind=kind, n=n, burnin=b, every=e,
                          T=T, saved=saved, expected=want)


def names(job):
    """parameter, space and target names do not matter for what is saved"""
    import bayesbay as bb
    from mc.spec import Sp, Pr, Model
    for space, par, targ, extra in itertools.product(("n_dimensions", "s", "dpred", "a.b"), ("n_dimensions_x", "p", "dpred", "std"),
                                                     ("t", "my dpred", "x.n_dimensions"), ("extra", "e.n_dimensions", "adpred")):
        with rng.paused():
            m = Model([Sp(space, "ps", 1, 3, [Pr(par, "U", 0.0, 5.0)])])

            def f(s):
                s.save_to_extra_storage(extra, float(s[space][par].sum()))
                return np.array([float(s[space][par].sum())])
            ll = bb.likelihood.LogLikelihood(bb.likelihood.Target(targ, np.zeros(1), covariance_mat_inv=1e-3), f)
            inv = bb.BayesianInversion(bb.parameterization.Parameterization([x.build() for x in m.spaces]), ll, n_chains=1)
            ch = inv.chains[0]
            ch.current_state = m.to_state((((None, (1.0,)), (None, (2.0,))),))

        def one():
            want = []
            for _ in range(5):
                ch.advance_chain(1, save_every=1, verbose=False)
                st = ch.current_state
                want.append((st[space].n_dimensions, st[space][par].tolist(), [float(st[space][par].sum())]))
            return want
        want, trace = history.single(one, (True, True, False), salt=4)
        job.traces += 1
        job.transitions += 5
        job.states += 1
        sv = ch.saved_states
        keys = {f"{space}.n_dimensions", f"{space}.{par}", f"{targ}.dpred", extra}
        ctx = dict(space=space, parameter=par, target=targ, extra=extra)
        if set(sv) != keys:
            job.violation("the keys of the saved samples are not the model's", keys=sorted(sv), expected=sorted(keys), **ctx)
            continue
        n0 = 5 - len(sv[extra])
        if n0:
            continue        # a starting model that was never evaluated: judged elsewhere
        for k, g in ((f"{space}.n_dimensions", lambda x: x[0]), (f"{space}.{par}", lambda x: x[1]),
                     (f"{targ}.dpred", lambda x: x[2]), (extra, lambda x: x[2][0])):
            if [deep(v) for v in sv[k]] != [deep(np.array(g(x))) if isinstance(g(x), list) else g(x) for x in want]:
                job.violation("the saved samples of a key are not the models held", key=k, saved=sv[k], expected=[g(x) for x in want], **ctx)
