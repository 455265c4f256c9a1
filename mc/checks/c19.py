"""C19: results are exactly the chains' saved samples."""
import itertools
import numpy as np
from mc import rng, history
from mc.history import World, deep
from mc.checks.c12 import Ref, _close

BOUNDS = ("one to three chains (thorough: four) with every combination of zero to two samples each (thorough: three), then further iterations; "
          "every request of one key, of pairs of keys, of all keys and of unknown ones, as a string, list, tuple or set; concatenated or not; "
          "every subset and order of the chains; models that are states, dictionaries, numbers, arrays, strings and objects; parallel tempering runs")
ASSUMPTIONS = ["a chain without samples may or may not appear as an empty list",
               "predictions of models saved before they were evaluated are judged by C12"]
WORLDS = ["ps", "v1", "v1-ps", "noise2", "mixed"]


def jobs(tier):
    out = [(f"states-{n}-{d}", "states", n, d) for n in WORLDS for d in ((True, False) if n in ("v1", "noise2") else (True,))]
    out += [(f"plain-{k}", "plain", k) for k in PLAIN]
    out += [("names", "names"), ("tempering", "tempering")]
    return out


# ------------------------------------------------------------------ the reference
def expected(samples, keys, concatenate):
    """samples: per chain, {key: list} (or a list); the results they make"""
    if any(isinstance(s, list) for s in samples):
        return [x for s in samples for x in s] if concatenate else [list(s) for s in samples]
    out = {}
    for s in samples:
        for k, v in s.items():
            if len(v) and (keys is None or k in keys):
                if concatenate:
                    out.setdefault(k, []).extend(v)
                else:
                    out.setdefault(k, []).append(list(v))
    return out


def normal(res):
    """results without empty lists"""
    if isinstance(res, dict):
        out = {}
        for k, v in res.items():
            v = [x for x in v if not (isinstance(x, list) and not len(x))]
            if v:
                out[k] = v
        return out
    return [x for x in res if not (isinstance(x, list) and not len(x))]


def requests(keys):
    keys = sorted(keys)
    yield None, None
    for k in keys:
        yield k, [k]
        yield [k], [k]
    for a, b in itertools.combinations(keys, 2):
        yield [b, a], [a, b]
    if len(keys) > 1:
        yield tuple(keys[:2]), keys[:2]
        yield set(keys[1:]), keys[1:]
    yield list(keys), keys
    yield list(keys) + ["unknown"], keys
    for u in ("unknown", ""):
        yield u, []
    yield ["unknown"], []
    for k in keys[:3]:
        for x in (k[:-1], k + "x"):
            yield x, [y for y in [x] if y in keys]
        yield [k + "x", k.split(".")[0]], [x for x in (k + "x", k.split(".")[0]) if x in keys]


def judge(job, inv, samples, ctx):
    """every request gives what the chains saved; samples: the reference, per chain"""
    keys = set().union(*[set(s) for s in samples if isinstance(s, dict)]) if samples else set()
    before = [freeze(ch) for ch in inv.chains]
    reqs = list(requests(keys)) if keys else [(None, None), ("a", None), (["a", "b"], None)]
    for rep in range(2):
        for (req, want_keys), cc in itertools.product(reqs, (True, False)):
            if want_keys is not None:
                want_keys = [k for k in want_keys if k in keys]
            if isinstance(req, str) and req in keys:
                want_keys = [req]
            res = inv.get_results(keys=req, concatenate_chains=cc)
            job.transitions += 1
            want = expected(samples, want_keys, cc)
            if not same(res, want):
                job.violation("the results are not the saved samples of the chains", keys=req, concatenate_chains=cc, results=values(res),
                              expected=values(want), read=rep + 1, **ctx)
                return
    # any chains, in any order
    chains = list(inv.chains)
    perms = [list(p) for r in range(1, len(chains) + 1) for p in itertools.permutations(range(len(chains)), r)]
    for p in perms:
        for cc in (True, False):
            for req in (None,) + tuple(sorted(keys)[:1]):
                got = inv.get_results_from_chains([chains[i] for i in p], req, cc)
                job.transitions += 1
                want = expected([samples[i] for i in p], None if req is None else [req], cc)
                if not same(got, want):
                    job.violation("the results of the given chains are not their saved samples", chains=p, keys=req, concatenate_chains=cc,
                                  results=values(got), expected=values(want), **ctx)
                    return
    got = type(inv).get_results_from_chains(chains[-1])
    if not same(got, expected([samples[-1]], None, True)):
        job.violation("the results of a single chain are not its saved samples", results=values(got), **ctx)
    if [freeze(ch) for ch in inv.chains] != before:
        job.violation("reading results changed a chain", **ctx)


def same(res, want):
    if isinstance(want, dict) and not want and isinstance(res, list):
        return not normal(res)      # nothing has been saved
    if isinstance(res, dict) != isinstance(want, dict):
        return not len(normal(res)) and not len(normal(want))
    a, b = values(normal(res)), values(normal(want))
    return _close(a, b) and _close(b, a)


def values(x):
    if isinstance(x, dict):
        return {k: values(v) for k, v in x.items()}
    if isinstance(x, list):
        return [values(v) for v in x]
    return deep(x)


def freeze(ch):
    sv = ch.saved_states
    return (values(dict(sv)) if isinstance(sv, dict) else values(list(sv)), deep(ch.current_state), repr(ch.statistics), ch.temperature)


def prefix(job, old, new, ctx):
    """per chain, earlier samples come first"""
    for i, (a, b) in enumerate(zip(old, new)):
        for k in a if isinstance(a, dict) else [None]:
            x = a if k is None else a[k]
            y = b if k is None else b.get(k, [])
            if not _close(values(y[:len(x)]), values(x)):
                job.violation("samples read earlier changed", chain=i, key=k, **ctx)


# ------------------------------------------------------------------ states
def counts(tier_quick):
    n = 3 if tier_quick else 4
    out = []
    for nch in range(1, n + 1):
        out += list(itertools.product(range(3), repeat=nch))
    if not tier_quick:
        out += list(itertools.product(range(4), repeat=3))
    return out


def states(job, name, save_dpred):
    for j, c in enumerate(counts(job.quick)):
        if name not in ("ps", "v1") and job.quick and j % 3 == 1:
            continue

        def one():
            w = World(name, n_chains=len(c), save_dpred=save_dpred)
            refs = []
            for ch in w.chains:
                v = type("V", (), dict(chain=ch, model=w.model, targets=w.targets, extra=True, ref_dpred=w.ref_dpred, ref_extra=w.ref_extra))
                refs.append(Ref(v, save_dpred))
            out = []
            for phase in range(3):
                for i, ch in enumerate(w.chains):
                    n = c[i] if phase == 0 else c[(i + phase) % len(c)] * (phase % 2)
                    for _ in range(n):
                        ch.advance_chain(1, save_every=1, verbose=False)
                        refs[i].after(0, 1)
                with rng.paused():
                    out.append([sample_lists(w, r, ch, save_dpred) for r, ch in zip(refs, w.chains)])
                    judge(job, w.inv, out[-1], dict(model=name, samples=c, phase=phase))
                    if phase:
                        prefix(job, out[-2], out[-1], dict(model=name, samples=c, phase=phase))
            return w
        history.single(one, history_patterns[j % 3], salt=j)
        job.traces += 1
        job.states += 3
    job.sample(model=name, samples=c)


history_patterns = [(True,), (True, False), (True, True, False)]


def sample_lists(w, ref, ch, save_dpred):
    """what the chain has to have saved, by key"""
    out = {}
    evaluated = all(ev for *_, ev in ref.samples)
    for _, s, p, _ in ref.samples:
        for k, v in s.items():
            out.setdefault(k, []).append(undeep(v))
        if evaluated:
            for k, v in p.items():
                out.setdefault(k, []).append(undeep(v))
    if not evaluated:
        for k in ch.saved_states:
            if k not in out:
                out[k] = list(ch.saved_states[k])
    return out


class Deep:
    pass


def undeep(v):
    """the value a deep form stands for"""
    if isinstance(v, tuple) and v and v[0] == "A":
        return np.array(v[2]).reshape(v[1])
    if isinstance(v, tuple) and v and v[0] == "L":
        return [undeep(x) for x in v[1]]
    if isinstance(v, tuple) and v and v[0] == "D":
        return {k: undeep(x) for k, x in v[1].items()}
    return v


# ------------------------------------------------------------------ other models
class Thing:
    def __init__(self, i):
        self.i = i


class Listed(Thing):
    """an object with an attribute named like a method of dictionaries"""
    keys = ["a"]


PLAIN = dict(number=lambda i, c: i + 10 * c, array=lambda i, c: np.array([i, c]), text=lambda i, c: f"a{i}{c}", tuple=lambda i, c: (i, [c]),
             list=lambda i, c: [i, c], object=lambda i, c: Thing((i, c)), listed=lambda i, c: Listed((i, c)), none=lambda i, c: None,
             dict=lambda i, c: {"a": i, "b": [i, c], "a.b": np.array([i])}, nested=lambda i, c: {"a": {"b": i}, "ab": c, 3: i})


def plain(job, kind):
    import bayesbay as bb
    mk = PLAIN[kind]
    n_done = 0
    for j, c in enumerate(counts(job.quick)):
        for T in ((1,), (1, 2)):
            def perturb(m):
                cnt[0] += 1
                return mk(cnt[0], 7), 0.0

            def one():
                inv = bb.BaseBayesianInversion([mk(0, i) for i in range(len(c))], [perturb], log_like_func=lambda m: 0.0, n_chains=len(c))
                want = [[] for _ in c]
                old = None
                for phase in range(2):
                    for i, ch in enumerate(inv.chains):
                        ch.temperature = T[i % len(T)]
                        for _ in range(c[i] if phase == 0 else 1):
                            ch.advance_chain(1, save_every=1, verbose=False)
                            if ch.temperature == 1:
                                want[i].append(ch.current_state)
                    with rng.paused():
                        if kind in ("dict", "nested"):
                            w2 = [{k: [m[k] for m in ms] for k in ms[0]} if ms else {} for ms in want]
                        else:
                            w2 = [list(ms) for ms in want]
                        judge_plain(job, inv, w2, dict(kind=kind, samples=c, temperatures=T, phase=phase), kind)
                        if old is not None:
                            prefix(job, old, w2, dict(kind=kind, samples=c))
                        old = w2
                return inv
            cnt = [0]
            history.single(one, history_patterns[j % 3], salt=j)
            job.traces += 1
            job.states += 2
    job.sample(kind=kind)


def judge_plain(job, inv, samples, ctx, kind):
    if kind in ("dict", "nested"):
        if kind == "nested":
            # keys that are no strings can be asked for as well
            for req in ([3], ["a", 3], None):
                for cc in (True, False):
                    got = inv.get_results(keys=req, concatenate_chains=cc)
                    if not same(got, expected(samples, req, cc)):
                        job.violation("the results are not the saved samples of the chains", keys=req, results=values(got), **ctx)
            return
        return judge(job, inv, samples, ctx)
    # lists of models: keys are ignored
    before = [list(ch.saved_states) for ch in inv.chains]
    for rep in range(2):
        for req, cc in itertools.product((None, "a", ["a", "b"]), (True, False)):
            res = inv.get_results(keys=req, concatenate_chains=cc)
            job.transitions += 1
            flat = res if cc else [x for r in res for x in r]
            want = [m for s in samples for m in s]
            ok = type(res) is list and len(flat) == len(want) and all(x is y for x, y in zip(flat, want))
            if ok and not cc:
                ok = [len(r) for r in res if len(r)] == [len(s) for s in samples if len(s)]
            if not ok:
                job.violation("the results are not the saved models of the chains, in order", keys=req, concatenate_chains=cc, results=res,
                              expected=want, **ctx)
                return
    after = [list(ch.saved_states) for ch in inv.chains]
    if any(len(a) != len(b) or any(x is not y for x, y in zip(a, b)) for a, b in zip(before, after)):
        job.violation("reading results changed what a chain saved", **ctx)


# ------------------------------------------------------------------ names
def names(job):
    """keys that contain or extend one another"""
    import bayesbay as bb
    from mc.spec import Sp, Pr, Model
    for sn, pn in itertools.product((("s", "ss"), ("a.b", "a"), ("n_dimensions", "dpred")), (("p", "pp"), ("p", "p.q"), ("b.p", "p"), ("dpred", "extra2"))):
        with rng.paused():
            m = Model([Sp(s, "ps", 1, 2, [Pr(p, "U", 0.0, 5.0) for p in pn]) for s in sn])
            if any(f"{a}.{p}" == f"{b}.{q}" for a, p in itertools.product(sn, pn) for b, q in itertools.product(sn, pn) if (a, p) != (b, q)):
                continue

            def f(s):
                return np.array([float(sum(s[a][p].sum() for a in sn for p in pn))])
            ll = bb.likelihood.LogLikelihood(bb.likelihood.Target("t", np.zeros(1), covariance_mat_inv=1e-3), f)
            inv = bb.BayesianInversion(bb.parameterization.Parameterization([x.build() for x in m.spaces]), ll, n_chains=2)
            for ch in inv.chains:
                ch.current_state = m.to_state((((None, (1.0, 2.0)),), ((None, (3.0, 4.0)), (None, (0.5, 1.0)))))

        def one():
            out = []
            for ch in inv.chains:
                want = {f"{a}.{k}": [] for a in sn for k in pn + ("n_dimensions",)}
                for _ in range(4):
                    ch.advance_chain(1, save_every=1, verbose=False)
                    for a in sn:
                        want[f"{a}.n_dimensions"].append(ch.current_state[a].n_dimensions)
                        for p in pn:
                            want[f"{a}.{p}"].append(np.array(ch.current_state[a][p]))
                if "t.dpred" in ch.saved_states:
                    want["t.dpred"] = list(ch.saved_states["t.dpred"])
                out.append(want)
            return out
        samples, _ = history.single(one, (True, True, False), salt=2)
        job.traces += 1
        job.states += 1
        judge(job, inv, samples, dict(spaces=sn, parameters=pn))


def tempering(job):
    """a sampler under which the chains save different numbers of samples"""
    import bayesbay as bb
    for n, runs, swap in itertools.product((2, 3), ([6], [4, 5]), (1, 2, 3)):
        def one():
            w = World("v1", n_chains=n)
            got = [[] for _ in range(n)]

            def end(s, ch):
                if ch.temperature == 1:
                    got[[x is ch for x in w.inv.chains].index(True)].append((ch.current_state["s"].n_dimensions, np.array(ch.current_state["s"]["p"])))
            for k in runs:
                s = bb.samplers.ParallelTempering(temperature_max=3, swap_every=swap)
                s.add_on_end_iteration(end)
                w.inv.run(s, n_iterations=k, burnin_iterations=0, save_every=1, verbose=False, parallel_config={"n_jobs": 1})
            return w, got
        for salt in range(4):
            (w, got), _ = history.single(one, history_patterns[salt % 3], salt=salt)
            job.traces += 1
            job.states += n
            job.transitions += sum(runs) * n
            samples = [{"s.n_dimensions": [x[0] for x in g], "s.p": [x[1] for x in g]} for g in got]
            for keys, cc in itertools.product((["s.p"], ["s.n_dimensions"], ["s.p", "s.n_dimensions"]), (True, False)):
                res = w.inv.get_results(keys=keys, concatenate_chains=cc)
                if not same(res, expected(samples, keys, cc)):
                    job.violation("the results are not the saved samples of the chains", chains=n, runs=runs, keys=keys, concatenate_chains=cc,
                                  results=values(res), expected=values(expected(samples, keys, cc)))
