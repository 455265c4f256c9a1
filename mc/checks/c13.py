"""C13: proposal and acceptance statistics count exactly what happened."""
import itertools
from collections import Counter
from mc import rng, history, spec
from mc.history import World
from .c08 import NAMES

BOUNDS = ("every history of 2 to 6 iterations with reduced menus of draws, failures of forward and user functions included, and fixed "
          "histories of up to 40 iterations; reference counters compared after every iteration")
ASSUMPTIONS = ["the kind of a parameter-space move is identified from what it proposed; a refused proposal that leaves no trace only "
               "has to be counted under one kind"]

KIND = dict(birth="BirthPerturbation", death="DeathPerturbation", value="ParamPerturbation", site="ParamPerturbation")


def jobs(tier):
    out = [(n, "run", n, None) for n in NAMES]
    out += [(f"{n}-failing-{f}", "run", n, f) for n in ("v1", "noise", "v1-ps") for f in ("forward", "perturb", "both")]
    out += [("long", "long"), ("functions", "functions", tier), ("resumed", "resumed")]
    return out


class Fwd(Exception):
    pass


def _ref(n):
    return dict(proposed=Counter(), accepted=Counter(), total=0, acc=0, kinds=Counter(), kinds_acc=Counter(), exc=Counter())


def _num(d, k):
    v = d.get(k, 0)
    return v if not isinstance(v, dict) else sum(v.values())


def compare(job, ch, ref, ctx):
    st = ch.statistics
    P, A = st["n_proposed_models"], st["n_accepted_models"]
    ok = True

    def bad(what, **kw):
        nonlocal ok
        ok = False
        job.violation(what, statistics=dict(st), **kw, **ctx)
    if st["n_proposed_models_total"] != ref["total"]:
        bad("the total number of proposals is not the number of iterations", iterations=ref["total"])
    elif st["n_accepted_models_total"] != ref["acc"]:
        bad("the total number of acceptances is not the number of accepted proposals", accepted=ref["acc"])
    elif {k: v for k, v in ((k, _num(P, k)) for k in P) if v} != dict(ref["proposed"]):
        bad("proposals per perturbation are miscounted", expected=dict(ref["proposed"]))
    elif {k: v for k, v in ((k, _num(A, k)) for k in A) if v} != {k: v for k, v in ref["accepted"].items() if v}:
        bad("acceptances per perturbation are miscounted", expected=dict(ref["accepted"]))
    elif {k: v for k, v in st["exceptions"].items() if v} != dict(ref["exc"]):
        bad("failures are miscounted", expected=dict(ref["exc"]))
    else:
        # per kind of move
        for tab, want, what in ((P, ref["kinds"], "proposals"), (A, ref["kinds_acc"], "acceptances")):
            have = {(k, kk): v for k, d in tab.items() if isinstance(d, dict) for kk, v in d.items() if v}
            for key, n in want.items():
                # a perturbation of values and one of sites differ by name only
                got = sum(v for (k, kk), v in have.items() if k == key[0] and kk.startswith(key[1]) and _matches(kk, key))
                if (got != n if what == "acceptances" else got < n):
                    bad(f"{what} per kind of move are miscounted", kind=key, expected=n, counted=got)
                    return ok
    return ok


def _matches(kk, key):
    site = ".discretization" in kk
    return {"site": site, "value": not site}.get(key[2], True)


def run(job, name, failing):
    heavy = "-" in name

    def fail(w, s):
        w.ftries += 1
        if w.ftries == 2 and failing in ("forward", "both"):
            w.ref["exc"]["ForwardException"] += 1
            raise Fwd()

    def wrap(w, f, s):
        w.ptries += 1
        if w.ptries == 2 and failing in ("perturb", "both"):
            w.ref["exc"]["UserFunctionException"] += 1
            from bayesbay.exceptions import UserFunctionException
            raise UserFunctionException(Fwd("in a perturbation"))
        return f(s)

    def one(depth):
        w = World.__new__(World)
        w.ref, w.ptries, w.ftries = _ref(0), 0, 0
        w.__init__(name, fail=fail, wrap=wrap)
        ch, ref, m = w.chain, w.ref, w.model
        for i in range(depth):
            held = ch.current_state
            c = m.from_state(held)
            w.proposals.clear()
            w.advance()
            if not w.proposals:
                job.violation("an iteration without a proposal", trace=list(rng.Ctl.explorer.trace))
                return None
            fname, old, new, r = w.proposals[-1]
            accepted = ch.current_state is new and new is not held
            ref["total"] += 1
            ref["acc"] += accepted
            ref["proposed"][fname] += 1
            ref["accepted"][fname] += accepted
            if fname.startswith("ParamSpacePerturbation"):
                try:
                    c2 = m.from_state(new)
                    lab = m.classify(c, c2) if c2 != c and not any(spec.duplicates(s, x) for s, x in zip(m.spaces, c2)) else None
                except (spec.Malformed, spec.Tie):
                    lab = None
                if lab:
                    kind = lab[0].split(":")[0]
                    ref["kinds"][(fname, KIND[kind], kind)] += 1
                    ref["kinds_acc"][(fname, KIND[kind], kind)] += accepted
                elif accepted:
                    # accepted without a change that can be classified: exact kinds unknown
                    w.fuzzy = True
            ctx = dict(failing=failing, trace=list(rng.Ctl.explorer.trace))
            if getattr(w, "fuzzy", False):
                ref["kinds_acc"].clear()
            if not compare(job, ch, ref, ctx):
                return None
        return True
    k = 0
    for res, trace in history.histories(job, one, budget=1500 if job.quick else 100000, int_menu=history.one_int,
                                        menu=history.inside if name == "poly" else history.one_of if heavy or failing else history.ends,
                                        max_depth=2 if failing and job.quick else 6):
        n = len([x for x in trace if x[0] == "unit"])
        job.transitions += n
        job.states += n
        k += 1
        if k == 1:
            job.sample(history=trace)


def long(job):
    """longer single histories: totals, sums over kinds and perturbations"""
    for name, pat, salt in itertools.product(NAMES, ((True,), (False,), (True, False)), range(3 if job.quick else 20)):
        def one():
            w = World(name)
            acc = tot = 0
            for _ in range(40):
                held = w.chain.current_state
                w.advance()
                tot += 1
                acc += w.chain.current_state is not held and w.proposals[-1][2] is w.chain.current_state
            return w, tot, acc
        (w, tot, acc), trace = history.single(one, pat, salt)
        job.traces += 1
        job.transitions += tot
        job.states += 1
        st = w.chain.statistics
        by = Counter(p[0] for p in w.proposals)
        P, A = st["n_proposed_models"], st["n_accepted_models"]
        if st["n_proposed_models_total"] != tot or st["n_accepted_models_total"] != acc or \
                {k: _num(P, k) for k in P if _num(P, k)} != dict(by) or sum(_num(A, k) for k in A) != acc:
            job.violation("the statistics do not sum up to what happened", model=name, iterations=tot, accepted=acc,
                          proposals=dict(by), statistics=dict(st), pattern=pat, salt=salt)
        for k in A:
            if isinstance(A[k], dict) and any(v > P[k][kk] for kk, v in A[k].items()):
                job.violation("more acceptances than proposals", model=name, statistics=dict(st))


def functions(job, tier):
    """user perturbations on plain models: names shared or not, every accept/reject/impossible/failing history"""
    import bayesbay as bb
    n = 4 if tier == "quick" else 6

    class Boom(Exception):
        pass

    def build(events, same):
        ref = _ref(0)

        def make(nm):
            def f(m):
                ev = rng.Ctl.explorer.pick("event", [(e, .2) for e in events])
                if ev == "perturb":
                    ref["exc"]["UserFunctionException"] += 1
                    raise Boom()
                ref["last"] = (nm, ev)
                return (m[0] + 1, ev), float("-inf") if ev == "impossible" else 0.0
            f.__name__ = nm
            return f

        def like(a, b):
            if b[1] == "likelihood":
                ref["exc"]["UserFunctionException"] += 1
                raise Boom()
            return 5.0 if b[1] == "accept" else -5000.0
        fs = [make("f"), make("f" if same else "g")]
        inv = bb.BaseBayesianInversion([(0, "start")], fs, log_like_ratio_func=like, n_chains=1)
        return inv.chains[0], ref
    for same in (False, True):
        for events in (("accept", "reject", "impossible"), ("accept", "perturb"), ("reject", "likelihood")):
            depth = n - 1

            def one():
                ch, ref = build(events, same)
                # at most two failures in a row: longer ones are C14's
                for _ in range(depth):
                    ch.advance_chain(1, verbose=False)
                    nm, ev = ref["last"]
                    ref["total"] += 1
                    ref["proposed"][nm] += 1
                    ref["acc"] += ev == "accept"
                    ref["accepted"][nm] += ev == "accept"
                    compare(job, ch, ref, dict(trace=list(rng.Ctl.explorer.trace)))
                return depth
            ex = rng.Explorer(unit=[0.5], max_draws=14 if tier == "quick" else 20)
            # the choice of the perturbation is a discrete draw
            for res, w, trace in ex.run_all(one):
                if res is rng.Truncated:
                    continue
                job.traces += 1
                job.transitions += depth
                job.states += 1


def resumed(job):
    """statistics go on counting over runs through the inversion, for every chain"""
    import bayesbay as bb
    for runs, nch in itertools.product(([3], [2, 3], [1, 1, 4]), (1, 2, 3)):
        def one():
            w = World("v1", n_chains=nch)
            for n in runs:
                w.inv.run(n_iterations=n, verbose=False, save_every=1, parallel_config={"n_jobs": 1})
            return w
        w, trace = history.single(one, (True, False, False), salt=nch)
        job.traces += 1
        job.states += nch
        job.transitions += sum(runs) * nch
        for ch in w.inv.chains:
            st = ch.statistics
            if st["n_proposed_models_total"] != sum(runs) or sum(_num(st["n_proposed_models"], k) for k in st["n_proposed_models"]) != sum(runs):
                job.violation("statistics do not count over several runs", runs=runs, statistics=dict(st))
