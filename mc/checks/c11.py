"""C11: cached predictions, extra results and neighbour trees always belong to their own model."""
import numpy as np
from mc import rng, history
from mc.history import World, walk

BOUNDS = ("every history of 2 to 6 iterations (the depth_n counts tell how many configurations went how deep) with reduced menus of draws, every proposal both accepted "
          "and rejected, forward failures included; every cached result recomputed after every iteration and in every forward call")
ASSUMPTIONS = ["the forward functions of the check are pure functions of the model"]

NAMES = ["ps", "v1", "v2", "poly", "ps-v2", "v1-v2", "v2-v1", "v1-v1", "mixed", "noise", "noise2"]


def jobs(tier):
    out = [(n, "run", n, None, 0) for n in NAMES]
    out += [(n + "-failing", "run", n, "first", 0) for n in ("v1", "noise", "noise2", "v1-v2")]
    out += [(n + "-long", "run", n, None, 2) for n in ("v1", "v2", "ps-v2", "v1-v2", "noise", "noise2")]
    out += [(n + "-trees", "trees", n) for n in ("v2", "poly", "ps-v2", "v1-v2", "v2-v1")]
    return out


def tree_ok(job, m, st, where, trace=None):
    """every discretization with tree computation has a tree of its own sites"""
    for sp in m.spaces:
        for sub, x in walk(sp, st[sp.name]):
            if sub.kind != "v2" or not sub.kdtree:
                continue
            sites = x["discretization"]
            if not x.saved_in_cache("kdtree"):
                job.violation(f"a 2D discretization without its nearest-neighbour tree {where}", sites=sites, trace=trace)
                return False
            t = x.load_from_cache("kdtree")
            if np.shape(t.data) != np.shape(sites) or not np.array_equal(t.data, sites):
                job.violation(f"a nearest-neighbour tree of other sites {where}", sites=sites, tree=np.array(t.data), trace=trace)
                return False
            for q in ((0.6, 0.7), (2.3, 1.4), (1.4, 3.3)):
                d = np.hypot(*(np.asarray(sites) - q).T)
                if abs(t.query(q)[0] - d.min()) > 1e-9:
                    job.violation(f"a nearest-neighbour tree that gives other neighbours {where}", sites=sites, query=q, trace=trace)
                    return False
    return True


def caches_ok(job, w, st, where, trace):
    m = w.model
    c = m.from_state(st)
    for t in w.targets:
        key = f"{t}.dpred"
        if st.saved_in_cache(key):
            job.count("predictions_recomputed")
            if not np.allclose(st.load_from_cache(key), w.ref_dpred(t, c), rtol=1e-12, atol=1e-12):
                job.violation(f"a cached prediction is not the one of its own model {where}", target=t, model=c,
                              cached=st.load_from_cache(key), recomputed=w.ref_dpred(t, c), trace=trace)
                return False
    if st.saved_in_extra_storage("extra"):
        if abs(st.load_from_extra_storage("extra") - w.ref_extra(c)) > 1e-12:
            job.violation(f"a stored extra result is not the one of its own model {where}", model=c, trace=trace,
                          stored=st.load_from_extra_storage("extra"), recomputed=w.ref_extra(c))
            return False
    return True


def run(job, name, failing, more):
    menu = history.one_of if more or failing else history.inside if name == "poly" else history.ends

    class Fail(Exception):
        pass

    def fail(w, s):
        # the second evaluation fails
        if w.calls == 2:
            raise Fail()

    def probe(w, s, c):
        tree_ok(job, w.model, s, "in a forward function")

    def one(depth):
        w = World(name, probe=probe, fail=fail if failing else None)
        ch = w.chain
        evaluated = False
        for i in range(depth):
            st = w.advance()
            tr = list(rng.Ctl.explorer.trace)
            job.transitions += 1
            if not caches_ok(job, w, st, "after an iteration", tr) or not tree_ok(job, w.model, st, "after an iteration", tr):
                return None
            # once evaluated, the held model has predictions for all targets or none
            have = [st.saved_in_cache(f"{t}.dpred") for t in w.targets]
            evaluated = evaluated or any(have)
            # samples
        sv = ch.saved_states
        n = len(sv["extra"])
        for t in w.targets:
            if len(sv[f"{t}.dpred"]) != n:
                job.violation("a different number of predictions and extra results saved", trace=tr)
                return None
        return n
    k = 0
    for res, trace in history.histories(job, one, menu=menu, int_menu=history.one_int if more else history.few_ints, max_depth=2 if failing and job.quick else 6):
        job.states += len([x for x in trace if x[0] == "unit"])
        k += 1
        if k == 1:
            job.sample(history=trace)


def trees(job, name):
    """initialization and every move from several models hand over complete trees"""
    import bayesbay as bb
    w = World(name)
    m = w.model
    par = w.inv.parameterization
    n = 0
    for st, wgt, trace in rng.Explorer(radius=1, max_draws=14 if name == "poly" else 40, menu=history.ends).run_all(par.initialize):
        job.transitions += 1
        if st is rng.Truncated:
            continue
        job.traces += 1
        n += 1
        tree_ok(job, m, st, "after initialization", trace)
        if n > 400:
            break
    starts = [w.start] + [c for c in list(m.expected(w.start, 1))[:60 if job.quick else 600:6] if m.logpi(c) > -np.inf]
    for c in starts:
        job.states += 1
        st = m.to_state(c)
        for f in w.inv.perturbation_funcs:
            for res, wgt, trace in rng.Explorer(radius=1, max_draws=14 if name == "poly" else 60).run_all(lambda: f(st)):
                job.transitions += 1
                if res is rng.Truncated or res[1] == -np.inf:
                    continue
                job.traces += 1
                tree_ok(job, m, res[0], "after a move", trace)
                tree_ok(job, m, st, "on the former model after a move", trace)
                # copies carry the tree of their own sites
                tree_ok(job, m, res[0].copy(), "on a copy", trace)
