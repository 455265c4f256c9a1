"""C09: proposing, evaluating, accepting and rejecting never alters another model or a saved sample."""
import numpy as np
from mc import rng, history
from mc.history import World, deep
from .c08 import NAMES

BOUNDS = ("every history of 2 to 6 iterations (the depth_n counts tell how many configurations went how deep) from one starting point per configuration, with reduced menus of draws, "
          "every proposal both accepted and rejected; every model held or saved earlier compared by value after every iteration")
ASSUMPTIONS = ["histories start from one or two listed models per configuration"]


def jobs(tier):
    out = []
    for n in NAMES:
        out.append((n, "run", n, False))
    for n in ("ps", "v1", "v2", "v1-v2", "v1-v1", "ps-v2", "ps-ps-ps", "noise2"):
        out.append((n + "-deep", "run", n, True))
    for n in ("v1", "v2", "poly", "v1-ps", "v1-v1", "v2-v1", "ps-ps-ps", "noise2", "mixed"):
        out.append((f"moves-{n}", "moves", n))
    return out


class Watch:
    """remembers the values of objects and tells when one has changed"""

    def __init__(self):
        self.seen = []

    def add(self, label, obj):
        self.seen.append((label, obj, deep(obj)))

    def check(self, job, trace, where):
        for i, (label, obj, was) in enumerate(self.seen):
            now = deep(obj)
            if now != was:
                job.violation(f"{label} changed after the fact", where=where, was=repr(was), now=repr(now), trace=trace)
                self.seen[i] = (label, obj, now)
                return False
        return True

    def saved(self, chain, done):
        """entries saved since the last call; returns the new counts"""
        for k, vs in list(chain.saved_states.items()):
            for v in vs[done.get(k, 0):]:
                self.add(f"the saved sample of {k}", v)
            done[k] = len(vs)
        return done

    def cache(self, st):
        for k, v in st.cache.items():
            if isinstance(v, np.ndarray):
                self.add(f"a cached {k}", v)
        for k, v in st.extra_storage.items():
            self.add(f"an extra result {k}", v)


def run(job, name, deep_only):
    menu = history.one_of if deep_only else history.inside if name == "poly" else history.ends

    def one(depth):
        # parameters of the forward are only read
        w = World(name)
        watch, done = Watch(), {}
        ch = w.chain
        watch.add("the starting model", ch.current_state)
        watch.saved(ch, done)
        for i in range(depth):
            held = ch.current_state
            w.proposals.clear()
            w.advance()
            ex = rng.Ctl.explorer
            ok = watch.check(job, list(ex.trace), f"iteration {i + 1}")
            if not ok:
                return None
            watch.add("a model held earlier", ch.current_state)
            watch.cache(ch.current_state)
            watch.saved(ch, done)
            if ch.current_state is not held and (not w.proposals or ch.current_state is not w.proposals[-1][2]):
                job.violation("the chain holds neither its former model nor the proposed one", trace=list(ex.trace))
            job.transitions += 1
        return len(watch.seen)
    n = 0
    for res, trace in history.histories(job, one, menu=menu, int_menu=history.one_int if deep_only else history.few_ints):
        n += 1
        if res:
            job.states += res
        if n <= 1:
            job.sample(history=trace, watched=res)
    job.count("histories", n)


def moves(job, name):
    """every move called directly on one model, all draws: the model, its nested states and arrays keep their
    values, and mutating what a move returned cannot reach the model it came from"""
    import bayesbay as bb
    w = World(name)
    m = w.model
    funcs = w.inv.perturbation_funcs
    starts = [w.start] + [c for c in list(m.expected(w.start, 1))[:40 if job.quick else 400:8] if m.logpi(c) > -np.inf]
    for c in starts:
        job.states += 1
        st = m.to_state(c)
        st.save_to_cache("d1.dpred", np.array([1., 2.]))
        st.save_to_extra_storage("extra", np.array([3.]))
        before = deep(st)
        for f in funcs:
            for res, wgt, trace in rng.Explorer(radius=1, max_draws=40, menu=history.ends).run_all(lambda: f(st)):
                job.transitions += 1
                if res is rng.Truncated:
                    continue
                job.traces += 1
                new = res[0]
                if deep(st) != before or st.load_from_cache("d1.dpred").tolist() != [1., 2.] or st.extra_storage["extra"].tolist() != [3.]:
                    job.violation("a move alters the model it starts from", model=c, trace=trace)
                    st = m.to_state(c)
                    st.save_to_cache("d1.dpred", np.array([1., 2.]))
                    st.save_to_extra_storage("extra", np.array([3.]))
