"""C24: all ways of reading a model agree, copies share nothing, malformed models are refused."""
import copy as copymod
import itertools
import math
import pickle

import numpy as np

from mc import history, rng
from mc.history import deep
from mc.spec import Sp

BOUNDS = ("from each of 16 small models every sequence of up to 3 (thorough: 4) operations out of: setting values, whole spaces, noise and "
          "nested values, writing in place, copying models and their parts, selecting dimensions, storing cached and extra results, "
          "pickling, moves; at most three live models; every kind of malformed construction")
ASSUMPTIONS = ["moves are taken along one path of draws each (all paths: C01 to C06, C09)"]

NAMES = ["ps", "psfix", "v1", "v1c", "v2", "poly", "ps-v2", "v1-v2", "v2-v1", "v1-ps", "v1-v1", "ps-ps-ps", "mixed", "noise", "noise2"]


def jobs(tier):
    parts = 2 if tier == "quick" else 12
    out = [(f"{n}-{i}" if parts > 1 else n, "run", n, i, parts) for n in NAMES for i in range(parts)]
    return out + [("malformed", "malformed"), ("saved", "saved")]


# ------------------------------------------------------------------ reading a model in four ways
def by_item(m, st):
    out = {s.name: _ps(s, st[s.name], lambda x, k: x[k]) for s in m.spaces}
    out.update({n.name: (st[n.name].std, st[n.name].correlation) for n in m.noises})
    return out


def by_attribute(m, st):
    out = {s.name: _ps(s, getattr(st, s.name), getattr) for s in m.spaces}
    out.update({n.name: (getattr(st, n.name).std, getattr(st, n.name).correlation) for n in m.noises})
    return out


def by_getter(m, st):
    g = lambda x, k: x.get_param_values(k)
    out = {s.name: _ps(s, g(st, s.name), g) for s in m.spaces}
    out.update({n.name: tuple(g(st, n.name)) for n in m.noises})
    return out


def by_dict(m, st):
    d = dict(st.items())
    out = {s.name: _ps_dict(s, d, s.name) for s in m.spaces}
    out.update({n.name: (d[f"{n.name}.std"], d.get(f"{n.name}.correlation")) for n in m.noises})
    if set(iter(st)) != set(d):
        raise KeyError(f"iterating gives {sorted(set(iter(st)))}, items() {sorted(d)}")
    for s in m.spaces:
        e = st[s.name].todict(s.name)
        if _ps_dict(s, e, s.name) != out[s.name]:
            raise KeyError(f"todict() of {s.name} differs from items()")
    return out


def _fields(sp):
    return ([] if sp.kind == "ps" else ["discretization"]) + [p.name for p in sp.params]


def _ps(sp, x, read):
    vals = {}
    nested = {p.name: p for p in sp.nested}
    for k in _fields(sp):
        v = read(x, k)
        vals[k] = [_ps(nested[k], y, read) for y in v] if k in nested else ("A",) + (v.shape, v.tolist())
    return (x.n_dimensions, vals)


def _ps_dict(sp, d, prefix):
    vals = {}
    nested = {p.name: p for p in sp.nested}
    want = {f"{prefix}.{k}" for k in _fields(sp)} | {f"{prefix}.n_dimensions"}
    if not want <= set(d):
        raise KeyError(f"{sorted(d)} instead of {sorted(want)}")
    for k in _fields(sp):
        v = d[f"{prefix}.{k}"]
        vals[k] = [_ps_dict(nested[k], y, f"{prefix}.{k}") for y in v] if k in nested else ("A", v.shape, v.tolist())
    return (d[f"{prefix}.n_dimensions"], vals)


PATHS = dict(item=by_item, attribute=by_attribute, getter=by_getter, dictionary=by_dict)


def mutable_parts(m, st):
    """arrays and containers that belong to a model"""
    arrays, boxes = [], [("model", st), ("param_values", st.param_values), ("cache", st.cache), ("extra", st.extra_storage)]

    def rec(sp, x):
        boxes.append((sp.name, x))
        boxes.append((sp.name + ".param_values", x.param_values))
        boxes.append((sp.name + ".cache", x.cache))
        nested = {p.name: p for p in sp.nested}
        for k in _fields(sp):
            if k in nested:
                boxes.append((k, x[k]))
                for y in x[k]:
                    rec(nested[k], y)
            else:
                arrays.append((f"{sp.name}.{k}", x[k]))
                a = getattr(x, k)
                if a is not x[k]:
                    arrays.append((f"{sp.name}.{k}", a))
    for s in m.spaces:
        rec(s, st[s.name])
    return arrays, boxes


# ------------------------------------------------------------------ the world of one sequence
class Live:
    """the live models, each with what it has to hold"""

    def __init__(self, name):
        with rng.paused():
            self.m, start = history.models(name)
            import bayesbay as bb
            par = bb.parameterization.Parameterization([s.build() for s in self.m.spaces])
            funcs = list(par.perturbation_funcs)
            if self.m.noises:
                ll = bb.likelihood.LogLikelihood([n.build() for n in self.m.noises], [lambda s: np.zeros(1)] * len(self.m.noises))
                funcs += ll.perturbation_funcs
        self.funcs = funcs
        self.models = []
        self.serial = 0
        self.problems = []
        st = self.m.to_state(start)
        self.add(st, by_item(self.m, st))

    def add(self, st, ref, cache=None, extra=None, temperature=1):
        self.models.append([st, ref, dict(cache or {}), dict(extra or {}), temperature])

    def fresh(self, n):
        """new values never used before"""
        self.serial += 1
        return np.array([self.serial + 0.25 + 0.125 * i for i in range(n)])

    def spaces(self):
        """(path, spec) of all addressable space states of the spec: path is a tuple of (name, index)"""
        out = []

        def rec(path, sp):
            out.append((path, sp))
            for p in sp.nested:
                rec(path + (p.name,), p)
        for s in self.m.spaces:
            rec((s.name,), s)
        return out


def resolve(st, path, which=0, read=lambda x, k: x[k]):
    """the space state at a path, entering the first (or last) instance of every nested space"""
    x = read(st, path[0])
    for k in path[1:]:
        x = read(x, k)[which]
    return x


def ref_at(ref, path, which=0):
    x = ref[path[0]]
    for k in path[1:]:
        x = x[1][k][which]
    return x


def replace_at(ref, path, new, which=0):
    """a copy of the reference with the space at the path replaced"""
    ref = dict(ref)
    if len(path) == 1:
        ref[path[0]] = new
        return ref

    def rec(x, path):
        if not path:
            return new
        n, vals = x
        vals = dict(vals)
        lst = list(vals[path[0]])
        lst[which] = rec(lst[which], path[1:])
        vals[path[0]] = lst
        return (n, vals)
    ref[path[0]] = rec(ref[path[0]], path[1:])
    return ref


def A(v):
    return ("A", v.shape, v.tolist())


def operations(live):
    """all operations applicable now: (name, function)"""
    ops = []
    m = live.m
    for i, (st, ref, cache, extra, temp) in enumerate(live.models):
        def op(name, f, i=i):
            ops.append((f"{name}@{i}", f))
        if len(live.models) < 3:
            op("copy", lambda i=i: _copy(live, i, False))
            op("copy-keep", lambda i=i: _copy(live, i, True))
            op("pickle", lambda i=i: _pickle(live, i))
            for j, f in enumerate(live.funcs):
                op(f"move{j}", lambda i=i, j=j: _move(live, i, j))
        op("store", lambda i=i: _store(live, i))
        for n in m.noises[:1]:
            op("noise", lambda i=i, n=n: _noise(live, i, n))
        for path, sp in live.spaces():
            which = -1 if len(path) > 1 else 0
            for p in sp.priors[:1] or ([] if sp.kind == "ps" else ["discretization"]):
                k = p if isinstance(p, str) else p.name
                op(f"set-{'.'.join(path)}.{k}", lambda i=i, path=path, k=k, w=which: _set(live, i, path, k, w))
                op(f"inplace-{'.'.join(path)}.{k}", lambda i=i, path=path, k=k, w=which: _inplace(live, i, path, k, w))
            if len(path) == 1:
                op(f"reverse-{path[0]}", lambda i=i, path=path: _select(live, i, path, list(reversed(range(ref_n(live, i, path))))))
                op(f"first-{path[0]}", lambda i=i, path=path: _select(live, i, path, [0]))
                op(f"part-{path[0]}", lambda i=i, path=path: _part(live, i, path))
    return ops


def ref_n(live, i, path):
    return ref_at(live.models[i][1], path)[0]


def _copy(live, i, keep):
    st, ref, cache, extra, temp = live.models[i]
    new = st.copy(keep_dpred=True) if keep else st.copy()
    live.add(new, ref, None if keep else {}, {}, temp)
    if keep:
        live.models[-1][2] = None
    # (what may be kept with keep_dpred is documented: predictions)


def _pickle(live, i):
    st, ref, cache, extra, temp = live.models[i]
    new = pickle.loads(pickle.dumps(st)) if live.serial % 2 else copymod.deepcopy(st)
    live.add(new, ref, cache, extra, temp)
    if cache is None:
        live.models[-1][2] = None
    if extra is None:
        live.models[-1][3] = None


def _move(live, i, j):
    st, ref, cache, extra, temp = live.models[i]
    live.serial += 1
    (new, r), trace = history.single(lambda: live.funcs[j](st), (True,), salt=live.serial)
    if new is st or r == -math.inf:
        return          # refused
    ref = by_item(live.m, new)
    for how, read in PATHS.items():
        if read(live.m, new) != ref:
            live.problems.append((how, read(live.m, new), ref))
    # (a proposed model may share what the move left alone with the model it came from)
    live.add(new.copy(), ref, {}, {}, temp)


def _store(live, i):
    live.serial += 1
    k, v = f"x{live.serial % 2}", float(live.serial)
    st, _, cache, extra, _ = live.models[i]
    st.save_to_cache(k, v)
    st.save_to_extra_storage("e" + k, v)
    st.temperature = 1.0 + live.serial
    live.models[i][4] = st.temperature
    if cache is not None:
        cache[k] = v
    if extra is not None:
        extra["e" + k] = v


def _noise(live, i, n):
    from bayesbay import DataNoiseState
    live.serial += 1
    new = (live.serial + 0.5, 0.25 if n.correlated else None)
    d = DataNoiseState(std=new[0], correlation=new[1])
    live.models[i][0].set_param_values(n.name, d if live.serial % 2 else d.copy())
    live.models[i][1] = dict(live.models[i][1], **{n.name: new})


def _new_values(live, st, path, k, which):
    old = resolve(st, path, which)[k]
    v = live.fresh(old.size).reshape(old.shape)
    return v


def _set(live, i, path, k, which):
    st, ref = live.models[i][:2]
    v = _new_values(live, st, path, k, which)
    read = (lambda x, k: x[k]) if live.serial % 2 else getattr
    resolve(st, path, which, read).set_param_values(k, v)
    n, vals = ref_at(ref, path, which)
    live.models[i][1] = replace_at(ref, path, (n, dict(vals, **{k: A(v)})), which)


def _inplace(live, i, path, k, which):
    st, ref = live.models[i][:2]
    v = _new_values(live, st, path, k, which)
    read = (lambda x, k: x[k]) if live.serial % 2 else getattr
    a = read(resolve(st, path, which, read), k)
    b = a.copy()
    b[0] = v[0]
    a[0] = v[0]
    n, vals = ref_at(ref, path, which)
    live.models[i][1] = replace_at(ref, path, (n, dict(vals, **{k: A(b)})), which)


def _take(x, idx):
    n, vals = x
    return (len(idx), {k: [v[j] for j in idx] if isinstance(v, list) else ("A", (len(idx),) + v[1][1:], [v[2][j] for j in idx])
                       for k, v in vals.items()})


def _select(live, i, path, idx):
    st, ref = live.models[i][:2]
    sel = st[path[0]][idx]
    st.set_param_values(path[0], sel)
    live.models[i][1] = replace_at(ref, path, _take(ref_at(ref, path), idx))


def _part(live, i, path):
    """a copy of one space, or a selection of all its dimensions, goes into the next model"""
    st, ref = live.models[i][:2]
    j = (i + 1) % len(live.models)
    live.serial += 1
    n = ref_n(live, i, path)
    part = st[path[0]].copy() if live.serial % 2 else st[path[0]][list(range(n))]
    live.models[j][0].set_param_values(path[0], part)
    live.models[j][1] = replace_at(live.models[j][1], path, ref_at(ref, path))


def judge(job, live, seq):
    ctx = dict(sequence=seq)
    for how, got, ref in live.problems[:1]:
        job.violation(f"a proposed model read by {how} is another one than read by item", read=got, expected=ref, **ctx)
    for i, (st, ref, cache, extra, temp) in enumerate(live.models):
        for how, read in PATHS.items():
            try:
                got = read(live.m, st)
            except Exception as e:
                job.violation(f"reading a model by {how} fails: {type(e).__name__}: {e}", number=i, **ctx)
                return
            if got != ref:
                job.violation(f"a model read by {how} does not hold the values it was given", number=i, read=got, expected=ref, **ctx)
                return
        if cache is not None and deep(dict(st.cache)) != deep(cache):
            job.violation("a model holds other cached results than were stored in it", number=i, cache=st.cache, expected=cache, **ctx)
        if extra is not None:
            if deep(dict(st.extra_storage)) != deep(extra):
                job.violation("a model holds other extra results than were stored in it", number=i, extra=st.extra_storage,
                              expected=extra, **ctx)
            d = dict(st.items())
            if any(d.get(k) != v for k, v in extra.items()):
                job.violation("extra results are not part of the dictionary view", number=i, **ctx)
        if st.temperature != temp:
            job.violation("a copy has another temperature than its original", number=i, temperature=st.temperature, expected=temp, **ctx)
    parts = [mutable_parts(live.m, x[0]) for x in live.models]
    for a, b in itertools.combinations(range(len(parts)), 2):
        for (n1, x), (n2, y) in itertools.product(parts[a][0], parts[b][0]):
            if np.shares_memory(x, y):
                job.violation("two models share parameter data", parts=(n1, n2), models=(a, b), **ctx)
                return
        ids = {id(x): n for n, x in parts[a][1]}
        for n, y in parts[b][1]:
            if id(y) in ids:
                job.violation("two models share parts", parts=(ids[id(y)], n), models=(a, b), **ctx)
                return


def run(job, name, part, parts):
    depth = 3 if job.quick else 4
    # sequences are rebuilt from the start: models are mutable
    def play(prefix):
        live = Live(name)
        names = []
        for k in prefix:
            o = operations(live)[k]
            o[1]()
            names.append(o[0])
        return live, names

    def rec(prefix):
        live, names = play(prefix)
        job.states += 1
        job.traces += 1
        job.transitions += len(prefix)
        judge(job, live, names)
        if len(prefix) == 2:
            job.sample(sequence=names, models=len(live.models))
        if len(prefix) < depth:
            n = len(operations(live))
            for k in range(n):
                if len(prefix) == 0 and k % parts != part:
                    continue
                rec(prefix + [k])
    rec([])


# ------------------------------------------------------------------ malformed models
def malformed(job):
    import bayesbay as bb
    S, P, N = bb.State, bb.ParameterSpaceState, bb.DataNoiseState
    a = lambda n: np.arange(float(n))
    p = lambda n=2: P(n, {"x": a(n)})
    wrong = []
    for n, k in itertools.product((1, 2, 3), (0, 1, 2, 3, 4)):
        if n == k:
            continue
        wrong.append((f"{k} values for {n} dimensions", lambda n=n, k=k: P(n, {"x": a(k)})))
        wrong.append((f"{k} sites for {n} dimensions", lambda n=n, k=k: P(n, {"discretization": a(k), "x": a(n)})))
        wrong.append((f"the second parameter with {k} values for {n} dimensions", lambda n=n, k=k: P(n, {"x": a(n), "y": a(k)})))
        wrong.append((f"{k} 2D sites for {n} dimensions", lambda n=n, k=k: P(n, {"x": a(n), "discretization": np.zeros((k, 2))})))
        if k:
            wrong.append((f"{k} nested states for {n} dimensions", lambda n=n, k=k: P(n, {"in": [p() for _ in range(k)]})))
    for what, v in (("a tuple", (1.0, 2.0)), ("a list of numbers", [1.0, 2.0]), ("a string", "ab"), ("a list of None", [None, None]),
                    ("a list of models", [S(), S()]), ("a dictionary", {1: 2, 3: 4}), ("a list of noise states", [N(1, 2), N(1, 2)])):
        wrong.append((what + " as values", lambda v=v: P(2, {"x": v})))
        wrong.append((what + " as values, set later", lambda v=v: p().set_param_values("x", v)))
        wrong.append((what + " as new values, set later", lambda v=v: p().set_param_values("y", v)))
    for what, v in (("a number", 3.0), ("None", None), ("an array", a(2)), ("a dictionary", {}), ("a model", S()), ("a tuple", (1.0, None)),
                    ("a string", "x")):
        wrong.append((what + " as a space or noise", lambda v=v: S({"s": p(), "d": v})))
        wrong.append((what + " as a space or noise, set later", lambda v=v: S({"s": p()}).set_param_values("s", v)))
        if what not in ("a number",):
            wrong.append((what + " as the number of dimensions", lambda v=v: P(v, {})))
        if what not in ("a dictionary",):
            wrong.append((what + " as the values of a model", lambda v=v: S(v)))
            wrong.append((what + " as the values of a space", lambda v=v: P(2, v)))
        if what != "a number":
            wrong.append((what + " as temperature", lambda v=v: S({}, v)))
    for k in (1, None, ("x",)):
        wrong.append((f"the parameter name {k!r}", lambda k=k: p().set_param_values(k, a(2))))
        wrong.append((f"the space name {k!r}", lambda k=k: S().set_param_values(k, p())))
        wrong.append((f"reading the parameter {k!r}", lambda k=k: p()[k]))
        wrong.append((f"reading the space {k!r}", lambda k=k: S({"s": p()})[k]))
        wrong.append((f"the parameter name {k!r} at construction", lambda k=k: P(2, {k: a(2)})))
        wrong.append((f"the space name {k!r} at construction", lambda k=k: S({k: p()})))
    wrong.append(("2.0 dimensions", lambda: P(2.0, {"x": a(2)})))
    for what, f in wrong:
        job.states += 1
        job.transitions += 1
        try:
            f()
        except Exception:
            continue
        job.violation("a malformed model is accepted: " + what)
    # refused changes leave the model as it was
    for what, v in (("a tuple", (1.0, 2.0)), ("a number", 3.0), ("a string", "ab"), ("None", None)):
        st = S({"s": p(), "d": N(1.0, None)})
        before = deep(st)
        for f in (lambda: st.set_param_values("s", v), lambda: st.set_param_values("d", v), lambda: st.set_param_values("e", v),
                  lambda: st["s"].set_param_values("x", v), lambda: st["s"].set_param_values("y", v)):
            try:
                f()
            except Exception:
                pass
            job.transitions += 1
            if deep(st) != before:
                job.violation("a refused change modifies the model", change=what, before=before, after=deep(st))
                return
    # well-formed ones
    good = [lambda: P(2, {"x": a(2), "y": np.zeros(2, int)}), lambda: P(1, {"in": [p()]}), lambda: P(3), lambda: S(),
            lambda: S({"s": p(), "d": N(std=1.0, correlation=None), "e": N(1, .5)}, 2), lambda: S({"s": p()}, np.float64(2)),
            lambda: P(2, {"discretization": np.zeros((2, 2))})]
    for i, f in enumerate(good):
        job.states += 1
        try:
            f()
        except Exception as e:
            job.violation(f"a well-formed model is refused: {type(e).__name__}: {e}", number=i)


def saved(job):
    """what a chain saves is what the model's dictionary view holds, and results give the same"""
    import bayesbay as bb
    for name in NAMES:
        for k in range(12):
            live = Live(name)
            names = []
            for j in range(3):
                ops = [o for o in operations(live) if o[0].endswith("@0")]
                o = ops[(k * 5 + j * (k + 3)) % len(ops)]
                o[1]()
                names.append(o[0])
            st = live.models[0][0]
            st.temperature = 1
            inv = bb.BaseBayesianInversion([st], [lambda s: (s, 0.0)], log_like_ratio_func=lambda x, y: 0.0, n_chains=1)
            history.single(lambda: inv.run(n_iterations=2, save_every=1, verbose=False, parallel_config=dict(n_jobs=1)), (True,))
            job.states += 1
            job.traces += 1
            d = dict(st.items())
            for res in (inv.get_results(), inv.chains[0].saved_states):
                job.transitions += 1
                if set(res) != set(d):
                    job.violation("the saved results have other keys than the model", sequence=names, saved=sorted(res), model=sorted(d))
                    continue
                ref = live.models[0][1]
                one = {kk: v[-1] for kk, v in res.items()}
                got = {s.name: _ps_dict(s, one, s.name) for s in live.m.spaces}
                got.update({n.name: (one[f"{n.name}.std"], one.get(f"{n.name}.correlation")) for n in live.m.noises})
                if got != ref:
                    job.violation("the saved results of a model are not its values", sequence=names, saved=got, expected=ref)
