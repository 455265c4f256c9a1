"""Exhaustive comparison of the proposal kernel of the real perturbations with the reference.

For every concrete representation of every given model, every path of every perturbation function
is executed (all random draws enumerated).  From the paths:

 1. the probability (density) q(c -> c') of every transition equals C * q_ref(c -> c') with one
    constant C per kind of move, the same for all models and for births and deaths;
 2. every path reports log(prior ratio x proposal ratio) of the reference, minus infinity exactly
    when the target has zero prior density;
 3. nothing but the reference's moves happens, and every lattice move of the reference is there;
 4. flows pi(c) q(c -> c') min(1, ratio) measured on the implementation balance, for several
    constant likelihood factors, whenever both ends are among the models.
"""
import itertools
import math

from . import rng, spec
from .spec import Malformed, Tie

RTOL = 1e-6


def orders(model, c, limit):
    """concrete orderings of the dimensions of top-level spaces"""
    opts = []
    for s, x in zip(model.spaces, c):
        if s.kind == "v1":
            opts.append([x])
        else:
            opts.append(list(dict.fromkeys(itertools.permutations(x)))[:limit])
    return itertools.product(*opts)


BUDGET = 15000
_limit = {}        # (per job) the greatest number of draws that proved affordable


def bounded(make, fn, max_draws, budget=None):
    """all paths of fn as a list of (result, weight, trace); redrawing loops that multiply the paths beyond the
    budget are cut after fewer draws (their remaining mass is then reported as truncated)"""
    max_draws = min(max_draws, _limit.get("draws", max_draws))
    while True:
        out, cut = [], False
        for item in make(max_draws).run_all(fn):
            out.append(item)
            cut = cut or item[0] is rng.Truncated
            if cut and len(out) > (budget or BUDGET) and max_draws > 5:
                break
        else:
            return out, max_draws
        max_draws = _limit["draws"] = max([d for d in (12, 9, 7, 6) if d < max_draws] or [5])


def explore_state(model, funcs, state_fn, radius, max_draws=60, menu=None):
    """run every path of every function; yields (function index, result state, ratio, weight, trace)"""
    for i, f in enumerate(funcs):
        for res, w, trace in bounded(lambda d: rng.Explorer(radius=radius, max_draws=d, menu=menu),
                                     lambda: f(state_fn()), max_draws)[0]:
            yield i, res, w, trace


def check_kernel(job, model, funcs, canon, radius, labels=None, order_limit=6, max_draws=60,
                 rtol=RTOL, expect=True, menu=None, lambdas=(0.25, 1.0, 4.0), flows=True):
    """labels: prefixes of the labels that are judged (None: all)"""
    _limit.clear()
    judged = lambda l: labels is None or any(l.startswith(x) for x in labels)
    consts = {}          # label -> (constant, where)
    measured = {}        # c -> {c': (label, q, ratio)}
    for c in canon:
        job.states += 1
        if model.logpi(c) == -math.inf:
            raise AssertionError(f"model outside the prior: {c}")
        inst = list(orders(model, c, order_limit))
        for od in inst:
            edges, trunc = {}, 0.0
            for i, res, w, trace in explore_state(model, funcs, lambda: model.to_state(c, od), radius, max_draws, menu):
                job.transitions += 1
                if res is rng.Truncated:
                    trunc += w
                    continue
                try:
                    new, r = res
                    r = float(r)
                except Exception:
                    job.violation("a move does not return (state, log ratio)", model=c, result=res)
                    continue
                if r != r or r == math.inf:
                    job.violation("the log ratio of a move is not a number", model=c, trace=trace, ratio=r)
                    continue
                if r == -math.inf:
                    # refused: the proposed model does not matter, but it must have zero prior
                    try:
                        c2 = model.from_state(new)
                    except Malformed:
                        continue
                    if c2 != c and not any(spec.duplicates(s, x) for s, x in zip(model.spaces, c2)):
                        if model.logpi(c2) > -math.inf and model.classify(c, c2):
                            lab = model.classify(c, c2)[0]
                            if judged(lab):
                                job.violation("a move into the support of the prior is refused", model=c, to=c2,
                                              label=lab, trace=trace)
                    continue
                try:
                    c2 = model.from_state(new)
                except Malformed as e:
                    job.violation(f"a move leads to a malformed model: {e}", model=c, trace=trace)
                    continue
                if c2 == c:
                    continue
                if any(spec.duplicates(s, x) for s, x in zip(model.spaces, c2)):
                    continue        # two sites at one point: probability zero
                try:
                    ref = model.log_ratio(c, c2)
                except Tie:
                    continue
                if ref is None:
                    job.violation("a move changes something else than what it is meant to change", model=c, to=c2, trace=trace)
                    continue
                label, lq, rr = ref
                if judged(label):
                    if rr == -math.inf:
                        job.violation("a move out of the support of the prior is not refused", model=c, to=c2,
                                      label=label, ratio=r, trace=trace)
                        continue
                    if abs(r - rr) > 1e-6 * (1 + abs(rr)):
                        job.violation("the reported log ratio is not log(prior ratio x proposal ratio)", model=c,
                                      to=c2, label=label, ratio=r, expected=rr, trace=trace)
                    job.sample(model=c, to=c2, label=label, ratio=r, expected=rr)
                job.traces += 1
                e = edges.setdefault(c2, [label, 0.0, lq, r])
                e[1] += w
            if trunc > 0.02:
                job.violation("redrawing does not come to an end", model=c, mass=trunc)
            for c2, (label, q, lq, r) in edges.items():
                if not judged(label):
                    continue
                const = q / math.exp(lq)
                key = label.replace("death:", "birth:")
                if key not in consts:
                    consts[key] = (const, c, c2)
                elif abs(const - consts[key][0]) > rtol * consts[key][0]:
                    job.violation(
                        "the probability of proposing a move is not what makes it reversible: two transitions of the "
                        "same kind have different factors with respect to the reference", label=label, model=c, to=c2,
                        factor=const, order=od, other=dict(model=consts[key][1], to=consts[key][2], factor=consts[key][0]))
            if expect:
                have = set(edges)
                for c2 in model.expected(c, radius):
                    if c2 == c or c2 in have or model.logpi(c2) == -math.inf:
                        continue
                    try:
                        ref = model.log_ratio(c, c2)
                    except Tie:
                        continue
                    if ref and judged(ref[0]):
                        job.violation("a move that has to be possible is never proposed", label=ref[0], model=c, to=c2, order=od)
            prev = measured.get(c)
            if prev is None:
                measured[c] = {k: (v[0], v[1], v[3]) for k, v in edges.items()}
    if flows:
        for c, es in measured.items():
            for c2, (label, q, r) in es.items():
                if c2 not in measured or not judged(label) or c2 < c:
                    continue
                back = measured[c2].get(c)
                if back is None:
                    if c not in set(model.expected(c2, radius)):
                        continue        # the reverse draw is not on the explored lattice
                    job.violation("a move has no reverse move", label=label, model=c, to=c2)
                    continue
                for lam in lambdas:
                    a = model.logpi(c) + math.log(q) + min(0.0, r + math.log(lam))
                    b = model.logpi(c2) + math.log(lam) + math.log(back[1]) + min(0.0, back[2] - math.log(lam))
                    if abs(a - b) > max(1e-6, 3 * rtol):
                        job.violation("probability flows do not balance", label=label, model=c, to=c2,
                                      log_flow=a, log_flow_back=b, factor=lam)
                        break
                job.count("balanced_pairs")
    seen = sorted(consts)
    job.extra["kinds_of_moves"] = job.extra.get("kinds_of_moves", 0) + len(seen)
    return consts


def multisets(items, ks):
    for k in ks:
        for t in itertools.combinations_with_replacement(items, k):
            yield tuple(sorted(t))


def spaces_canon(sp, sites, values, ks):
    """canonical states of a space without nested spaces: distinct sites, all value combinations"""
    vals = list(itertools.product(*values))
    for k in ks:
        if sp.kind == "ps":
            for t in itertools.combinations_with_replacement(vals, k):
                yield tuple(sorted((None, v) for v in t))
        else:
            for ss in itertools.combinations(sites, k):
                for vs in itertools.product(vals, repeat=k):
                    yield tuple(sorted(zip(ss, vs)))


def check_chain(job, model, chain, loglike, canon, radius, temperature, order_limit=2, max_draws=60, rtol=RTOL,
                kernel=True, warm=False):
    """one whole iteration of the real chain from every model: selection, proposal, evaluation, acceptance

    Pass 1 accepts whatever can be accepted (a tiny acceptance variate) and so learns which model every
    path of draws proposes.  Pass 2 runs every path again with the acceptance variate just below and
    just above the acceptance probability of the reference.
    """
    _limit.clear()
    tiny = 1e-300
    consts, measured = {}, {}
    for c in canon:
        job.states += 1
        l0 = loglike(c)
        for od in orders(model, c, order_limit):
            def one():
                chain.current_state = model.to_state(c, od)
                chain.temperature = temperature
                if warm:        # the model has been evaluated before
                    chain.log_likelihood.log_likelihood_ratio(chain.current_state, chain.current_state, temperature)
                chain.advance_chain(1, verbose=False, save_every=10 ** 9)
                return chain.current_state

            targets, edges = {}, {}
            paths, draws = bounded(lambda d: rng.Explorer(radius=radius, max_draws=d, unit=[tiny]), one, max_draws)
            for res, w, trace in paths:
                job.transitions += 1
                if res is rng.Truncated:
                    continue
                try:
                    c2 = model.from_state(res)
                except Malformed as e:
                    job.violation(f"an iteration leads to a malformed model: {e}", model=c, trace=trace)
                    continue
                key = tuple(x for x in trace if x[0] != "unit")
                targets[key] = None
                if c2 == c or any(spec.duplicates(s, x) for s, x in zip(model.spaces, c2)):
                    continue
                try:
                    ref = model.log_ratio(c, c2)
                except Tie:
                    continue
                if ref is None or ref[2] == -math.inf:
                    job.violation("an iteration leads to a model it cannot lead to" if ref is None else
                                  "an iteration leaves the support of the prior", model=c, to=c2, trace=trace)
                    continue
                label, lq, rr = ref
                la = min(0.0, rr + (loglike(c2) - l0) / temperature)
                targets[key] = (c2, la)
                e = edges.setdefault(c2, [label, 0.0, lq, la])
                e[1] += w
                job.sample(model=c, to=c2, label=label, log_acceptance=la, temperature=temperature)

            def unit(k):
                key = tuple(x for x in ex2.trace if x[0] != "unit")
                t = targets.get(key)
                if t is None:
                    return [(tiny, 1.0)]
                a = math.exp(t[1])
                return [(a * (1 - 1e-7), 0.5), (a * (1 + 1e-7), 0.5)] if t[1] < 0 else [(1 - 1e-9, 1.0)]

            ex2 = rng.Explorer(radius=radius, max_draws=draws, unit=unit)
            for res, w, trace in ex2.run_all(one):
                job.transitions += 1
                if res is rng.Truncated:
                    continue
                key = tuple(x for x in trace if x[0] != "unit")
                t = targets.get(key)
                if t is None:
                    continue
                job.traces += 1
                us = [x[1] for x in trace if x[0] == "unit"]
                accepted = model.from_state(res) == t[0]
                if not accepted and model.from_state(res) != c:
                    job.violation("a rejected proposal changes the model", model=c, trace=trace)
                want = t[1] >= 0 or not us or us[-1] < math.exp(t[1])
                if accepted != want:
                    job.violation("a proposal is not accepted with the probability that satisfies detailed balance",
                                  model=c, to=t[0], expected_probability=math.exp(t[1]), variate=us[-1:],
                                  accepted=accepted, temperature=temperature, trace=trace)
            for c2, (label, q, lq, la) in edges.items() if kernel else ():
                const = q / math.exp(lq)
                key = label.replace("death:", "birth:")
                if key not in consts:
                    consts[key] = (const, c, c2)
                elif abs(const - consts[key][0]) > rtol * consts[key][0]:
                    job.violation("the probability of proposing a move is not what makes it reversible", label=label,
                                  model=c, to=c2, factor=const,
                                  other=dict(model=consts[key][1], to=consts[key][2], factor=consts[key][0]))
            for c2 in model.expected(c, radius) if kernel else ():
                if c2 != c and c2 not in edges and model.logpi(c2) > -math.inf:
                    try:
                        ref = model.log_ratio(c, c2)
                    except Tie:
                        continue
                    if ref:
                        job.violation("a move that has to be possible never happens", label=ref[0], model=c, to=c2)
            measured.setdefault(c, {k: (v[0], v[1], v[3]) for k, v in edges.items()})
    for c, es in measured.items() if kernel else ():
        for c2, (label, q, la) in es.items():
            if c2 in measured and c < c2 and c in measured[c2]:
                _, q2, la2 = measured[c2][c]
                a = model.logpi(c) + loglike(c) / temperature + math.log(q) + la
                b = model.logpi(c2) + loglike(c2) / temperature + math.log(q2) + la2
                job.count("balanced_pairs")
                if abs(a - b) > max(1e-6, 3 * rtol):
                    job.violation("detailed balance with respect to the tempered posterior fails", model=c, to=c2,
                                  label=label, log_flow=a, log_flow_back=b)
    return measured
