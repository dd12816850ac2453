"""Outcome distributions: normalisation, rejection, distances, persistence."""
import copy
import math
import warnings

import numpy as np

from vlib.alias import independent, rewritten
from vlib import ref
from vlib.harness import Check

CHECK = Check(
    "C13",
    "a case is one input dictionary (key forms, weights) or one pair/set of distributions; one-outcome dictionaries are trivial",
    ["weights have a finite sum; string and tuple keys for the same outcome are not mixed; MMD is defined for binary outcomes",
     "loading normalises, so only normalised distributions are required to load back equal"],
)


def outcomes(ctx, n, top=1):
    k = ctx.ri(1, 8) if ctx.chance(0.96) else ctx.ri(30, 300)
    out = list({tuple(ctx.ri(0, top) for _ in range(n)) for _ in range(k)})
    ctx.rng.shuffle(out)
    return out


def weights(ctx, m):
    k = ctx.ri(0, 6)
    off = (1 + 10.0 ** ctx.ri(-7, -2) * ctx.pick([-1, 1])) / m if k == 6 else 0  # almost, but not, normalized
    w = [
        lambda: [ctx.rng.random() + 1e-3 for _ in range(m)],
        lambda: [ctx.ri(1, 1000) for _ in range(m)],
        lambda: [float(ctx.pick([0, 0, 1, 3])) for _ in range(m)],
        lambda: [10.0 ** ctx.ri(-200, -190) for _ in range(m)],
        lambda: [10.0 ** ctx.ri(200, 250) for _ in range(m)],
        lambda: [1 / m for _ in range(m)],
        lambda: [off for _ in range(m)],
    ][k]()
    if sum(w) == 0:
        w[ctx.ri(0, m - 1)] = 1
    if ctx.chance(0.2):
        w = [np.float64(x) for x in w]
    return w


def key(ctx, t, form):
    if form == 0:
        return t
    if form == 1 and all(x < 10 for x in t):
        return "".join(map(str, t))
    if len(t) > 1:
        return ",".join(map(str, t))
    return t


@CHECK.scenario(quick=600, thorough=15000, needs=("normalised", "relative weights kept", "not normalised when told"))
def construct(ctx):
    from zquantum.core.bitstring_distribution import BitstringDistribution
    from zquantum.core.distribution import MeasurementOutcomeDistribution, is_measurement_outcome_distribution, is_normalized

    n = ctx.ri(1, 6)
    top = ctx.pick([1, 1, 2, 9, 15])
    sup = outcomes(ctx, n, top)
    w = weights(ctx, len(sup))
    form = ctx.ri(0, 2)
    d = {key(ctx, t, form): x for t, x in zip(sup, w)}
    if ctx.chance(0.2):
        d = {(tuple(np.int64(i) for i in k) if isinstance(k, tuple) else k): v for k, v in d.items()}
    keep = dict(d)
    ctx.case((sup, w, form), trivial=len(sup) < 2)
    ctx.sample(list(d.items())[:5])
    cls = ctx.pick([MeasurementOutcomeDistribution, BitstringDistribution])
    m = cls(d)
    p = m.distribution_dict
    ctx.check(math.isclose(sum(p.values()), 1, rel_tol=1e-8), "normalised", (d, p))
    ctx.check(is_normalized(p) and is_measurement_outcome_distribution(p), "predicates agree")
    ctx.equal(set(p), set(sup), "outcomes kept", d)
    tot = math.fsum(w)
    ctx.close([p[t] for t in sup], [x / tot for x in w], "relative weights kept", atol=1e-12, detail=d)
    ctx.check(all(p[t] > 0 or x == 0 or x / tot < 1e-300 for t, x in zip(sup, w)), "no outcome lost")
    ctx.equal(d, keep, "input unchanged")
    ctx.equal(m.get_number_of_subsystems(), n, "subsystems")
    if cls is BitstringDistribution:
        ctx.equal(m.get_qubits_number(), n, "qubits")
    with warnings.catch_warnings(record=True) as got:
        warnings.simplefilter("always")
        r = cls(d, normalize=False)
    ctx.check([r.distribution_dict[t] for t in sup] == w, "not normalised when told", (w, r.distribution_dict))
    ctx.equal(bool(got), not math.isclose(sum(w), 1), "warning when not normalised", w)
    again = cls(dict(p))
    ctx.close([again.distribution_dict[t] for t in sup], [p[t] for t in sup], "normalising twice changes nothing", atol=1e-15)
    ctx.check(again.distribution_dict is not p, "own dictionary")
    independent(ctx, "distributions", lambda: cls(d), d)
    from zquantum.core.distribution import normalize_measurement_outcome_distribution

    x = {t: v for t, v in zip(sup, w)}
    y = normalize_measurement_outcome_distribution(x)
    ctx.close([y[t] for t in sup], [v / tot for v in w], "relative weights kept", atol=1e-12, detail=d)
    ctx.check(set(y) == set(sup) and is_normalized(y), "normalised", lambda: (d, y))
    independent(ctx, "normalised dictionaries", lambda: normalize_measurement_outcome_distribution({t: v for t, v in zip(sup, w)}))


@CHECK.scenario(quick=300, thorough=3000, needs=("malformed input rejected",))
def malformed(ctx):
    from zquantum.core.distribution import MeasurementOutcomeDistribution, is_measurement_outcome_distribution

    n = ctx.ri(1, 4) if ctx.chance(0.7) else ctx.ri(5, 14)
    sup = outcomes(ctx, n)
    d = dict(zip(sup, weights(ctx, len(sup))))
    t = ctx.pick(sup)
    at = ctx.ri(0, n - 1)
    k = ctx.ri(0, 6)
    if k == 0:
        d[t] = -ctx.pick([1e-3, 1, 5.0, 1e-300])
    elif k == 1:
        d[t + (0,)] = 0.5
    elif k == 2:
        d = {}
    elif k == 3:
        d[t[:at] + (-1,) + t[at + 1:]] = 0.5
    elif k == 4:
        d[t[:at] + (0.5,) + t[at + 1:]] = 0.5
    elif k == 5:
        d[ctx.pick([3, None, 2.5, frozenset([1])])] = 0.5
    else:
        d = {x: 0.0 for x in sup}
    ctx.case((k, str(d)))
    keep = dict(d)
    norm = ctx.chance(0.7) or k == 6
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        ctx.raises(ValueError if k == 6 else RuntimeError, lambda: MeasurementOutcomeDistribution(d, normalize=norm), "malformed input rejected", d)
    ctx.equal(d, keep, "rejected input unchanged")
    if k in (0, 1, 2, 3, 4):
        ctx.check(not is_measurement_outcome_distribution(d), "predicate rejects", d)


def pair(ctx, n):
    from zquantum.core.distribution import MeasurementOutcomeDistribution as D

    def one():
        sup = outcomes(ctx, n)
        return dict(zip(sup, [ctx.rng.random() + 1e-6 for _ in sup]))

    a = one()
    r = ctx.rng.random()
    if r < 0.2:
        b = dict(a)
    elif r < 0.4:
        b = dict(a)
        b[ctx.pick(list(b))] *= ctx.pick([1.0001, 2, 0.5])
    else:
        b = one()
    return D(a), D(b)


def nll(p, q, eps):
    return -math.fsum(v * math.log(max(eps, q.get(k, 0))) for k, v in p.items())


def mmd(p, q, sigmas):
    keys = list(set(p) | set(q))
    d = [p.get(k, 0) - q.get(k, 0) for k in keys]
    x = [ref.index_of(k) for k in keys]
    tot = 0.0
    for i in range(len(keys)):
        for j in range(len(keys)):
            sq = float((x[i] - x[j]) ** 2)
            tot += d[i] * d[j] * math.fsum(math.exp(-sq / (2 * s)) for s in sigmas) / len(sigmas)
    return tot


def shuffled(ctx, m):
    it = list(m.distribution_dict.items())
    ctx.rng.shuffle(it)
    r = copy.copy(m)
    r.distribution_dict = dict(it)
    return r


@CHECK.scenario(quick=500, thorough=10000, needs=("likelihood=definition", "divergence=definition", "mmd=definition", "mmd of equal distributions is zero"))
def distances(ctx):
    from zquantum.core.distribution import (
        compute_clipped_negative_log_likelihood as cnll, compute_jensen_shannon_divergence as jsd, compute_mmd,
        evaluate_distribution_distance as ev,
    )

    n = ctx.pick([1, 2, 3, 4, 6, 10, 31, 33, 40, 64, 80])
    A, B = pair(ctx, n)
    p, q = A.distribution_dict, B.distribution_dict
    sp, sq = dict(p), dict(q)
    eps = ctx.pick([1e-9, 1e-3, 0.1, 1e-12])
    sig = ctx.pick([1.0, 0.25, 10, 1e4, [1.0], [0.5, 2.0, 8], (1, 4), np.array([0.1, 1.0])])
    sigs = list(sig) if hasattr(sig, "__len__") else [sig]
    ctx.case((sp, sq, eps, str(sig)))
    par = dict(epsilon=eps)
    use = lambda f, a, b, prm: ev(a, b, f, distance_measure_parameters=prm) if ctx.chance(0.5) else f(a, b, prm)
    ctx.close(use(cnll, A, B, par), nll(p, q, eps), "likelihood=definition", detail=(sp, sq))
    ctx.close(use(cnll, A, B, {}), nll(p, q, 1e-9), "default epsilon")
    j = use(jsd, A, B, par)
    ctx.close(j, (nll(p, q, eps) + nll(q, p, eps)) / 2, "divergence=definition", detail=(sp, sq))
    ctx.close(use(jsd, B, A, par), j, "divergence symmetric")
    mp = dict(sigma=sig)
    v = use(compute_mmd, A, B, mp)
    ctx.close(v, mmd(p, q, sigs), "mmd=definition", detail=(sp, sq, sig), atol=1e-10)
    ctx.check(v >= -1e-12, "mmd non-negative", (v, sp, sq))
    ctx.close(use(compute_mmd, B, A, mp), v, "mmd symmetric", atol=1e-12)
    ctx.close(use(compute_mmd, A, B, {}), mmd(p, q, [1.0]), "default sigma", atol=1e-10)
    ctx.check(abs(use(compute_mmd, A, shuffled(ctx, A), mp)) < 1e-14, "mmd of equal distributions is zero")
    for f, prm in ((cnll, par), (jsd, par), (compute_mmd, mp)):
        if ctx.chance(0.25):
            independent(ctx, "distances", lambda: f(A, B, prm), A, B, prm)
            independent(ctx, "distances", lambda: ev(A, B, f, distance_measure_parameters=prm), A, B, prm)
    A2, B2 = shuffled(ctx, A), shuffled(ctx, B)
    for f, prm in ((cnll, par), (jsd, par), (compute_mmd, mp)):
        ctx.close(f(A2, B2, prm), f(A, B, prm), "independent of insertion order", atol=1e-10)
    ctx.check(dict(p) == sp and dict(q) == sq, "distributions unchanged")


@CHECK.scenario(quick=100, thorough=1500, needs=("kernel",))
def kernels(ctx):
    from zquantum.core.distribution import compute_multi_rbf_kernel, compute_rbf_kernel

    x, y = [np.array([ctx.ri(0, 40) for _ in range(ctx.ri(1, 5))]) for _ in range(2)]
    s = [ctx.pick([0.5, 1.0, 3.0, 100.0]) for _ in range(ctx.ri(1, 3))]
    ctx.case((x.tolist(), y.tolist(), s))
    ref_k = lambda sg: np.array([[math.exp(-((int(a) - int(b)) ** 2) / (2 * sg)) for b in y] for a in x])
    ctx.close(compute_rbf_kernel(x, y, s[0]), ref_k(s[0]), "kernel")
    ctx.close(compute_multi_rbf_kernel(x, y, s), sum(ref_k(a) for a in s) / len(s), "multi kernel")
    for f, a in ((compute_rbf_kernel, 0), (compute_multi_rbf_kernel, [1.0, 0])):
        ctx.raises(ZeroDivisionError, lambda: f(x, y, a), "zero bandwidth rejected")


@CHECK.scenario(quick=100, thorough=1000, needs=("inconsistent pair rejected",))
def inconsistent(ctx):
    from zquantum.core.distribution import MeasurementOutcomeDistribution as D
    from zquantum.core.distribution import compute_clipped_negative_log_likelihood as f
    from zquantum.core.distribution import evaluate_distribution_distance as ev

    n = ctx.ri(1, 4)
    A, _ = pair(ctx, n)
    B, _ = pair(ctx, n + 1)
    ctx.case(str(A.distribution_dict))
    prm = dict(distance_measure_parameters={})
    ctx.raises(RuntimeError, lambda: ev(A, B, f, **prm), "inconsistent pair rejected")
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        U = D({k: 3 * v for k, v in A.distribution_dict.items()}, normalize=False)
        ctx.raises(RuntimeError, lambda: ev(A, U, f, **prm), "inconsistent pair rejected")
        ctx.raises(RuntimeError, lambda: ev(U, A, f, **prm), "inconsistent pair rejected")
        ctx.close(ev(U, U, f, **prm), nll(U.distribution_dict, U.distribution_dict, 1e-9), "both unnormalised accepted")
    ctx.raises(TypeError, lambda: ev(A.distribution_dict, A, f, **prm), "not a distribution rejected")
    ctx.raises(TypeError, lambda: ev(A, A.distribution_dict, f, **prm), "not a distribution rejected")


@CHECK.scenario(quick=300, thorough=5000, needs=("loaded distribution", "loaded set"))
def persistence(ctx):
    from zquantum.core.bitstring_distribution import BitstringDistribution
    from zquantum.core.distribution import (
        MeasurementOutcomeDistribution, load_measurement_outcome_distribution, load_measurement_outcome_distributions,
        save_measurement_outcome_distribution, save_measurement_outcome_distributions,
    )

    ds = []
    for _ in range(ctx.ri(1, 4)):
        n = ctx.ri(1, 5)
        sup = outcomes(ctx, n, ctx.pick([1, 1, 3, 9, 12, 150]))
        ds.append(ctx.pick([MeasurementOutcomeDistribution, BitstringDistribution])(dict(zip(sup, weights(ctx, len(sup))))))
    keep = [dict(d.distribution_dict) for d in ds]
    ctx.case(keep)
    p = ctx.used_path()
    save_measurement_outcome_distribution(ds[0], p)
    with open(p) as f:
        for l in (load_measurement_outcome_distribution(p), load_measurement_outcome_distribution(f)):
            ctx.equal(l.distribution_dict, keep[0], "loaded distribution")
            ctx.equal(list(l.distribution_dict), list(keep[0]), "outcome order kept")
    save_measurement_outcome_distributions(ds, p)
    with open(p) as f:
        for l in (load_measurement_outcome_distributions(p), load_measurement_outcome_distributions(f)):
            ctx.equal([x.distribution_dict for x in l], keep, "loaded set")
    ctx.equal([d.distribution_dict for d in ds], keep, "saving does not change")
    rewritten(ctx, "files of distributions", save_measurement_outcome_distributions, load_measurement_outcome_distributions, [ds, ds[::-1], ds])
    rewritten(ctx, "distribution files", save_measurement_outcome_distribution, load_measurement_outcome_distribution, ds)
    independent(ctx, "loaded sets of distributions", lambda: load_measurement_outcome_distributions(p), ds)
    save_measurement_outcome_distribution(ds[-1], p)
    independent(ctx, "loaded distributions", lambda: load_measurement_outcome_distribution(p), ds)
    ctx.equal(load_measurement_outcome_distribution(p).distribution_dict, keep[-1], "loaded from a file written again")


@CHECK.scenario(quick=150, thorough=2000, needs=("from probabilities",))
def from_probabilities(ctx):
    from zquantum.core.distribution import create_bitstring_distribution_from_probability_distribution as create

    n = ctx.ri(1, 8)
    v = ctx.np.random(2**n) * (ctx.np.random(2**n) < 0.6)
    if v.sum() == 0:
        v[0] = 1
    if ctx.chance(0.8):
        v = v / v.sum()
    keep = v.copy()
    ctx.case(np.round(v, 6).tolist())
    d = create(v).distribution_dict
    ctx.equal(set(d), {ref.bits_of(i, n) for i in range(2**n)}, "all outcomes")
    ctx.close([d[ref.bits_of(i, n)] for i in range(2**n)], v / v.sum(), "from probabilities")
    ctx.check(np.array_equal(v, keep), "array unchanged")
    independent(ctx, "distributions of probabilities", lambda: create(v), v)
