"""Sampling and rounding of distributions: exact totals, support, closeness, seeds."""
from collections import Counter

import numpy as np
from scipy.stats import chi2

from vlib.alias import independent
from vlib.harness import Check

CHECK = Check(
    "C12",
    "a case is one normalised distribution (support, weights) with a number of samples and a seed; one-outcome "
    "distributions are trivial",
    ["distributions are normalised; at most 20000 samples per draw; frequencies tested with chi-square at 1e-9"],
)


def weights(ctx, n):
    """Support of bit tuples with weights that provoke every rounding situation."""
    if ctx.chance(0.03):
        n = ctx.ri(8, 11)
    full = [tuple((i >> k) & 1 for k in range(n)) for i in range(2**n)]
    ctx.rng.shuffle(full)
    sup = full[: ctx.ri(1, len(full))]
    k = ctx.ri(0, 7)
    m = len(sup)
    if k == 0:
        w = [1.0] * m
    elif k == 1:
        w = [ctx.rng.random() for _ in sup]
    elif k == 2:
        w = [float(ctx.pick([0, 0, 1, 2, 5])) for _ in sup]
    elif k == 3:
        w = [10.0 ** ctx.ri(-12, 0) for _ in sup]
    elif k == 4:  # every ideal count just above / below a half
        e = ctx.pick([1e-9, -1e-9, 1e-3, -1e-3, 0])
        w = [0.5 + e for _ in sup]
    elif k == 5:
        w = [1.0] + [1e-10] * (m - 1)
    elif k == 6:
        w = [float(ctx.ri(1, 4)) for _ in sup]
    else:
        w = [ctx.rng.expovariate(1) ** 3 for _ in sup]
    if sum(w) == 0:
        w[0] = 1.0
    return sup, w


def nums(ctx, m):
    return ctx.pick([0, 1, 2, 3, 5, m, max(1, m // 2), 2 * m + 1, 10, 17, 100, 101, 999, 1000, 4096, ctx.ri(1, 300), ctx.ri(1, 20000)])


@CHECK.scenario(quick=900, thorough=25000, needs=("exact number of measurements", "representation reproducible"))
def representation(ctx):
    from zquantum.core.bitstring_distribution import BitstringDistribution
    from zquantum.core.distribution import MeasurementOutcomeDistribution
    from zquantum.core.measurement import Measurements

    n = ctx.ri(1, 6)
    sup, w = weights(ctx, n)
    cls = ctx.pick([MeasurementOutcomeDistribution, BitstringDistribution])
    keys = sup if ctx.chance(0.6) else ["".join(map(str, s)) for s in sup]
    d = cls(dict(zip(keys, w)))
    p = dict(d.distribution_dict)
    N = nums(ctx, len(sup))
    ctx.case((sup, w, N), trivial=len(sup) < 2)
    ctx.sample((list(zip(sup, w))[:6], N))
    s = ctx.ri(0, 1000)
    np.random.seed(s)
    m = Measurements.get_measurements_representing_distribution(d, N)
    cnt = Counter(tuple(int(x) for x in b) for b in m.bitstrings)
    why = lambda: (p, N, dict(cnt))
    ctx.equal(len(m.bitstrings), N, "exact number of measurements", why)
    ctx.check(all(isinstance(b, tuple) for b in m.bitstrings), "bitstrings are tuples")
    ctx.check(all(p.get(b, 0) > 0 for b in cnt), "only outcomes of the distribution", why)
    base = {b: int(round(p[b] * N)) for b in p}
    k = N - sum(base.values())
    for b in p:
        ctx.check(abs(cnt[b] - p[b] * N) < 1 + abs(k) + 1e-9, "count close to ideal", why)
    if k == 0 and all(abs(abs(p[b] * N % 1) - 0.5) > 1e-6 for b in p):
        ctx.equal({b: c for b, c in base.items() if c}, {b: c for b, c in cnt.items() if c}, "no correction: counts are the rounded ideal ones", why)
    elif all(abs(abs(p[b] * N % 1) - 0.5) > 1e-6 for b in p):
        diff = [cnt[b] - base[b] for b in p]
        ctx.equal(sum(abs(x) for x in diff), abs(k), "only the needed correction", why)
    ctx.equal(dict(d.distribution_dict), p, "distribution unchanged")
    np.random.seed(s)
    ctx.equal(Measurements.get_measurements_representing_distribution(d, N).bitstrings, m.bitstrings, "representation reproducible")

    def seeded():
        np.random.seed(s)
        return Measurements.get_measurements_representing_distribution(d, N)

    if N < 5000:
        independent(ctx, "representations", seeded, d)


@CHECK.scenario(quick=400, thorough=8000, needs=("number of samples", "sampling reproducible", "frequencies"))
def drawing(ctx):
    from zquantum.core.distribution import MeasurementOutcomeDistribution
    from zquantum.core.utils import sample_from_probability_distribution

    n = ctx.ri(1, 4)
    sup, w = weights(ctx, n)
    kind = ctx.ri(0, 3)
    if kind == 0:
        keys = ["".join(map(str, b)) for b in sup]
    elif kind == 1:
        keys = list(range(len(sup)))
    else:
        keys = sup
    tot = sum(w)
    p = {k: x / tot for k, x in zip(keys, w)}
    if kind == 2:
        p = MeasurementOutcomeDistribution(p).distribution_dict
    keep = dict(p)
    N = nums(ctx, len(sup))
    ctx.case((keys, w, N), trivial=len(sup) < 2)
    s = ctx.ri(0, 10**6)
    np.random.seed(s)
    r = sample_from_probability_distribution(p, N)
    ctx.equal(sum(r.values()), N, "number of samples", (p, N))
    ctx.check(isinstance(r, Counter) and all(p.get(k, 0) > 0 and type(k) is type(keys[0]) for k in r), "samples are outcomes", (p, dict(r)))
    ctx.equal(p, keep, "probabilities unchanged")
    np.random.seed(s)
    ctx.equal(sample_from_probability_distribution(p, N), r, "sampling reproducible")
    N = 3000
    r = sample_from_probability_distribution(p, N)
    big = [k for k in p if p[k] * N >= 5]
    e = np.array([p[k] * N for k in big])
    o = np.array([r[k] for k in big])
    rest = N - e.sum()
    if rest >= 5:
        e, o = np.append(e, rest), np.append(o, N - o.sum())
    if len(e) > 1:
        x = ((o - e) ** 2 / e).sum()
        ctx.check(chi2.sf(x, len(e) - 1) > 1e-9, "frequencies", lambda: (p, dict(r)))
    for bad in ([("0", 1.0)], None, "x"):
        ctx.raises(RuntimeError, lambda: sample_from_probability_distribution(bad, 3), "not a distribution rejected")
