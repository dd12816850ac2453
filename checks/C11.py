"""Measurement statistics against their textbook values on the recorded list."""
import json
from collections import Counter

import numpy as np

from vlib.alias import independent, rewritten
from vlib import ref
from vlib.harness import Check

CHECK = Check(
    "C11",
    "a case is one recorded list of bitstrings (with element types) and an operator, or one history of additions on a "
    "measurements object; empty lists and empty operators are trivial",
    ["bits are integers (Python or numpy); with Bessel's correction at least two shots (it diverges for one)"],
)


def bits(ctx, n=None, s=None):
    n = n or (ctx.ri(1, 7) if ctx.chance(0.95) else ctx.pick([12, 33, 64, 70, 130]))
    s = ctx.pick([1, 2, 3, 10, 57, 300] + [3000] * ctx.chance(0.03)) if s is None else s
    kind = ctx.ri(0, 3)
    if kind == 0:
        p = [ctx.rng.random() for _ in range(n)]
        out = [tuple(int(ctx.rng.random() < q) for q in p) for _ in range(s)]
    elif kind == 1:  # few distinct outcomes, correlated
        pool = [tuple(ctx.ri(0, 1) for _ in range(n)) for _ in range(ctx.ri(1, 3))]
        out = [ctx.pick(pool) for _ in range(s)]
    elif kind == 2:
        b = ctx.ri(0, 1)
        out = [tuple([b] * n) for _ in range(s)]
    else:
        out = [tuple(ctx.ri(0, 1) for _ in range(n)) for _ in range(s)]
    return out, n


def typed(ctx, bs):
    k = ctx.ri(0, 4)
    if k == 0:
        return [tuple(np.int8(x) for x in b) for b in bs]
    if k == 1:
        return [tuple(np.array(b)) for b in bs]
    return [tuple(b) for b in bs]


COEFS = [1.0, -1.0, 0.5, 2, -3, 0.0, 1 + 0j, -0.25 + 0j, 1e-3, 1e4]


def operator(ctx, n):
    from zquantum.core.openfermion import IsingOperator

    op = IsingOperator()
    terms = {}
    for _ in range(ctx.ri(0, 6) if ctx.chance(0.97) else ctx.ri(15, 30)):
        t = tuple(sorted((q, "Z") for q in ctx.rng.sample(range(n), ctx.ri(0, n))))
        terms[t] = ctx.pick(COEFS) if ctx.chance(0.6) else ctx.rng.uniform(-2, 2)
    for t, c in terms.items():
        op.terms[t] = c
    return op, terms


def parity_matrix(bs, terms):
    return np.array([[(-1) ** sum(int(b[q]) for q, _ in t) for t in terms] for b in bs], dtype=float).reshape(len(bs), len(terms))


@CHECK.scenario(quick=500, thorough=12000, needs=("values", "correlations", "covariances", "bessel covariances"))
def expectation_values(ctx):
    from zquantum.core.measurement import Measurements, expectation_values_to_real
    from zquantum.core.openfermion import QubitOperator

    bs, n = bits(ctx)
    op, terms = operator(ctx, n)
    S = len(bs)
    src = typed(ctx, bs)
    ctx.case((Counter(bs), str(terms)), trivial=not terms)
    ctx.sample((Counter(bs), str(terms)))
    m = Measurements(src)
    c = np.array([complex(x) for x in terms.values()])
    P = parity_matrix(bs, terms) * c[None, :].real
    mean = P.mean(axis=0) if len(terms) else np.zeros(0)
    corr = P.T @ P / S
    cov = corr - np.outer(mean, mean)
    independent(ctx, "expectation values", lambda: m.get_expectation_values(op), op)
    for bessel in (False, True):
        if bessel and S == 1:
            continue
        ev = m.get_expectation_values(op, use_bessel_correction=bessel) if bessel or ctx.chance(0.5) else m.get_expectation_values(op)
        if ctx.chance(0.5):
            ev = expectation_values_to_real(ev)
            ctx.check(not any(np.iscomplexobj(x) for x in [ev.values] + ev.correlations + ev.estimator_covariances), "real after conversion")
        ctx.close(ev.values, mean, "values", detail=(bs[:20], terms))
        ctx.equal(len(ev.correlations), 1, "one frame")
        ctx.close(ev.correlations[0], corr, "correlations", detail=(bs[:20], terms))
        ctx.equal(len(ev.estimator_covariances), 1, "one frame")
        ctx.close(ev.estimator_covariances[0], cov / (S - 1 if bessel else S), "bessel covariances" if bessel else "covariances", detail=(bs[:20], terms))
    ctx.equal([tuple(int(x) for x in b) for b in m.bitstrings], bs, "measurements unchanged")
    ctx.equal(dict(op.terms), terms, "operator unchanged")
    for bad in (QubitOperator("X0"), QubitOperator("Z0"), "Z0", None):
        ctx.raises(TypeError, lambda: m.get_expectation_values(bad), "operator kind rejected")


@CHECK.scenario(quick=400, thorough=8000, needs=("parity tallies", "tallies agree with expectation values", "pair tallies"))
def parities(ctx):
    from zquantum.core.measurement import (
        Measurements, check_parity, check_parity_of_vector, convert_bitstring_to_int,
        get_expectation_value_from_frequencies, get_expectation_values_from_parities, get_parities_from_measurements,
    )
    from zquantum.core.openfermion import QubitOperator

    bs, n = bits(ctx)
    op, terms = operator(ctx, n)
    S = len(bs)
    ctx.case((Counter(bs), str(list(terms))), trivial=not terms)
    P = parity_matrix(bs, terms)
    independent(ctx, "tallies", lambda: get_parities_from_measurements(bs, op), bs, op)
    par = get_parities_from_measurements(bs, op)
    independent(ctx, "values from tallies", lambda: get_expectation_values_from_parities(par), par)
    for i, t in enumerate(terms):
        even = int((P[:, i] == 1).sum())
        ctx.equal([int(x) for x in par.values[i]], [even, S - even], "parity tallies", (bs[:20], t))
        for j, u in enumerate(terms):
            e2 = int((P[:, i] * P[:, j] == 1).sum())
            ctx.equal([int(x) for x in par.correlations[0][i][j]], [e2, S - e2], "pair tallies", (t, u))
        q = [k for k, _ in t]
        for b in bs[:5]:
            want = sum(b[k] for k in q) % 2 == 0
            ctx.check(bool(check_parity(b, q)) == want and bool(check_parity("".join(map(str, b)), q)) == want, "parity of one outcome", (b, q))
            ctx.equal(convert_bitstring_to_int(b), sum(x << k for k, x in enumerate(b)), "integer of an outcome")
        ctx.close(np.asarray(check_parity_of_vector(np.array(bs), q), dtype=float), (P[:, i] + 1) / 2, "vector parity")
        fr = Measurements(bs).get_counts()
        ctx.close(get_expectation_value_from_frequencies(q if ctx.chance(0.5) else set(q), fr), P[:, i].mean(), "value from frequencies", detail=(q, fr))
    if terms:
        ev = get_expectation_values_from_parities(par)
        plain = type(op)()
        for t in terms:
            plain.terms[t] = 1.0
        ctx.close(ev.values, Measurements(bs).get_expectation_values(plain).values, "tallies agree with expectation values")
        for i in range(len(terms)):
            p = par.values[i][0] / S
            want = 4 * p * (1 - p) / S if S >= 100 and 0.1 <= p <= 0.9 else 1 / S
            ctx.close(ev.estimator_covariances[i], [[want]], "precision from tallies", detail=(p, S))
        if ctx.chance(0.3):
            par.values = np.array(par.values)
            par.values[0] = [0, 0]
            ctx.raises(ValueError, lambda: get_expectation_values_from_parities(par), "no samples rejected")
    for bad in (QubitOperator("X0"), QubitOperator("Z0")):
        ctx.raises(TypeError, lambda: get_parities_from_measurements(bs, bad), "operator kind rejected by tallies")


@CHECK.scenario(quick=400, thorough=8000, needs=("counts", "distribution", "save and load", "counts added", "shots edited in place"))
def bookkeeping(ctx):
    """A history of constructions, additions, saves on several measurement objects."""
    from zquantum.core.measurement import Measurements

    n = ctx.ri(1, 6)
    objs, models, srcs = [], [], []
    hist = []

    def observe(k, what):
        m, model = objs[k], models[k]
        got = [tuple(int(x) for x in b) for b in m.bitstrings]
        ctx.equal(got, model, "recorded bitstrings", (what, hist))
        want = dict(Counter("".join(map(str, b)) for b in model))
        counts = m.get_counts()
        ctx.equal(counts, want, "counts", hist)
        ctx.equal(sum(counts.values()), len(model), "counts sum to shots")
        if ctx.chance(0.2):
            independent(ctx, "counts", m.get_counts, m)
            if model:
                independent(ctx, "distributions", m.get_distribution, m)
        if model:
            d = m.get_distribution().distribution_dict
            ctx.check(abs(sum(d.values()) - 1) < 1e-9, "probabilities sum to one")
            ctx.equal(set(d), set(model), "distribution support")
            ctx.close([d[b] for b in sorted(set(model))], [model.count(b) / len(model) for b in sorted(set(model))], "distribution")

    for _ in range(ctx.ri(2, 7)):
        k = ctx.ri(0, 7)
        if k == 0 or not objs:
            bs, _ = bits(ctx, n, ctx.pick([0, 1, 2, 5, 12]))
            src = typed(ctx, bs)
            objs.append(Measurements(src) if bs or ctx.chance(0.5) else Measurements())
            models.append(list(bs))
            srcs.append((src, [tuple(map(int, b)) for b in src]))
            hist.append(("new", len(bs)))
        elif k in (1, 2):
            counts = {}
            for _ in range(ctx.ri(0, 4)):
                counts[format(ctx.ri(0, 2**n - 1), f"0{n}b")] = ctx.ri(0, 5)
            keep = dict(counts)
            exp = [tuple(map(int, s)) for s, c in counts.items() for _ in range(c)]
            if k == 1:
                objs.append(Measurements.from_counts(counts))
                models.append(exp)
            else:
                j = ctx.ri(0, len(objs) - 1)
                objs[j].add_counts(counts)
                models[j] = models[j] + exp
                ctx.event("counts added")
            ctx.equal(counts, keep, "counts argument unchanged")
            hist.append((k, counts))
        elif k == 3:
            j = ctx.ri(0, len(objs) - 1)
            p = ctx.used_path()
            objs[j].save(p)
            if ctx.chance(0.5):
                l = Measurements.load_from_file(p)
            else:
                with open(p) as f:
                    l = Measurements.load_from_file(f)
            ctx.event("save and load")
            if models[j]:
                turned = Measurements([tuple(1 - b for b in t) for t in models[j]])
                rewritten(ctx, "files of measurements", lambda o, q: o.save(q), Measurements.load_from_file, [objs[j], turned, objs[j]])
            with open(p) as f:
                ctx.equal(json.load(f)["counts"], objs[j].get_counts(), "saved counts")
            objs.append(l)
            models.append(list(models[j]))
            hist.append(("io", j))
        elif k == 4:
            j = ctx.ri(0, len(objs) - 1)
            objs.append(Measurements.from_counts(objs[j].get_counts()))
            first = list(dict.fromkeys(models[j]))
            models.append([b for b in first for _ in range(models[j].count(b))])
            hist.append(("rebuild", j))
        elif k in (6, 7):
            # the recorded shots are a public list: the caller adds, drops or replaces some
            j = ctx.ri(0, len(objs) - 1)
            new = [tuple(ctx.ri(0, 1) for _ in range(n)) for _ in range(ctx.ri(1, 3))]
            how = ctx.pick(["append", "extend", "del", "replace", "assign", "swap"])
            m = objs[j]
            if how == "append":
                m.bitstrings.append(new[0])
                models[j] = models[j] + new[:1]
            elif how == "extend":
                m.bitstrings += new
                models[j] = models[j] + new
            elif how == "assign":
                m.bitstrings = list(new)
                models[j] = list(new)
            elif models[j]:
                i = ctx.ri(0, len(models[j]) - 1)
                if how == "del":
                    del m.bitstrings[i]
                    models[j] = models[j][:i] + models[j][i + 1:]
                elif how == "replace":
                    m.bitstrings[i] = new[0]
                    models[j] = models[j][:i] + new[:1] + models[j][i + 1:]
                else:
                    m.bitstrings.reverse()
                    models[j] = models[j][::-1]
            ctx.event("shots edited in place")
            hist.append((how, j))
        else:
            j = ctx.ri(0, len(objs) - 1)
            objs.append(Measurements(objs[j].bitstrings))
            models.append(list(models[j]))
            hist.append(("share", j))
        for j in range(len(objs)):
            observe(j, hist[-1])
    for src, orig in srcs:
        ctx.equal([tuple(map(int, b)) for b in src], orig, "caller's list unchanged")
    ctx.case(hist, trivial=not any(models))
    ctx.sample(hist)


@CHECK.scenario(quick=150, thorough=2000, needs=("concatenation",))
def concatenation(ctx):
    from zquantum.core.measurement import ExpectationValues, concatenate_expectation_values

    parts = []
    for _ in range(ctx.ri(0, 4)):
        k = ctx.ri(0, 3)
        v = ctx.np.normal(size=k)
        mats = lambda: [ctx.np.normal(size=(k, k))] if ctx.chance(0.7) else None
        parts.append(ExpectationValues(v, mats(), mats()))
    snap = [(p.values.copy(), None if p.correlations is None else [x.copy() for x in p.correlations], None if p.estimator_covariances is None else [x.copy() for x in p.estimator_covariances]) for p in parts]
    ctx.case([s[0].tolist() for s in snap], trivial=not parts)
    for rep in range(2):  # twice: concatenating must not consume or grow its inputs
        r = concatenate_expectation_values(parts if ctx.chance(0.5) else iter(parts))
        ctx.close(r.values, np.concatenate([s[0] for s in snap] + [np.zeros(0)]), "concatenation")
        for name, i in (("correlations", 1), ("estimator_covariances", 2)):
            want = [x for s in snap if s[i] for x in s[i]]
            got = getattr(r, name) or []
            ctx.check(len(got) == len(want) and all(np.array_equal(a, b) for a, b in zip(got, want)), "concatenated " + name)
    for p, s in zip(parts, snap):
        ctx.check(np.array_equal(p.values, s[0]) and (p.correlations is None) == (s[1] is None) and len(p.correlations or []) == len(s[1] or []), "parts unchanged")
