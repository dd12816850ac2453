"""Bit, integer and matrix utilities, value estimates, object factories, random generators."""
import copy
import math
import pickle
import random
import warnings
from fractions import Fraction

import numpy as np

from vlib.alias import freeze, independent
from vlib import ref
from vlib.harness import Check

CHECK = Check(
    "C28",
    "a case is one integer and width, one matrix (pair) with a tolerance, one distribution, one factory specification or one seeded generator call",
    ["widths are at least 1; matrix comparisons are probed at least a factor 10 away from the tolerance (relative 1e-5 included)"],
)


# ---------------------------------------------------------------- bits
@CHECK.scenario(quick=250, thorough=6000, needs=("number refused", "bits", "bitstrings"))
def bits(ctx):
    from zquantum.core.utils import (bin2dec, convert_bitstrings_to_tuples, convert_tuples_to_bitstrings, dec2bin,
                                     get_ordered_list_of_bitstrings)

    w = ctx.pick([1, 2, 3, 4, 5, 8, 9, 16, 31, 32, 33, 53, 63, 64, 65, 80, ctx.ri(1, 130)])
    x = ctx.pick([0, 1, 2**w - 1, 2 ** (w - 1), 2 ** (w - 1) - 1, ctx.rng.randrange(2**w), ctx.rng.randrange(2**w)])
    ctx.case(("int", w, x), trivial=x == 0)
    want = [(x >> (w - 1 - i)) & 1 for i in range(w)]
    got = dec2bin(x, w)
    ctx.equal(list(got), want, "bits of a number", detail=lambda: (x, w), kind="bits")
    ctx.check(all(type(b) is int for b in got), "bits of a number are integers", lambda: [type(b) for b in got])
    back = bin2dec(got)
    ctx.check(back == x and type(back) is int, "number of its bits", lambda: (x, w, back))
    ctx.equal(bin2dec(tuple(want)), x, "number of a tuple of bits")
    ctx.equal(list(got), want, "bits unchanged")
    arr = np.array(want)
    if w < 60:
        ctx.equal(int(bin2dec(arr)), x, "number of an array of bits", detail=lambda: (x, w))
    ctx.equal(bin2dec([0] * ctx.ri(1, 5) + want), x, "leading zeros")
    big = ctx.pick([2**w, 2**w + 1, 2**w + ctx.ri(0, 5), 2 ** (w + 1), 2 ** (w + ctx.ri(1, 70)) + ctx.ri(0, 3)])
    for bad in (big, -1, -x - 1):
        try:
            r = dec2bin(bad, w)
        except (Exception, SystemExit):
            ctx.event("number refused")
        else:
            ctx.check(False, "number which doesn't fit refused", (bad, w, r))

    # bitstrings and tuples
    k = ctx.ri(0, 8)
    n = ctx.ri(1, 12)
    tuples = [tuple(ctx.ri(0, 1) for _ in range(n)) for _ in range(k)]
    if ctx.chance(0.3):
        tuples = [t[: ctx.ri(0, n)] for t in tuples]
    strings = ["".join("01"[b] for b in t) for t in tuples]
    ctx.case(("strings", tuple(strings)), trivial=not strings)
    keep = list(tuples)
    ctx.equal(convert_tuples_to_bitstrings(tuples), strings, "bitstrings of tuples")
    ctx.equal(convert_tuples_to_bitstrings([tuple(np.int64(b) for b in t) for t in tuples]), strings, "bitstrings of tuples of numpy integers")
    ctx.equal(tuples, keep, "tuples unchanged")
    got = convert_bitstrings_to_tuples(strings)
    ctx.equal(got, tuples, "tuples of bitstrings", kind="bitstrings")
    ctx.check(all(type(t) is tuple and all(type(b) is int for b in t) for t in got), "tuples of integers", lambda: got)
    ctx.equal(convert_bitstrings_to_tuples(iter(strings)), tuples, "tuples of an iterator of bitstrings")
    independent(ctx, "bits of a number", lambda: dec2bin(x, w))
    independent(ctx, "tuples of bitstrings", lambda: convert_bitstrings_to_tuples(strings), strings)
    independent(ctx, "bitstrings of tuples", lambda: convert_tuples_to_bitstrings(tuples), tuples)

    n = ctx.ri(1, 9)
    got = get_ordered_list_of_bitstrings(n)
    ctx.equal(list(got), ["".join(str((i >> (n - 1 - j)) & 1) for j in range(n)) for i in range(2**n)], "ordered bitstrings", detail=lambda: n)
    independent(ctx, "ordered bitstrings", lambda: get_ordered_list_of_bitstrings(n))


# ---------------------------------------------------------------- matrices
@CHECK.scenario(quick=350, thorough=9000, needs=("identity", "not identity", "unitary", "not unitary", "equal unitaries", "different unitaries", "orthogonal first columns"))
def matrices(ctx):
    from zquantum.core.utils import compare_unitary, is_identity, is_unitary

    d = ctx.pick([1, 2, 2, 3, 4, 4, 5, 8])
    tol = ctx.pick([1e-12, 1e-10, 1e-8, 1e-6])
    form = ctx.pick(["array", "array", "list", "fortran"])

    def given(m, lists=True):
        if form == "list" and lists:
            return m.tolist()
        return np.asfortranarray(m) if form == "fortran" else np.array(m)

    def perturbed(m, small):
        """The matrix with one element moved by less (or clearly more) than the tolerance."""
        m = np.array(m, dtype=complex)
        i, j = ctx.ri(0, d - 1), ctx.ri(0, d - 1)
        e = tol * 0.05 if small else max(30 * tol, ctx.pick([0, 2e-4, 1e-2, 0.5])) if i != j else max(30 * tol, ctx.pick([2e-4, 1e-2, 0.5]))
        m[i, j] += e * ctx.pick([1, -1, 1j, -1j])
        return m, (i, j, e)

    eye = np.eye(d)
    for small in (True, False):
        m, how = perturbed(eye, small)
        ctx.case(("identity", d, tol, how, form))
        g = given(m)
        k = copy.deepcopy(g)
        ctx.check(bool(is_identity(g, tol)) is small, "identity test", lambda: (d, tol, how), kind="identity" if small else "not identity")
        ctx.check(np.array_equal(np.array(g), np.array(k)), "matrix unchanged")
    ctx.check(bool(is_identity(given(eye))), "identity is the identity")
    ctx.check(not is_identity(given(-eye), tol) and not is_identity(given(np.zeros((d, d))), tol), "other matrices are not the identity")
    if d > 1:
        perm = np.eye(d)[ctx.rng.sample(range(d), d)]
        ctx.check(bool(is_identity(given(perm), tol)) == np.array_equal(perm, eye), "permutations are not the identity", lambda: perm)
        ctx.raises(Exception, lambda: is_identity(given(np.eye(d + 1)[:d]), tol), "matrix which is not square refused")
        ctx.raises(Exception, lambda: is_unitary(given(np.eye(d + 1)[:, :d]), tol), "matrix which is not square refused")

    u = ctx.pick([ref.random_unitary(ctx.np, d), ref.random_unitary(ctx.np, d), np.diag(np.exp(1j * ctx.np.uniform(0, 7, d))),
                  np.eye(d)[ctx.rng.sample(range(d), d)].astype(complex), np.linalg.qr(ctx.np.uniform(-1, 1, (d, d)))[0].astype(complex)])
    ctx.case(("unitary", d, tol, u.round(6).tobytes()))
    g = given(u)
    k = copy.deepcopy(g)
    ctx.check(bool(is_unitary(g, tol)), "unitary accepted", lambda: (u, tol), kind="unitary")
    ctx.check(freeze(g) == freeze(k), "matrix unchanged")
    i = ctx.ri(0, d - 1)
    bad = u.copy()
    what = ctx.pick(["scale all", "scale column", "scale row", "replace column", "singular", "element"])
    s = 1 + ctx.pick([-1, 1]) * max(30 * tol, ctx.pick([1e-4, 1e-2, 0.3]))
    if what == "scale all":
        bad = bad * s
    elif what == "scale column":
        bad[:, i] *= s
    elif what == "scale row":
        bad[i] *= s
    elif what == "replace column" and d > 1:
        bad[:, i] = bad[:, (i + 1) % d]
    elif what == "singular":
        bad[i] = 0
    else:
        bad[i, ctx.ri(0, d - 1)] += max(1e-2, 1e3 * math.sqrt(tol))
    gram = abs(bad.conj().T @ bad - np.eye(d)).max()
    if gram > max(1e-4, 20 * tol):
        ctx.check(not is_unitary(given(bad), tol), "matrix which is not unitary rejected", lambda: (bad, what, tol), kind="not unitary")
        ctx.raises(Exception, lambda: compare_unitary(given(bad, False), given(u, False), tol), "comparison of a matrix which is not unitary refused")
        ctx.raises(Exception, lambda: compare_unitary(given(u, False), given(bad, False), tol), "comparison with a matrix which is not unitary refused")

    phase = np.exp(1j * ctx.pick([0, math.pi, math.pi / 2, ctx.rng.uniform(-7, 7), 1e-3]))
    a, b = given(u, False), given(phase * u, False)
    ctx.case(("equal", d, complex(phase)))
    kept = freeze((a, b))
    ctx.check(bool(compare_unitary(a, b, tol)) and bool(compare_unitary(b, a, tol)), "unitaries equal up to a phase", lambda: (u, phase, tol), kind="equal unitaries")
    ctx.check(freeze((a, b)) == kept, "matrix unchanged")
    if d > 1:
        how = ctx.pick(["column phase", "random", "permuted", "permuted", "conjugate", "tiny rotation", "first column kept", "transposed"])
        if how == "column phase":
            v = u.copy()
            v[:, i] *= np.exp(1j * ctx.pick([math.pi, 0.3, 0.01]))
        elif how == "random":
            v = ref.random_unitary(ctx.np, d)
        elif how == "permuted":
            v = u[:, np.roll(np.arange(d), ctx.ri(1, d - 1))]
        elif how == "conjugate":
            v = u.conj()
        elif how == "transposed":
            v = u.T
        elif how == "tiny rotation":
            h = ref.random_unitary(ctx.np, d)
            v = u @ (h @ np.diag(np.exp(1j * ctx.np.uniform(-1, 1, d) * 0.05)) @ h.conj().T)
        else:
            w = np.eye(d, dtype=complex)
            w[1:, 1:] = ref.random_unitary(ctx.np, d - 1)
            v = u @ w
        x = u.conj().T @ v
        away = min(abs(x - np.exp(1j * t) * np.eye(d)).max() for t in [np.angle(x[j, j]) for j in range(d)])
        if abs(x[0, 0]) < 1e-12:
            ctx.event("orthogonal first columns")
        if away > 1e-3:
            v = v * phase
            ctx.case(("different", d, how))
            ctx.check(not compare_unitary(a, given(v, False), tol), "different unitaries", lambda: (how, u, v, tol), kind="different unitaries")
            ctx.check(not compare_unitary(given(v, False), a, tol), "different unitaries", lambda: (how, v, u, tol))


# ---------------------------------------------------------------- sampling and discretizing
@CHECK.scenario(quick=200, thorough=5000, needs=("samples drawn", "values discretized"))
def counts(ctx):
    from zquantum.core.utils import sample_from_probability_distribution, scale_and_discretize

    k = ctx.ri(1, 6)
    n = ctx.ri(1, 4)
    pool = [tuple(ref.bits_of(i, n)) for i in range(2**n)] + [format(i, "0%db" % n) for i in range(2**n)] + list(range(5)) + ["a", None, (1, "b"), (1, 2, 3), ()]
    if ctx.chance(0.5):
        pool = [p for p in pool if type(p) is tuple and len(p) == n]
    keys = ctx.rng.sample(pool, min(k, len(pool)))
    w = [ctx.pick([0, 1, 2, ctx.rng.random(), ctx.rng.random(), 1e-9]) for _ in keys]
    if not sum(w):
        w[ctx.ri(0, len(w) - 1)] = 1
    dist = dict(zip(keys, [x / sum(w) for x in w]))
    shots = ctx.pick([0, 1, 2, 10, 100, 1000, 5000])
    seed = ctx.rng.randrange(2**32)
    ctx.case(("samples", repr(keys), shots), trivial=not shots)
    keep = dict(dist)
    np.random.seed(seed)
    got = sample_from_probability_distribution(dist, shots)
    ctx.equal(sum(got.values()), shots, "number of samples", kind="samples drawn")
    ctx.check(all(c in keys and dist[c] > 0 for c in got), "samples have positive probability", lambda: (dist, got))
    eps = math.sqrt(math.log(2e12) / 2 / max(shots, 1))
    for c in keys:
        ctx.check(abs(got[c] / max(shots, 1) - dist[c]) < eps or not shots, "frequencies follow the distribution", lambda: (dist, got))
    ctx.check(dist == keep, "distribution unchanged")
    np.random.seed(seed)
    ctx.equal(dict(sample_from_probability_distribution(dist, shots)), dict(got), "samples are determined by the seed")
    ctx.raises(RuntimeError, lambda: sample_from_probability_distribution(list(dist.values()), shots), "distribution which is not a dictionary refused")

    m = ctx.ri(1, 9) if ctx.chance(0.8) else ctx.ri(15, 40)  # many values leave many units to hand out
    vals = [ctx.pick([0, 1, 2, 3, 0.5, ctx.rng.random(), ctx.rng.uniform(0, 100), 10.0 ** ctx.ri(-8, 8), 1 / 3, 7]) for _ in range(m)]
    if not sum(vals):
        vals[0] = 1.0
    total = ctx.pick([0, 1, 2, 3, 5, m, 10, 100, 1000, 999983, 10**9, 3 * 10**9, 10**12, ctx.ri(0, 10**6)])
    form = ctx.pick([list, tuple, np.array, iter, lambda v: (x for x in v)])
    ctx.case(("scaled", repr(vals), total), trivial=m == 1)
    given = form(vals)
    kept = list(given) if form in (list, tuple, np.array) else []
    got = scale_and_discretize(given, total)
    ctx.check(not kept or list(given) == kept, "values unchanged", lambda: (vals, given))
    if form in (list, tuple, np.array):
        independent(ctx, "discretized values", lambda: scale_and_discretize(given, total), given)
    ctx.check(len(got) == m and all(type(x) is int for x in got), "one integer per value", lambda: (vals, total, got))
    ctx.equal(sum(got), total, "integers sum to the total", detail=lambda: (vals, total, got), kind="values discretized")
    exact = [Fraction(v) * total / sum(map(Fraction, vals)) for v in vals]
    slack = Fraction(1, 10**6)
    ctx.check(all(abs(g - e) < 1 + slack for g, e in zip(got, exact)), "ratios approximately preserved", lambda: (vals, total, got))
    ctx.check(all(g >= 0 for g in got), "no negative counts", lambda: (vals, total, got))
    if all(e.denominator == 1 for e in exact) and total < 10**6:
        ctx.equal(got, [int(e) for e in exact], "exactly proportional integers kept", detail=lambda: (vals, total))
    for a, ga in zip(exact, got):
        for b, gb in zip(exact, got):
            if a - b > slack:
                ctx.check(ga >= gb, "larger values get no fewer counts", lambda: (vals, total, got))


# ---------------------------------------------------------------- value estimates, symbol maps
@CHECK.scenario(quick=150, thorough=4000, needs=("estimates compared", "symbols mapped"))
def values(ctx):
    import sympy
    from zquantum.core.utils import ValueEstimate, create_symbols_map

    def number():
        return ctx.pick([0, 0.0, -0.0, 1, -1, 2.5, ctx.rng.uniform(-9, 9), 1e-300, 1e300, np.float64(0.1), np.int64(3), float("inf")])

    def precision():
        return ctx.pick([None, None, 0, 0.0, 0.1, ctx.rng.random(), np.float64(0.1), 1, 1e-12])

    x, y, p, q = number(), number(), precision(), precision()
    if ctx.chance(0.4):
        y = x
    if ctx.chance(0.4):
        q = p
    a = ValueEstimate(x, p) if ctx.chance(0.5) else ValueEstimate(x, precision=p)
    b = ValueEstimate(y, q)
    ctx.case(("estimates", repr((x, y, p, q))))
    ctx.check(float(a) == float(x) and isinstance(a, float), "value of an estimate")
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        ctx.check(a.value == float(x) and type(a.value) is float, "value attribute")
    ctx.check(a.precision == p, "precision of an estimate", lambda: (a.precision, p))
    same = bool(float(x) == float(y) and p == q)
    ctx.check(bool(a == b) is same and bool(b == a) is same and bool(a != b) is not same and bool(b != a) is not same, "estimates are equal when value and precision are", lambda: (x, p, y, q), kind="estimates compared")
    plain = float(y)
    same = float(x) == plain and p is None
    ctx.check(bool(a == plain) is same and bool(plain == a) is same and bool(a != plain) is not same and bool(plain != a) is not same, "estimates without precision equal numbers", lambda: (x, p, y))
    ctx.check((a < b) is (float(x) < float(y)) and (a <= plain) is (float(x) <= plain) and (plain < a) is (plain < float(x)), "estimates are ordered by value", lambda: (x, y))
    for other in ("1.0", None, [1], (float(x), p), object()):
        ctx.check(not a == other and a != other, "estimate differs from other objects", lambda: other)
    if a == b:
        ctx.equal(hash(a), hash(b), "equal estimates have equal hashes")
    if a == plain:
        ctx.equal(hash(a), hash(plain), "equal numbers have equal hashes")
    ctx.check({a: 1}.get(a) == 1, "estimates as keys")
    for c in (copy.copy(a), copy.deepcopy(a), pickle.loads(pickle.dumps(a)), ValueEstimate.from_dict(a.to_dict())):
        ctx.check(type(c) is ValueEstimate and c == a and c.precision == p, "copied estimate", lambda: (a, c))
    if math.isfinite(float(x)) and math.isfinite(float(y)) and abs(x) < 1e100 and abs(y) < 1e100:
        ctx.check(a + b == float(x) + float(y) and a * b == float(x) * float(y) and -a == -float(x) and a - plain == float(x) - plain and 2 * a == 2 * float(x), "arithmetic of estimates", lambda: (x, y))
        ctx.check(sum([a, b]) == float(x) + float(y) and abs(a) == abs(float(x)) and float(max([a, b])) == max(float(x), float(y)), "estimates in sums")
    ctx.equal(str(a), str(float(x)) if p is None else f"{float(x)} ± {p}", "text of an estimate")
    ctx.equal(float(np.array([a, b])[1]), float(y), "estimates in arrays")

    k = ctx.ri(0, 8)
    symbols = [sympy.Symbol(s) for s in ctx.rng.sample(["theta_%d" % i for i in range(6)] + ["a", "b", "c", "gamma", "theta_10", "theta_1_0"], k)]
    params = ctx.np.uniform(-5, 5, k)
    if ctx.chance(0.2):
        params = params.astype(int)
    keep = params.copy()
    got = create_symbols_map(symbols, params)
    ctx.case(("map", repr(symbols)), trivial=not k)
    ctx.equal(list(got), symbols, "order of the symbols", kind="symbols mapped")
    ctx.check(all(got[s] == v and type(got[s]) in (int, float) for s, v in zip(symbols, params)), "symbols map to their parameters", lambda: (got, params))
    ctx.check(np.array_equal(params, keep), "parameters unchanged")
    independent(ctx, "symbol maps", lambda: create_symbols_map(symbols, params), symbols, params)
    independent(ctx, "dictionary of an estimate", a.to_dict, a)
    for j in (k - 1, k + 1, 0, 2 * k):
        if j >= 0 and j != k:
            ctx.raises(ValueError, lambda: create_symbols_map(symbols, np.zeros(j)), "numbers of symbols and parameters differ")


# ---------------------------------------------------------------- object factories
class Thing:
    def __init__(self, a=1, b=2, *, c=3):
        self.got = (a, b, c)

    @classmethod
    def build(cls, **kw):
        return cls(**kw)


class Counting:
    n = 0

    def __init__(self, **kwargs):
        Counting.n += 1
        self.kwargs = kwargs


def function(a, b=2, *, c=3):
    return ("called", a, b, c)


build = Thing.build
MODULE = __name__ if __name__.startswith("checks.") else "checks.C28"


@CHECK.scenario(quick=120, thorough=3000, needs=("object created", "function bound", "conflict refused"))
def factories(ctx):
    import importlib
    import json

    from zquantum.core import utils as U

    mod = importlib.import_module(MODULE)
    vals = {k: ctx.pick([0, 1, "x", [1, 2], None, {"k": 1}, 2.5, False]) for k in ctx.rng.sample("abc", ctx.ri(0, 3))}
    inside = {k: v for k, v in vals.items() if ctx.chance(0.5)}
    outside = {k: v for k, v in vals.items() if k not in inside}
    kind = ctx.pick(["Thing", "Counting", "function", "function", "build"])
    specs = {"module_name": MODULE, "function_name": kind, **inside}
    if ctx.chance(0.5):
        items = list(specs.items())
        ctx.rng.shuffle(items)
        specs = dict(items)
    keep = copy.deepcopy(specs)
    ctx.case((kind, repr(inside), repr(outside)), trivial=not vals)
    before = mod.Counting.n
    entry = ctx.pick(["create_object", "create_object", "get_func_from_specs", "load_from_specs", "load_from_specs text"])
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        if entry == "create_object":
            got = U.create_object(specs, **outside)
        else:
            specs.update(outside)
            keep = copy.deepcopy(specs)
            if entry == "get_func_from_specs":
                got = U.get_func_from_specs(specs)
            elif entry == "load_from_specs":
                got = U.load_from_specs(specs)
            else:
                got = U.load_from_specs(json.dumps(specs))
    ctx.equal(specs, keep, "specification unchanged")
    if kind in ("Thing", "build"):
        ctx.check(type(got) is mod.Thing and got.got == (vals.get("a", 1), vals.get("b", 2), vals.get("c", 3)), "object created from its specification", lambda: (vals, got), kind="object created")
    elif kind == "Counting":
        ctx.check(type(got) is mod.Counting and got.kwargs == vals and mod.Counting.n == before + 1, "object created once from its specification", lambda: (vals, got.kwargs))
    else:
        ctx.check(callable(got), "function from its specification", lambda: got)
        if not vals:
            ctx.check(got is mod.function, "function itself without parameters", lambda: got)
        want = ("called", vals.get("a", 7), vals.get("b", 2), vals.get("c", 3))
        for _ in range(2):
            r = got() if "a" in vals else got(a=7) if ctx.chance(0.5) or vals else got(7)
            ctx.equal(r, want, "bound function", detail=lambda: (vals, entry), kind="function bound")
        if "c" in vals:
            ctx.equal(got(**({} if "a" in vals else {"a": 7}), c=99)[3], 99, "later arguments override bound ones")
    if inside and kind != "build":
        k = ctx.pick(sorted(inside))
        full = {"module_name": MODULE, "function_name": kind, **inside}
        n = mod.Counting.n
        ctx.raises(ValueError, lambda: U.create_object(full, **{k: inside[k]}), "parameter given twice refused")
        ctx.check(mod.Counting.n == n, "nothing created after a conflict", kind="conflict refused")
    for missing in ("module_name", "function_name"):
        s = {k: v for k, v in specs.items() if k != missing}
        ctx.raises(Exception, lambda: U.create_object(s), "incomplete specification refused")
    ctx.raises(Exception, lambda: U.create_object({"module_name": MODULE, "function_name": "no_such"}), "unknown name refused")
    ctx.raises(Exception, lambda: U.create_object({"module_name": "no.such.module", "function_name": "function"}), "unknown module refused")


# ---------------------------------------------------------------- translation of old types
@CHECK.scenario(quick=120, thorough=3000, needs=("argument translated", "fallback used", "failure reported", "error of the function kept"))
def translation(ctx):
    from zquantum.core.wip.compatibility_tools import TranslationFailed, compatible_with_old_type

    class Old:
        def __init__(self, v, bad=False):
            self.v, self.bad = v, bad

        def __repr__(self):
            return f"Old({self.v},{self.bad})"

    class Older(Old):
        pass

    class Sub(list):
        pass

    calls = []

    def translate(o):
        calls.append(o)
        if o.bad:
            raise RuntimeError("cannot translate")
        return ("new", o.v)

    types = ctx.pick([None, [list], [tuple], (list, tuple), {list, tuple}, [list, tuple, set]])
    p_bad = ctx.pick([0, 0, 0, 0.3])

    def arg(depth):
        r = ctx.rng.random()
        if depth and r < 0.5:
            t = ctx.pick([list, list, tuple, tuple, Sub, "dict"])
            inner = [arg(depth - 1) for _ in range(ctx.ri(0, 3))]
            return {"k": inner} if t == "dict" else t(inner)
        if r < 0.8:
            return ctx.pick([Old, Older])(ctx.ri(0, 99), ctx.chance(p_bad))
        return ctx.pick([1, "text", None, 2.5])

    def old_in(a):
        """Old objects which must be translated, in order."""
        if isinstance(a, Old):
            return [a]
        if types and type(a) in types and type(a) in (list, tuple):
            return [o for x in a for o in old_in(x)]
        return []

    def want(a):
        if isinstance(a, Old):
            return ("new", a.v)
        if types and type(a) in types:
            return type(a)(want(x) for x in a)
        return a

    args = tuple(arg(2) for _ in range(ctx.ri(0, 3)))
    kwargs = {k: arg(2) for k in ctx.rng.sample(["x", "y"], ctx.ri(0, 2))}
    shown = repr((args, kwargs))
    olds = [o for a in args for o in old_in(a)] + [o for a in kwargs.values() for o in old_in(a)]
    bad = any(o.bad for o in olds)
    ctx.case((shown, repr(types)), trivial=not olds)
    got, fell = [], []

    def target(*a, **k):
        got.append((a, k))
        if fails:
            raise KeyError("own error")
        return "result"

    def fallback(*a, **k):
        fell.append((a, k))
        return "fallback"

    fails = ctx.chance(0.15)
    msg = ctx.pick([None, "old things are going away"])
    fb = fallback if ctx.chance(0.5) else None
    f = compatible_with_old_type(Old, translate, msg, fb, types)(target)
    raised = None
    with warnings.catch_warnings(record=True) as ws:
        warnings.simplefilter("always")
        try:
            r = f(*args, **kwargs)
        except Exception as e:
            raised = e
    ctx.equal(repr((args, kwargs)), shown, "arguments unchanged")
    if bad and fb:
        ctx.check(raised is None and r == "fallback" and len(fell) == 1 and not got, "fallback called once", lambda: (shown, types, raised), kind="fallback used")
        ctx.check(all(x is y for x, y in zip(fell[0][0], args)) and len(fell[0][0]) == len(args) and list(fell[0][1]) == list(kwargs) and all(fell[0][1][k] is kwargs[k] for k in kwargs), "fallback gets the original arguments", lambda: fell)
        ctx.check(any(w.category is not DeprecationWarning for w in ws), "failed translation warned about", lambda: ws)
    elif bad:
        ctx.check(isinstance(raised, TranslationFailed) and not got, "failed translation reported", lambda: (shown, types, raised), kind="failure reported")
    else:
        ctx.check(not fell and len(got) == 1, "function called once", lambda: (shown, types, raised))
        if fails:
            ctx.check(isinstance(raised, KeyError), "error of the function", lambda: raised, kind="error of the function kept")
        else:
            ctx.check(raised is None and r == "result", "result of the function", lambda: raised)
        ctx.equal(repr(got[0]), repr((tuple(want(a) for a in args), {k: want(v) for k, v in kwargs.items()})), "translated arguments", detail=lambda: (shown, types), kind="argument translated" if olds else None)
        ctx.equal([o.v for o in calls], [o.v for o in olds], "every old object translated once", detail=lambda: shown)
        n = sum(w.category is DeprecationWarning and str(w.message) == (msg or "") for w in ws)
        ctx.check(bool(n) is bool(msg and olds), "deprecation warning", lambda: (msg, olds, [str(w.message) for w in ws]))


# ---------------------------------------------------------------- random generators
@CHECK.scenario(quick=120, thorough=2500, needs=("random operator", "random wavefunction", "random matrix", "random circuit"))
def generators(ctx):
    from zquantum.core.circuits import create_random_circuit
    from zquantum.core.openfermion.testing import testing_utils as T
    from zquantum.core.testing import create_random_isingop, create_random_qubitop, create_random_wavefunction

    seed = ctx.pick([0, 0, 1, ctx.rng.randrange(2**31)])
    n, k = ctx.ri(1, 5), ctx.ri(0, 12)

    def twice(fn):
        out = []
        for s in (11, 22):  # whatever the generators' state, the seed decides
            random.seed(s)
            np.random.seed(s)
            out.append(fn())
        return out

    for make, letters, name in ((create_random_qubitop, "XYZ", "QubitOperator"), (create_random_isingop, "Z", "IsingOperator")):
        a, b = twice(lambda: make(n, k, seed=seed))
        ctx.check(dict(a.terms) == dict(b.terms), "operator determined by its seed", lambda: (name, n, k, seed, a, b), kind="random operator")
        ctx.equal(type(a).__name__, name, "type of a random operator")
        for t, c in a.terms.items():
            qs = [f[0] for f in t]
            ctx.check(len(set(qs)) == len(qs) and all(0 <= q < n for q in qs) and all(f[1] in letters for f in t), "terms act on the requested qubits", lambda: (t, n))
            ctx.check(abs(c - round(abs(c))) < 1e-12, "coefficients count the terms drawn", lambda: a)
        ctx.check(abs(sum(a.terms.values()) - k) < 1e-12 and len(a.terms) <= max(k, 0), "requested number of terms", lambda: (a, k))
    ctx.case(("operators", n, k, seed), trivial=not k)

    a, b = twice(lambda: create_random_wavefunction(n, seed=seed))
    ctx.case(("wavefunction", n, seed))
    if seed == 0:
        ctx.finding("random-wavefunction-seed-0", np.array_equal(a.amplitudes, b.amplitudes), "wavefunction determined by seed 0", (n, seed))
    else:
        ctx.check(np.allclose(a.amplitudes, b.amplitudes, atol=1e-9), "wavefunction determined by its seed", lambda: (n, seed), kind="random wavefunction")
    ctx.check(len(a) == 2**n and abs(np.sum(abs(np.array(a.amplitudes, dtype=complex)) ** 2) - 1) < 1e-9, "wavefunction of the requested size", lambda: a)

    real = ctx.chance(0.5)
    for make, cond in ((T.random_antisymmetric_matrix, lambda m: np.allclose(m, -m.T)), (T.random_hermitian_matrix, lambda m: np.allclose(m, m.conj().T)),
                       (T.random_unitary_matrix, lambda m: np.allclose(m.conj().T @ m, np.eye(n)))):
        a, b = twice(lambda: make(n, real=real, seed=seed))
        ctx.check(np.allclose(a, b, atol=1e-9), "matrix determined by its seed", lambda: (make, n, seed), kind="random matrix")
        ctx.check(a.shape == (n, n) and cond(a) and (not real or np.isrealobj(a)), "kind of a random matrix", lambda: (make, a))
        if not real and n > 1:
            ctx.check(np.iscomplexobj(a) and abs(a.imag).max() > 0, "complex random matrix", lambda: (make, a))
    o = ctx.ri(1, 2)
    spin = ctx.chance(0.4) and o < 3
    a, b = twice(lambda: T.random_interaction_operator(o, expand_spin=spin, real=real, seed=seed))
    ctx.check(a == b and np.allclose(a.two_body_tensor, b.two_body_tensor, atol=1e-9), "interaction operator determined by its seed")
    m = o * (2 if spin else 1)
    ctx.check(a.one_body_tensor.shape == (m,) * 2 and a.two_body_tensor.shape == (m,) * 4, "size of a random interaction operator")
    H = ref.tensor_matrix(a.constant, a.one_body_tensor, a.two_body_tensor)
    ctx.close(H, H.conj().T, "random interaction operator is Hermitian")
    if real:
        ctx.check(abs(H.imag).max() < 1e-12, "random real interaction operator")

    kw = {} if ctx.chance(0.3) else dict(n_qubits=n, max_num_terms=ctx.ri(1, 9), max_many_body_order=ctx.ri(0, 6))
    a, b = twice(lambda: T.random_qubit_operator(seed=seed, **kw))
    ctx.check(dict(a.terms) == dict(b.terms), "operator determined by its seed", lambda: (kw, seed, a, b))
    kw = kw or dict(n_qubits=16, max_num_terms=16, max_many_body_order=16)
    ctx.check(len(a.terms) <= kw["max_num_terms"] and all(len(t) <= kw["max_many_body_order"] and all(0 <= q < kw["n_qubits"] for q, _ in t) for t in a.terms), "random operator within its bounds", lambda: (kw, a))
    from zquantum.core.openfermion.testing.random import random_interaction_operator_term

    order = ctx.ri(1, 5) if ctx.chance(0.3) else ctx.ri(1, 3)
    a, b = twice(lambda: random_interaction_operator_term(order, real=real, seed=seed))
    ctx.check(a == b, "interaction operator determined by its seed")
    ctx.check(a.n_qubits == order and not a.constant, "size of a random interaction term")
    for t in a:
        ctx.check(not t or len({i for i, _ in t}) == order, "terms on the requested number of orbitals", lambda: (order, t))
    ctx.check(order > 4 or len(list(a)) > bool(a.constant), "random interaction term is not empty", lambda: (order, a))
    if order <= 3:
        H = ref.tensor_matrix(0, a.one_body_tensor, a.two_body_tensor)
        ctx.close(H, H.conj().T, "random interaction term is Hermitian")

    g = ctx.ri(0, 15)
    a, b = twice(lambda: create_random_circuit(n, g, np.random.default_rng(seed)))
    ctx.case(("circuit", n, g, seed), trivial=not g)
    ctx.check(a == b, "circuit determined by its generator", kind="random circuit")
    ctx.check(a.n_qubits == n and len(a.operations) == g, "requested qubits and gates", lambda: a)
    for op in a.operations:
        q = op.qubit_indices
        ctx.check(len(set(q)) == len(q) == op.gate.num_qubits and all(0 <= i < n for i in q), "gates act on the requested qubits", lambda: op)
        ctx.check(all(-math.pi <= float(p) <= math.pi for p in op.gate.params), "angles within a turn", lambda: op)
