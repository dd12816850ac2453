"""Saved artifacts: what is loaded is what was saved, and saving leaves the object alone."""
import copy
import io
import json
import math
import os
import warnings
from pathlib import Path

import numpy as np

from vlib.alias import independent, poke, rewritten, stir
from vlib import gen
from vlib.harness import Check

CHECK = Check(
    "C24",
    "a case is one artifact (array, list, tree of objects, estimate, expectation values, parities, wavefunction, operator, RDM, "
    "layout, noise model, result) with random contents; empty or all-zero content is trivial",
    ["arrays have a non-empty shape or one empty dimension only, with finite imaginary parts; dictionary keys are strings other "
     "than the decoder's reserved names and digit-only names; tuples are stored as lists; operator terms below the operators' own tolerance may be dropped"],
)


# ---------------------------------------------------------------- generators
def num(ctx, kind="float"):
    if kind == "int":
        return ctx.pick([0, 1, -1, 7, -12, 2**31, 2**53 + 1, -(2**62), ctx.ri(-100, 100)])
    if kind == "bool":
        return ctx.chance(0.5)
    v = ctx.pick([0.0, -0.0, 1.0, -1.0, 1e-300, 1e300, 0.1, 1 / 3, -2.5, 1e-9, 5e-324])
    return v if ctx.chance(0.3) else ctx.np.normal() * 10.0 ** ctx.ri(-12, 12)


def array(ctx, kinds=("float", "int", "complex", "bool", "float32", "uint8"), dims=None, special=True):
    kind = ctx.pick(list(kinds))
    nd = ctx.ri(0, 4) if dims is None else dims
    shape = tuple(ctx.ri(1, 4) for _ in range(nd))
    if nd == 1 and ctx.chance(0.15):
        shape = (0,)
    if nd and dims is None and ctx.chance(0.02):
        shape = ctx.pick([(1001,), (2500,), (40, 41), (3, 700), (11, 10, 10), (1, 1200)])
        nd = len(shape)
        ctx.event("large array")
    size = int(np.prod(shape, dtype=int))
    if kind == "int":
        a = np.array([num(ctx, "int") for _ in range(size)], dtype=np.int64)
    elif kind == "bool":
        a = np.array([num(ctx, "bool") for _ in range(size)], dtype=bool)
    elif kind == "uint8":
        a = np.array([ctx.ri(0, 255) for _ in range(size)], dtype=np.uint8)
    elif kind == "complex":
        a = np.array([complex(num(ctx), num(ctx) if ctx.chance(0.8) else 0.0) for _ in range(size)], dtype=complex)
        if ctx.chance(0.15):
            a = a.real + 0j
        elif ctx.chance(0.15):
            a = 1j * a.imag
    elif kind == "float32":
        a = np.array([ctx.np.normal() for _ in range(size)], dtype=np.float32)
    else:
        a = np.array([num(ctx) for _ in range(size)], dtype=float)
        if special and size and ctx.chance(0.15):
            a[ctx.ri(0, size - 1)] = ctx.pick([np.inf, -np.inf, np.nan])
    a = a.reshape(shape)
    if nd >= 2 and ctx.chance(0.3):
        a = a.T
    if nd == 1 and ctx.chance(0.2):
        a = a[::-1]
    return a


KIND = {"f": "f", "i": "i", "u": "i", "b": "b", "c": "c"}


def same_array(got, want):
    got, want = np.asarray(got), np.asarray(want)
    if got.shape != want.shape:
        return False
    if want.size and KIND.get(got.dtype.kind) != KIND[want.dtype.kind]:
        return False
    if want.size == 0 and want.dtype.kind == "c" and got.dtype.kind != "c":
        return False
    return bool(np.all((got == want) | ((got != got) & (want != want))))


def text(ctx):
    return "".join(ctx.pick(list("abcxyz_ -./:äβ\"\\\n'{}[],0123456789")) for _ in range(ctx.ri(0, 8)))


def key(ctx):
    return ctx.pick(["a", "n_iter", "maxiter", "layer", "x y", "θ", "b2", "-", "_", "0x", "1st", "a,b"]) + ctx.pick(["", "", str(ctx.ri(0, 9))])


def plain(ctx, depth=0):
    """A JSON-like value."""
    k = ctx.ri(0, 8 if depth < 3 else 5)
    if k == 0:
        return num(ctx)
    if k == 1:
        return num(ctx, "int")
    if k == 2:
        return text(ctx)
    if k == 3:
        return None
    if k == 4:
        return num(ctx, "bool")
    if k == 5:
        return ctx.ri(0, 5)
    if k <= 7:
        return [plain(ctx, depth + 1) for _ in range(ctx.ri(0, 4))]
    return {key(ctx): plain(ctx, depth + 1) for _ in range(ctx.ri(0, 4))}


def same(got, want):
    """Structural equality with types, NaN equal to itself."""
    if isinstance(want, np.ndarray):
        return same_array(got, want)
    if isinstance(want, (np.bool_, bool)):
        return isinstance(got, bool) and got == bool(want)
    from zquantum.core.utils import ValueEstimate

    if isinstance(want, ValueEstimate):
        return type(got) is ValueEstimate and same(float(got), float(want)) and same(got.precision, want.precision)
    if isinstance(want, (np.integer, int)):
        return isinstance(got, int) and not isinstance(got, bool) and got == int(want)
    if isinstance(want, (float, np.floating)):
        want = float(want)
        return isinstance(got, float) and (got == want or (got != got and want != want)) and math.copysign(1, got) == math.copysign(1, want)
    if isinstance(want, tuple) and hasattr(want, "_fields"):
        return type(got) is type(want) and all(same(a, b) for a, b in zip(got, want))
    if isinstance(want, (list, tuple)):
        return isinstance(got, list) and len(got) == len(want) and all(same(a, b) for a, b in zip(got, want))
    from zquantum.core.distribution import MeasurementOutcomeDistribution

    if isinstance(want, MeasurementOutcomeDistribution):
        return isinstance(got, MeasurementOutcomeDistribution) and same_dict(got.distribution_dict, want.distribution_dict)
    from scipy.optimize import OptimizeResult

    if isinstance(want, OptimizeResult):
        return isinstance(got, OptimizeResult) and same_dict(got, want)
    if isinstance(want, dict):
        return isinstance(got, dict) and not isinstance(got, OptimizeResult) and same_dict(got, want)
    return type(got) is type(want) and got == want


def same_dict(got, want):
    return list(got) == list(want) and all(same(got[k], want[k]) for k in want)


def fingerprint(x):
    """Deep value snapshot, to see that saving left the object alone."""
    if isinstance(x, np.ndarray):
        return ("a", x.shape, x.dtype.str, x.tolist().__repr__())
    if isinstance(x, dict):
        return ("d", type(x).__name__, [(k, fingerprint(v)) for k, v in x.items()])
    if isinstance(x, (list, tuple)):
        return (type(x).__name__, [fingerprint(v) for v in x])
    if hasattr(x, "__dict__") and not isinstance(x, type):
        return (type(x).__name__, repr(float(x)) if isinstance(x, float) else "", fingerprint(dict(vars(x))))
    return (type(x).__name__, repr(x))


def through(ctx, obj, save, load, handle=True, what="saved object untouched"):
    """Saves obj by file name, loads it by name or by an open handle."""
    before = fingerprint(obj)
    p = ctx.path(ctx.pick([".json", "", ".x y"]))
    if ctx.chance(0.2):
        with open(p, "w") as f:
            f.write("x" * 5000)  # an old, longer file is replaced
    save(obj, ctx.pick([p, p, Path(p), p.encode()]))
    ctx.equal(fingerprint(obj), before, what)
    if handle and ctx.chance(0.4):
        with open(p) as f:
            return load(f)
    if handle and ctx.chance(0.2):
        with open(p, encoding="utf-8") as f:
            return load(io.StringIO(f.read()))
    if ctx.chance(0.3):  # what one load returned has no influence on the next
        first = load(p)
        kept = fingerprint(first)
        if poke(first):
            ctx.event("loaded object changed in place")
        ctx.equal(fingerprint(obj), before, "saved object independent of the loaded one")
        again = load(p)
        ctx.equal(fingerprint(again), kept, "loaded twice")
        return again
    if ctx.chance(0.3):
        got = load(p)
        other = copy.deepcopy(obj)
        if stir(other):
            try:
                save(other, ctx.path())
            except Exception:
                return got
            rewritten(ctx, what, save, load, [obj, other, obj], fingerprint)
        return got
    return load(p)


# ---------------------------------------------------------------- arrays and trees
@CHECK.scenario(quick=700, thorough=20000, needs=("loaded array", "array dictionary"))
def arrays(ctx):
    from zquantum.core.serialization import load_array, save_array
    from zquantum.core.utils import convert_array_to_dict, convert_dict_to_array

    a = array(ctx)
    keep = a.copy()
    ctx.case((a.dtype.str, a.shape, a.tobytes()), trivial=a.size == 0)
    d = lambda: repr(keep)
    way = ctx.ri(0, 3)
    p = ctx.used_path()
    if way == 0:
        save_array(a, ctx.pick([p, Path(p), p.encode()]))
        got = load_array(ctx.pick([p, Path(p), p.encode()]))
    elif way == 1:
        with open(p, "w") as f:
            save_array(a, f)
            ctx.check(not f.closed, "handle left open", d)
        with open(p) as f:
            got = load_array(f)
    elif way == 2:
        f = io.StringIO()
        save_array(a, f)
        f.seek(0)
        got = load_array(f)
    else:
        with open(p, "w") as f:
            f.write("y" * 3000)
        save_array(a, p)
        with open(p) as f:
            got = load_array(f)
    ctx.check(isinstance(got, (np.ndarray, np.generic)) and same_array(got, keep), "loaded array", lambda: (got, keep))
    ctx.check(same_array(a, keep), "saved object untouched", d)
    dct = convert_array_to_dict(a)
    json.dumps(dct)
    ctx.equal("imag" in dct, np.iscomplexobj(a), "array dictionary", d)
    back = convert_dict_to_array(dct)
    ctx.check(same_array(back, keep), "array dictionary", lambda: (back, keep))
    independent(ctx, "array dictionary", lambda: convert_array_to_dict(a), a)
    independent(ctx, "array from dictionary", lambda: convert_dict_to_array(dct), dct)
    if a.ndim and a.size:
        ctx.check(same_array(convert_dict_to_array({"real": dct["real"], "imag": None}), keep.real), "array dictionary without imaginary part", d)


def leaf(ctx, depth):
    from zquantum.core.distribution import MeasurementOutcomeDistribution
    from zquantum.core.utils import ValueEstimate

    k = ctx.ri(0, 7)
    if k == 0:
        return array(ctx)
    if k == 1:
        return estimate(ctx)
    if k == 2:
        n, top = ctx.ri(1, 4), ctx.pick([1, 1, 3, 12])
        keys = list({tuple(ctx.ri(0, top) for _ in range(n)) for _ in range(ctx.ri(1, 5))})
        return MeasurementOutcomeDistribution({k: ctx.rng.random() + 0.01 for k in keys})
    if k == 3:
        return ctx.pick([np.int64(num(ctx, "int")), np.float64(num(ctx)), np.float32(1.25), np.bool_(ctx.chance(0.5)), np.uint8(200), np.int32(-4)])
    if k == 4 and depth < 3:
        from zquantum.core.history.recorder import HistoryEntry, HistoryEntryWithArtifacts

        args = (ctx.ri(0, 9), array(ctx, dims=1), ctx.pick([estimate(ctx), num(ctx), array(ctx)]))
        if ctx.chance(0.5):
            return HistoryEntry(*args)
        return HistoryEntryWithArtifacts(*args, {key(ctx): tree(ctx, depth + 2) for _ in range(ctx.ri(0, 3))})
    return plain(ctx, 2)


def tree(ctx, depth=0):
    if depth > 3 or ctx.chance(0.35):
        return leaf(ctx, depth)
    k = ctx.ri(0, 5)
    if k <= 1:
        return [tree(ctx, depth + 1) for _ in range(ctx.ri(0, 4))]
    if k == 2:
        return tuple(tree(ctx, depth + 1) for _ in range(ctx.ri(0, 3)))
    if k == 3:
        from scipy.optimize import OptimizeResult

        return OptimizeResult({key(ctx): tree(ctx, depth + 1) for _ in range(ctx.ri(0, 3))}, opt_value=num(ctx))
    if k == 4:
        return {key(ctx): num(ctx, ctx.pick(["int", "float", "bool"])) for _ in range(ctx.ri(0, 3))}
    return {key(ctx): tree(ctx, depth + 1) for _ in range(ctx.ri(0, 4))}


def estimate(ctx):
    from zquantum.core.utils import ValueEstimate

    return ValueEstimate(ctx.pick([num(ctx), num(ctx, "int"), np.float64(num(ctx)), np.float32(0.5)]),
                         ctx.pick([None, None, num(ctx), np.float64(abs(num(ctx))), 0.0, 0, 3]))


@CHECK.scenario(quick=700, thorough=20000, needs=("decoded tree", "optimisation result loaded"))
def encoded_trees(ctx):
    from scipy.optimize import OptimizeResult

    from zquantum.core.serialization import OrquestraDecoder, OrquestraEncoder, load_optimization_results, save_optimization_results

    t = tree(ctx)
    before = fingerprint(t)
    ctx.case(repr(before), trivial=t in ([], {}, ()) if isinstance(t, (list, dict, tuple)) else False)
    ctx.sample(type(t).__name__)
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        indent = ctx.pick([None, 2])
        if ctx.chance(0.5):
            s = json.dumps(t, cls=OrquestraEncoder, indent=indent)
        else:
            f = io.StringIO()
            json.dump(t, f, cls=OrquestraEncoder, indent=indent)
            s = f.getvalue()
        ctx.equal(fingerprint(t), before, "saved object untouched")
        if ctx.chance(0.5):
            got = json.loads(s, cls=OrquestraDecoder)
        else:
            got = json.load(io.StringIO(s), cls=OrquestraDecoder)
        ctx.check(same(got, t), "decoded tree", lambda: (s[:600], got, t))
        # a second generation is the same again
        s2 = json.dumps(got, cls=OrquestraEncoder, indent=indent)
        ctx.check(same(json.loads(s2, cls=OrquestraDecoder), t), "decoded tree, second generation", lambda: (s2[:400], t))
        fields = {key(ctx): tree(ctx, 1) for _ in range(ctx.ri(0, 4))}
        fields.update(opt_value=estimate(ctx), opt_params=array(ctx, dims=1))
        kind = ctx.pick([dict, OptimizeResult])
        r = kind(fields)
        got = through(ctx, r, save_optimization_results, load_optimization_results, handle=False)
        ctx.check(isinstance(got, OptimizeResult) and same_dict(got, dict(r)), "optimisation result loaded", lambda: (got, r))


@CHECK.scenario(quick=200, thorough=4000, needs=("refused: object without a stored form",))
def not_serialisable(ctx):
    """What has no stored form is refused rather than silently changed."""
    from zquantum.core.serialization import OrquestraEncoder

    class Odd:
        pass

    o = ctx.pick([Odd(), {1, 2}, 1j, b"x", lambda: 0, object()])
    w = ctx.ri(0, 3)
    t = o if w == 0 else [1, o] if w == 1 else {"a": o} if w == 2 else {"a": [{"b": (o,)}]}
    ctx.case((type(o).__name__, w))
    ctx.raises((TypeError, ValueError), lambda: json.dumps(t, cls=OrquestraEncoder), "refused: object without a stored form")


# ---------------------------------------------------------------- small artifacts of utils
def noise_loader(data):
    return ("noise", data)


@CHECK.scenario(quick=500, thorough=12000, needs=("loaded estimate", "loaded list", "stored dictionary", "stored timing", "loaded shot estimate", "loaded noise model", "loaded wavefunction"))
def small_artifacts(ctx):
    from zquantum.core import utils as U
    from zquantum.core.measurement import load_wavefunction, save_wavefunction
    from zquantum.core.wavefunction import Wavefunction

    v = estimate(ctx)
    ctx.case((repr(float(v)), repr(v.precision)))
    ctx.check(same(U.ValueEstimate.from_dict(v.to_dict()), v), "estimate dictionary", lambda: v.to_dict())
    got = through(ctx, v, U.save_value_estimate, U.load_value_estimate)
    ctx.check(same(got, v) and got == v, "loaded estimate", lambda: (str(got), str(v)))
    w = v.to_dict()
    w.pop("precision")
    ctx.check(same(U.ValueEstimate.from_dict(w), U.ValueEstimate(float(v))), "estimate without precision", w)

    l = [plain(ctx) for _ in range(ctx.ri(0, 6))]
    name = ctx.pick(["", "x", text(ctx)])
    got = through(ctx, l, lambda o, p: U.save_list(o, p, name) if name else U.save_list(o, p), U.load_list)
    ctx.check(same(got, l), "loaded list", lambda: (got, l))

    dct = {key(ctx): plain(ctx) for _ in range(ctx.ri(0, 5))}

    def rd(p):
        with open(p) as f:
            return json.load(f)

    got = through(ctx, dct, U.save_generic_dict, rd, handle=False)
    ctx.equal(got.pop("schema", None), "zapata-v1-dict", "stored dictionary")
    ctx.check(same(got, dct), "stored dictionary", lambda: (got, dct))
    t = abs(num(ctx))
    got = through(ctx, t, U.save_timing, rd, handle=False)
    ctx.equal(got, {"schema": "zapata-v1-timing", "walltime": t}, "stored timing")

    k, n = abs(num(ctx)), ctx.ri(0, 50)
    fm = ctx.pick([None, array(ctx, ("float", "int"), dims=1)])
    p = ctx.used_path()
    if fm is None:
        U.save_nmeas_estimate(k, n, p)
    elif ctx.chance(0.5):
        U.save_nmeas_estimate(k, n, p, fm)
    else:
        U.save_nmeas_estimate(nmeas=k, nterms=n, filename=p, frame_meas=fm)
    got = U.load_nmeas_estimate(p)
    ctx.check(got[0] == k and got[1] == n and ((got[2] is None) if fm is None else same_array(got[2], fm)), "loaded shot estimate", lambda: (got, k, n, fm))

    data = plain(ctx)
    got = through(ctx, data, lambda o, p: U.save_noise_model(o, __name__, "noise_loader", p), U.load_noise_model)
    ctx.check(isinstance(got, tuple) and got[0] == "noise" and same(got[1], data), "loaded noise model", lambda: (got, data))

    n = ctx.ri(1, 4)
    amp = gen.state(ctx, n) if hasattr(gen, "state") else None
    if amp is None:
        amp = ctx.np.normal(size=2**n) + 1j * ctx.np.normal(size=2**n)
        amp /= np.linalg.norm(amp)
    if ctx.chance(0.3):
        amp = np.zeros(2**n, complex)
        amp[ctx.ri(0, 2**n - 1)] = ctx.pick([1, -1, 1j])
    wf = Wavefunction(np.array(amp))
    p = ctx.used_path()
    save_wavefunction(wf, p)
    if ctx.chance(0.5):
        got = load_wavefunction(ctx.pick([p, Path(p), p.encode()]))
    else:
        with open(p) as f:
            got = load_wavefunction(f)
    ctx.check(same_array(np.array(got.amplitudes, dtype=complex), np.array(wf.amplitudes, dtype=complex)), "loaded wavefunction", lambda: (got.amplitudes, amp))
    ctx.close(np.array(wf.amplitudes, dtype=complex), amp, "saved object untouched")


# ---------------------------------------------------------------- measurement artifacts
def frames(ctx, kinds, last=()):
    if ctx.chance(0.3):
        return None
    out = []
    for _ in range(ctx.ri(0, 4)):
        n = ctx.ri(1, 3)
        a = array(ctx, kinds, dims=0)
        a = np.array([[array(ctx, (kinds[0],), dims=0)[()] for _ in range(n)] for _ in range(n)])
        if last:
            a = np.array([[[int(ctx.ri(0, 99)) for _ in range(2)] for _ in range(n)] for _ in range(n)])
        out.append(a)
    return out


def same_frames(a, b):
    if a is None or b is None:
        return a is b
    return isinstance(a, list) and len(a) == len(b) and all(map(same_array, a, b))


@CHECK.scenario(quick=400, thorough=10000, needs=("loaded expectation values", "loaded parities", "comparison of expectation values"))
def measurement_artifacts(ctx):
    from zquantum.core import measurement as M

    ev = M.ExpectationValues(array(ctx, ("float", "float", "complex"), dims=1, special=False), frames(ctx, ("float", "complex")), frames(ctx, ("float",)))
    keep = copy.deepcopy(ev)
    ctx.case(repr(fingerprint(ev)), trivial=ev.values.size == 0)
    d = lambda: fingerprint(keep)
    p = ctx.used_path()
    M.save_expectation_values(ev, ctx.pick([p, Path(p)]))
    if ctx.chance(0.5):
        got = M.load_expectation_values(ctx.pick([p, Path(p), p.encode()]))
    else:
        with open(p) as f:
            got = M.load_expectation_values(f)
    for g in (got, M.ExpectationValues.from_dict(ev.to_dict())):
        ctx.check(same_array(g.values, keep.values) and same_frames(g.correlations, keep.correlations)
                  and same_frames(g.estimator_covariances, keep.estimator_covariances), "loaded expectation values", d)
        if not any(np.any(x != x) for x in [keep.values] + (keep.correlations or []) + (keep.estimator_covariances or [])):
            ctx.check(g == keep and not g != keep, "comparison of expectation values", d)
            o = copy.deepcopy(keep)
            w = ctx.ri(0, 4)
            if w == 0 and o.values.size:
                o.values = np.array(o.values)
                o.values[ctx.ri(0, o.values.size - 1)] = 12345.678
            elif w == 1:
                o.correlations = [np.array([[1.0]])] if not o.correlations else None
            elif w == 2 and o.correlations:
                i = ctx.ri(0, len(o.correlations) - 1)
                o.correlations[i] = np.array(o.correlations[i])
                o.correlations[i].flat[ctx.ri(0, o.correlations[i].size - 1)] = 12345.678
            elif w == 3 and o.estimator_covariances:
                o.estimator_covariances.pop()
            else:
                o.values = np.concatenate([o.values, [0.0]])
            ctx.check(g != o and not g == o, "comparison of expectation values", lambda: (fingerprint(keep), fingerprint(o)))
    ctx.check(g != 3, "comparison with something else")
    ctx.equal(fingerprint(ev), fingerprint(keep), "saved object untouched")

    n = ctx.ri(0, 4)
    vals = np.array([[ctx.ri(0, 10**6), ctx.ri(0, 99)] for _ in range(n)]) if n else np.array([])
    pa = M.Parities(vals, frames(ctx, ("int",), last=(2,)))
    keep = copy.deepcopy(pa)
    M.save_parities(pa, ctx.pick([p, Path(p)]))
    if ctx.chance(0.5):
        got = M.load_parities(ctx.pick([p, Path(p), p.encode()]))
    else:
        with open(p) as f:
            got = M.load_parities(f)
    for g in (got, M.Parities.from_dict(pa.to_dict())):
        ctx.check(same_array(g.values, keep.values) and same_frames(g.correlations, keep.correlations), "loaded parities", lambda: (fingerprint(keep), fingerprint(g)))
    ctx.equal(fingerprint(pa), fingerprint(keep), "saved object untouched")

    bits = [tuple(ctx.ri(0, 1) for _ in range(n)) for _ in range(ctx.ri(0, 8))] if n else []
    if bits and ctx.chance(0.3):
        bits = [tuple(np.int8(b) for b in t) for t in bits]
    m = M.Measurements(list(bits))
    m.save(p)
    if ctx.chance(0.5):
        got = M.Measurements.load_from_file(p)
    else:
        with open(p) as f:
            got = M.Measurements.load_from_file(f)
    ctx.check(got.bitstrings == [tuple(int(b) for b in t) for t in bits] and all(type(b) is int for t in got.bitstrings for b in t), "loaded measurements", lambda: (got.bitstrings, bits))
    ctx.equal(m.bitstrings, bits, "saved object untouched")


# ---------------------------------------------------------------- operators
def terms_close(ctx, got, want, what, rel=0.0):
    """Equal up to terms below the operators' own tolerance."""
    for k in set(got.terms) | set(want.terms):
        a, b = got.terms.get(k, 0), want.terms.get(k, 0)
        if rel == 0:
            ok = a == b or (a == 0 and abs(b) <= 1e-8)
        else:
            ok = abs(a - b) <= rel * abs(b) + (1e-8 if a == 0 else 1e-14)
        ctx.check(ok, what, lambda: (k, a, b, want.terms))


def coefficient(ctx):
    k = ctx.ri(0, 7)
    if k == 0:
        return ctx.pick([0.0, 0, 1, -2, 7])
    if k == 1:
        return num(ctx)
    if k == 2:
        return complex(num(ctx), 0.0)
    if k == 3:
        return complex(0.0, num(ctx))
    if k == 4:
        return np.float64(ctx.np.normal())
    if k == 5:
        return np.complex128(complex(ctx.np.normal(), ctx.np.normal()))
    if k == 6:
        return ctx.np.normal() * 10.0 ** ctx.ri(-6, 6)
    return complex(ctx.np.normal(), ctx.np.normal() * 10.0 ** ctx.ri(-9, 3))


def qubit_op(ctx, cls, letters):
    op = cls()
    for _ in range(ctx.ri(0, 7)):
        qs = ctx.rng.sample(range(ctx.pick([3, 6, 120])), ctx.ri(0, 3))
        op.terms[tuple((q, ctx.pick(letters)) for q in sorted(qs))] = coefficient(ctx)
    return op


def fermion_op(ctx):
    from zquantum.core.openfermion import FermionOperator

    op = FermionOperator()
    for _ in range(ctx.ri(0, 6)):
        op.terms[tuple((ctx.ri(0, ctx.pick([3, 25])), ctx.ri(0, 1)) for _ in range(ctx.ri(0, 4)))] = coefficient(ctx)
    return op


@CHECK.scenario(quick=500, thorough=12000, needs=("loaded qubit operator", "loaded operator set", "loaded Ising operator", "loaded binary operator", "loaded text operator", "existing operator file kept"))
def operators(ctx):
    from zquantum.core.openfermion import IsingOperator, QubitOperator
    from zquantum.core.openfermion.utils.operator_utils import OperatorUtilsError, load_operator, save_operator
    from zquantum.core.openfermion.zapata_utils import _io as IO

    q = qubit_op(ctx, QubitOperator, "XYZ")
    ctx.case(repr(q.terms), trivial=not q.terms)
    d = lambda: q.terms
    got = through(ctx, q, IO.save_qubit_operator, IO.load_qubit_operator)
    ctx.check(type(got) is QubitOperator, "loaded qubit operator", d)
    terms_close(ctx, got, q, "loaded qubit operator")
    terms_close(ctx, IO.convert_dict_to_qubitop(json.loads(json.dumps(IO.convert_qubitop_to_dict(q)))), q, "qubit operator dictionary")
    i = qubit_op(ctx, IsingOperator, "Z")
    got = through(ctx, i, IO.save_ising_operator, IO.load_ising_operator)
    ctx.check(type(got) is IsingOperator, "loaded Ising operator", lambda: i.terms)
    terms_close(ctx, got, i, "loaded Ising operator")
    independent(ctx, "qubit operator dictionary", lambda: IO.convert_qubitop_to_dict(q), q)
    independent(ctx, "Ising operator dictionary", lambda: IO.convert_isingop_to_dict(i), i)
    qd, idc = IO.convert_qubitop_to_dict(q), IO.convert_isingop_to_dict(i)
    independent(ctx, "operator of a dictionary", lambda: IO.convert_dict_to_qubitop(qd), qd)
    independent(ctx, "operator of a dictionary", lambda: IO.convert_dict_to_isingop(idc), idc)
    terms_close(ctx, IO.convert_dict_to_isingop(json.loads(json.dumps(IO.convert_isingop_to_dict(i)))), i, "Ising operator dictionary")
    qs = [qubit_op(ctx, QubitOperator, "XYZ") for _ in range(ctx.ri(0, 4))]
    got = through(ctx, qs, IO.save_qubit_operator_set, IO.load_qubit_operator_set)
    ctx.check(isinstance(got, list) and len(got) == len(qs), "loaded operator set", lambda: [x.terms for x in qs])
    for a, b in zip(got, qs):
        terms_close(ctx, a, b, "loaded operator set")

    o = ctx.pick([q, fermion_op(ctx), fermion_op(ctx), qubit_op(ctx, QubitOperator, "XYZ")])
    for text_ in (False, True):
        before = fingerprint(o)
        dname, base = os.getcwd(), "op%d%d" % (ctx.idx, text_)
        fn = base + ctx.pick(["", ".data"])
        path = os.path.join(dname, base + ".data")
        if os.path.exists(path):
            os.unlink(path)
        save_operator(o, fn, dname, plain_text=text_)
        ctx.check(os.path.exists(path), "operator file is where it was asked for", fn)
        ctx.equal(fingerprint(o), before, "saved object untouched")
        got = load_operator(base + ctx.pick(["", ".data"]), dname, text_)
        what = "loaded text operator" if text_ else "loaded binary operator"
        ctx.check(type(got) is type(o), what, lambda: o.terms)
        terms_close(ctx, got, o, what, rel=1e-10 if text_ else 0.0)
        with open(path, "rb") as f:
            content = f.read()
        other = fermion_op(ctx)
        ctx.raises(OperatorUtilsError, lambda: save_operator(other, fn, dname, plain_text=text_), "existing operator file kept")
        with open(path, "rb") as f:
            ctx.equal(f.read(), content, "existing operator file kept")
        save_operator(other, fn, dname, allow_overwrite=True, plain_text=text_)
        terms_close(ctx, load_operator(fn, dname, plain_text=text_), other, "overwritten operator file", rel=1e-10 if text_ else 0.0)
        os.unlink(path)
    import sympy

    bad = QubitOperator()
    bad.terms[((0, "X"),)] = sympy.Symbol("a")
    ctx.raises(TypeError, lambda: save_operator(bad, "bad", os.getcwd()), "symbolic operator refused")
    ctx.check(not os.path.exists(os.path.join(os.getcwd(), "bad.data")), "symbolic operator refused")


@CHECK.scenario(quick=250, thorough=6000, needs=("loaded interaction operator", "loaded RDM", "stored grid"))
def tensors(ctx):
    from zquantum.core.openfermion import InteractionOperator, InteractionRDM
    from zquantum.core.openfermion.zapata_utils import _io as IO

    n = ctx.ri(1, 3)

    def tensor(r):
        k = ctx.pick(["float", "complex", "int", "real complex"])
        a = ctx.np.normal(size=(n,) * r) * (ctx.np.random((n,) * r) < 0.6)
        if k == "int":
            return np.round(3 * a).astype(int)
        if k == "float":
            return a
        return a + (1j * ctx.np.normal(size=(n,) * r) if k == "complex" else 0j)

    c = ctx.pick([0, 0.0, 1.5, -2, 1j, 0.5 - 3j, 2 + 0j, np.float64(0.3), np.complex128(1 - 1j)])
    op = InteractionOperator(c, tensor(2), tensor(4))
    ctx.case((repr(c), op.one_body_tensor.tobytes(), op.two_body_tensor.tobytes()), trivial=not np.any(op.two_body_tensor))
    got = through(ctx, op, IO.save_interaction_operator, IO.load_interaction_operator)
    for g in (got, IO.convert_dict_to_interaction_op(IO.convert_interaction_op_to_dict(op))):
        ctx.check(type(g) is InteractionOperator and g.constant == op.constant and np.iscomplexobj(g.constant) == np.iscomplexobj(op.constant)
                  and same_array(g.one_body_tensor, op.one_body_tensor) and same_array(g.two_body_tensor, op.two_body_tensor)
                  and g == op, "loaded interaction operator", lambda: (fingerprint(op), fingerprint(g)))
    rdm = InteractionRDM(tensor(2), tensor(4))
    independent(ctx, "interaction operator dictionary", lambda: IO.convert_interaction_op_to_dict(op), op)
    independent(ctx, "RDM dictionary", lambda: IO.convert_interaction_rdm_to_dict(rdm), rdm)
    dd, dr = IO.convert_interaction_op_to_dict(op), IO.convert_interaction_rdm_to_dict(rdm)
    independent(ctx, "operator of a dictionary", lambda: IO.convert_dict_to_interaction_op(dd), dd)
    independent(ctx, "RDM of a dictionary", lambda: IO.convert_dict_to_interaction_rdm(dr), dr)
    got = through(ctx, rdm, IO.save_interaction_rdm, IO.load_interaction_rdm)
    for g in (got, IO.convert_dict_to_interaction_rdm(IO.convert_interaction_rdm_to_dict(rdm))):
        ctx.check(type(g) is InteractionRDM and same_array(g.one_body_tensor, rdm.one_body_tensor) and same_array(g.two_body_tensor, rdm.two_body_tensor),
                  "loaded RDM", lambda: (fingerprint(rdm), fingerprint(g)))

    grid = []
    for _ in range(ctx.ri(0, 4)):
        e = {"value": estimate(ctx)}
        for j in range(ctx.ri(0, 3)):
            e["parameter%d" % j] = plain(ctx, 2)
        grid.append(dict(reversed(list(e.items()))) if ctx.chance(0.5) else e)

    def rd(p):
        with open(p) as f:
            return json.load(f)

    got = through(ctx, grid, IO.save_parameter_grid_evaluation, rd, handle=False)
    want = [{k: {"schema": "zapata-v1-value_estimate", **x.to_dict()} if k == "value" else x for k, x in e.items()} for e in grid]
    ctx.equal(got["schema"], "zapata-v1-parameter_grid_evaluation", "stored grid")
    ctx.check(len(got["values_set"]) == len(want) and all(set(a) == set(b) and all(same(a[k], b[k]) if k != "value" else a[k] == b[k] or a[k]["value"] != a[k]["value"] for k in b)
              for a, b in zip(got["values_set"], want)), "stored grid", lambda: (got, want))


@CHECK.scenario(quick=300, thorough=6000, needs=("loaded layers", "loaded ordering", "loaded connectivity"))
def layouts(ctx):
    from zquantum.core.circuits import layouts as L

    def groups():
        return [tuple(ctx.ri(0, 99) for _ in range(ctx.ri(1, 4))) for _ in range(ctx.ri(0, 5))]

    layers = [groups() for _ in range(ctx.ri(0, 4))]
    ctx.case(repr(layers), trivial=not any(layers))
    o = L.CircuitLayers(copy.deepcopy(layers))
    got = through(ctx, o, L.save_circuit_layers, L.load_circuit_layers)
    ctx.equal(got.layers, layers, "loaded layers")
    ctx.equal(L.CircuitLayers.from_dict(o.to_dict()).layers, layers, "loaded layers")
    ctx.check(all(type(g) is tuple for l in got.layers for g in l), "loaded layers")
    order = list(range(ctx.ri(0, 20)))
    ctx.rng.shuffle(order)
    got = through(ctx, order, L.save_circuit_ordering, L.load_circuit_ordering)
    ctx.equal(got, order, "loaded ordering")
    con = groups()
    o = L.CircuitConnectivity(list(con))
    got = through(ctx, o, L.save_circuit_connectivity, L.load_circuit_connectivity)
    ctx.equal(got.connectivity, con, "loaded connectivity")
    ctx.equal(L.CircuitConnectivity.from_dict(o.to_dict()).connectivity, con, "loaded connectivity")
    ctx.check(all(type(g) is tuple for g in got.connectivity), "loaded connectivity")


@CHECK.scenario(quick=90, thorough=1500, needs=("read-only handle refused", "missing file reported"))
def handles(ctx):
    """Files that cannot be written or read are reported, and stay as they were."""
    from zquantum.core.circuits import X, Circuit, load_circuit, load_circuitset, save_circuit, save_circuitset
    from zquantum.core.graph import load_graph, save_graph
    from zquantum.core.measurement import load_wavefunction, load_expectation_values
    from zquantum.core.serialization import ensure_open, load_array, save_array
    import networkx as nx

    savers = [(save_array, np.arange(3.0)), (save_circuit, Circuit([X(0)])), (save_circuitset, [Circuit([X(1)])]), (save_graph, nx.path_graph(3))]
    loaders = [load_array, load_circuit, load_circuitset, load_graph, load_wavefunction, load_expectation_values]
    save, obj = ctx.pick(savers)
    p = ctx.path()
    text = ctx.pick(["", "[1]", "earlier contents"])
    with open(p, "w") as f:
        f.write(text)
    ctx.case((save.__name__, text, ctx.idx))
    if save is not save_graph or ctx.chance(0.5):
        with open(p) as f:
            ctx.raises((ValueError, io.UnsupportedOperation), lambda: save(obj, f), "read-only handle refused", lambda: save.__name__)
            ctx.check(not f.closed and f.tell() == 0, "handle left alone", lambda: save.__name__)
    with open(p) as f:
        ctx.equal(f.read(), text, "read-only handle refused")
    mode = ctx.pick(["w", "a", "r+", "x"])
    with open(p) as f:
        def enter():
            with ensure_open(f, mode) as h:
                return h
        ctx.raises(ValueError, enter, "read-only handle refused", lambda: mode)
        with ensure_open(f, "r") as h:
            ctx.check(h is f and h.read() == text, "handle passed through")
        ctx.check(not f.closed, "handle left open")
    q = ctx.path()
    if os.path.exists(q):
        os.remove(q)
    load = ctx.pick(loaders)
    ctx.raises(FileNotFoundError, lambda: load(q), "missing file reported", lambda: load.__name__)
    ctx.check(not os.path.exists(q), "missing file reported")
    ctx.raises(FileNotFoundError, lambda: save(obj, os.path.join(q, "x.json")), "missing file reported", lambda: save.__name__)
    # a file opened through ensure_open is closed on every way out
    for fail in (False, True):
        try:
            with ensure_open(p, "w") as h:
                h.write("new")
                if fail:
                    raise KeyError("inside")
        except KeyError:
            ctx.event("error inside")
        ctx.check(h.closed, "file closed", lambda: fail)
        with open(p) as f:
            ctx.equal(f.read(), "new", "written text", lambda: fail)
