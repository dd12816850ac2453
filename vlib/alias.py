"""Independence of results: changing what a call returned must not change what it was given, nor a second result;
changing what it was given must show in the next result."""
import copy
import re
import types

import numpy as np


def _own(x):
    return type(x).__module__.startswith("zquantum") and hasattr(x, "__dict__")


def freeze(x, depth=6):
    """A deep, comparable picture of arrays, containers and library objects."""
    if isinstance(x, np.ndarray):
        if x.dtype == object:
            return ("arr", x.shape, tuple(freeze(v, depth - 1) for v in x.flat))
        return ("arr", x.shape, str(x.dtype), x.tobytes())
    if hasattr(x, "toarray"):
        return ("sparse", freeze(x.toarray()))
    if hasattr(x, "add_weighted_edges_from"):  # a graph
        return ("graph", type(x).__name__, repr(list(x.nodes(data=True))), repr(list(x.edges(data=True))))
    if depth and isinstance(x, dict):
        return ("dict", tuple((repr(k), freeze(v, depth - 1)) for k, v in x.items()))
    if depth and isinstance(x, (list, tuple)):
        return (type(x).__name__, tuple(freeze(v, depth - 1) for v in x))
    if depth and _own(x):
        return (type(x).__name__, freeze(vars(x), depth - 1))
    return repr(x)


FLOAT = re.compile(r"[-+]?\d+(?:\.\d*)?(?:e[-+]?\d+)?")


def alike(p, q):
    """Equal pictures up to rounding: vectorised arithmetic depends, in the last bit, on where arrays lie in memory."""
    if p == q:
        return True
    if type(p) is not type(q):
        return False
    if isinstance(p, tuple):
        if len(p) != len(q):
            return False
        if len(p) == 4 and p[0] == "arr" and isinstance(p[3], bytes):
            if p[:3] != q[:3] or np.dtype(p[2]).kind not in "fc":
                return False
            x, y = (np.frombuffer(v[3], dtype=v[2]) for v in (p, q))
            bound = max((np.abs(v[np.isfinite(v)]).max(initial=0) for v in (x, y)), default=0)
            return bool(np.allclose(x, y, rtol=1e-9, atol=1e-9 * bound + 1e-12, equal_nan=True))
        return all(map(alike, p, q))
    if isinstance(p, str):
        if FLOAT.sub("", p) != FLOAT.sub("", q):
            return False
        x, y = ([float(v) for v in FLOAT.findall(s)] for s in (p, q))
        return len(x) == len(y) and all(abs(a - b) <= 1e-9 * max(abs(a), abs(b)) + 1e-12 for a, b in zip(x, y))
    return False


def poke(x, depth=6):
    """Changes everything mutable that can be reached from x; returns how much there was."""
    n = 0
    if isinstance(x, np.ndarray):
        if x.size and x.flags.writeable:
            x[...] = x + 1 if x.dtype != object else 77
            n += 1
    elif hasattr(x, "toarray"):
        n += poke(x.data)
    elif type(x).__name__ == "MutableDenseMatrix":
        x[0, 0] = x[0, 0] + 1
        n += 1
    elif hasattr(x, "add_weighted_edges_from"):
        for e in list(x.edges):
            x.edges[e]["weight"] = "changed"
        x.add_edge("new", "newer")
        n += 1
    elif type(x).__module__.startswith("zquantum.core.circuits._"):  # circuits, gates and operations are values
        pass
    elif isinstance(x, set):
        x.add("added")
        n += 1
    elif isinstance(x, dict) and depth:
        for k, v in list(x.items()):
            n += poke(v, depth - 1)
            if isinstance(v, (int, float, complex, np.number)):
                x[k] = v + 1
                n += 1
    elif isinstance(x, (list, tuple)) and depth:
        n += sum(poke(v, depth - 1) for v in x)
        if isinstance(x, list):
            x.append(x[0] if x else 0)
            n += 1
    elif depth and _own(x):
        n += poke(vars(x), depth - 1)
    return n


def stir(x, depth=6):
    """Changes values inside x in place, as a user would who goes on working with it; returns how many."""
    n = 0
    if isinstance(x, np.ndarray):
        if x.size and x.flags.writeable and x.dtype.kind in "fc":
            x[...] = x + 0.25
            n += 1
    elif hasattr(x, "toarray"):
        n += stir(x.data)
    elif hasattr(x, "add_weighted_edges_from"):
        for e in list(x.edges):
            x.edges[e]["weight"] = 123.5
            n += 1
    elif type(x).__module__.startswith("zquantum.core.circuits._"):
        pass
    elif isinstance(x, dict) and depth:
        vs = list(x.values())
        if vs and all(isinstance(v, (int, float)) and v >= 0 for v in vs) and abs(sum(vs) - 1) < 1e-6:
            for k, v in zip(list(x), vs[1:] + vs[:1]):  # probabilities stay probabilities
                x[k] = v
            return int(len(vs) > 1)
        for k, v in list(x.items()):
            n += stir(v, depth - 1)
            if isinstance(v, (float, complex)):
                x[k] = v + 0.25
                n += 1
    elif isinstance(x, (list, tuple)) and depth:
        n += sum(stir(v, depth - 1) for v in x)
        if isinstance(x, list) and len(x) > 1:
            x.reverse()
            n += 1
    elif depth and _own(x):
        n += sum(stir(v, depth - 1) for v in vars(x).values())
        if isinstance(getattr(x, "terms", None), dict):
            n += _reword(x.terms)
    return n


def _reword(terms):
    """Moves the coefficient of one term of an operator to another term."""
    for t in terms:
        if t and isinstance(t, tuple):
            q, a = t[-1]
            new = t[:-1] + (((q, "ZXY"["XYZ".index(a)]),) if isinstance(a, str) and any(k != "Z" for u in terms for _, k in u) else ())
            if new not in terms:
                terms[new] = terms.pop(t)
                return 1
    return 0


def _fresh(x):
    """Another object of the same content, without what a call may have left on it."""
    if type(x) in (list, tuple):
        return type(x)(map(_fresh, x))
    if _own(x) and isinstance(getattr(x, "terms", None), dict):
        new = type(x)()
        new.terms = copy.deepcopy(x.terms)
        return new
    if type(x).__name__ == "EstimationTask":
        return type(x)(_fresh(x.operator), copy.deepcopy(x.circuit), x.number_of_shots)
    if type(x).__name__ in ("ExpectationValues", "Parities", "Measurements", "MeasurementOutcomeDistribution"):
        new = object.__new__(type(x))
        names = {"Parities": ("values", "correlations"), "Measurements": ("bitstrings",), "MeasurementOutcomeDistribution": ("distribution_dict",)}
        for k in names.get(type(x).__name__, ("values", "correlations", "estimator_covariances")):
            setattr(new, k, copy.deepcopy(getattr(x, k)))
        return new
    return copy.deepcopy(x)


def _with(fn, old, new):
    """fn, with the objects of new in the place of those of old (None if fn doesn't refer to each of them directly)."""
    swap = {id(o): n for o, n in zip(old, new)}
    seen = set()

    def sub(v):
        if id(v) in swap:
            seen.add(id(v))
            return swap[id(v)]
        return v

    if isinstance(fn, types.MethodType):
        out = types.MethodType(fn.__func__, sub(fn.__self__))
    elif isinstance(fn, types.FunctionType):
        cells = tuple(types.CellType(sub(c.cell_contents)) for c in fn.__closure__ or ())
        out = types.FunctionType(fn.__code__, fn.__globals__, fn.__name__, tuple(map(sub, fn.__defaults__ or ())), cells)
        out.__kwdefaults__ = fn.__kwdefaults__
    else:
        return None
    return out if len(seen) == len(swap) else None


def _outcome(fn):
    try:
        return freeze(fn())
    except Exception as e:
        return ("raised", type(e).__name__)


def current(ctx, what, fn, *inputs):
    """fn() follows its inputs: once they are changed in place, it gives what it gives for other objects like them."""
    mine = copy.deepcopy(inputs)
    f = _with(fn, inputs, mine)
    if f is None:
        return
    first = _outcome(f)
    if not stir(mine):
        return
    other = _fresh(mine)
    want = _outcome(_with(fn, inputs, other))
    got = _outcome(f)
    ctx.check(alike(got, want), what + ": follow their arguments", lambda: (inputs, mine, first, got, want))
    if not alike(want, first) and want[0] != "raised":
        ctx.event("arguments changed in place, asked again")


def rewritten(ctx, what, save, load, objs, picture=freeze):
    """A file written again gives what was written last, whatever it gave before (in the same second, of the same size)."""
    same = ctx.path()
    for o in objs:
        alone = ctx.path()
        save(o, same)
        save(o, alone)
        ctx.check(alike(picture(load(same)), picture(load(alone))), what + ": loading a file written again", lambda: o)
        ctx.event("file written again and loaded")


def separate(ctx, what, results, inputs=()):
    """Changing one of the results leaves the others, and the inputs, as they were."""
    for i in range(min(len(results), 4)):
        rest = [freeze(r) for k, r in enumerate(results) if k != i]
        given = freeze(inputs)
        if poke(results[i]):
            ctx.event("result changed in place")
        ctx.check([freeze(r) for k, r in enumerate(results) if k != i] == rest, what + ": independent of each other")
        ctx.check(freeze(inputs) == given, what + ": inputs independent of them")


def independent(ctx, what, fn, *inputs, twice=True):
    """fn(): a result made from the inputs. Changing it leaves the inputs, and a later result, as they were."""
    before = freeze(inputs)
    first = fn()
    pic = freeze(first)
    ctx.check(freeze(inputs) == before, what + ": arguments unchanged")
    if poke(first):
        ctx.event("result changed in place")
    ctx.check(freeze(inputs) == before, what + ": arguments independent of the result")
    if twice:
        ctx.check(alike(freeze(fn()), pic), what + ": later results independent of earlier ones")
    if inputs and ctx.chance(0.4):
        current(ctx, what, fn, *inputs)
