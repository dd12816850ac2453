"""Wavefunction objects: normalisation invariant over histories, definitions of named states."""
import copy
import math
import warnings

import numpy as np
import sympy

from vlib.alias import independent, rewritten
from vlib import gen, ref
from vlib.harness import Check

CHECK = Check(
    "C08",
    "a case is one construction (with its input container and values) or one history of assignments and bindings on one "
    "object; a history is trivial when no step was attempted",
    ["norms between 1e-8 and 1e-3 away from one are not generated (the library's tolerance lies there)"],
)


def unit(ctx, n, real=False):
    if ctx.chance(0.3):
        v = np.zeros(2**n, dtype=complex)
        for i in ctx.rng.sample(range(2**n), ctx.ri(1, 2**n)):
            v[i] = ctx.pick([1, -1] if real else [1, -1, 1j, -1j])
    else:
        v = ctx.np.normal(size=2**n) + (0 if real else 1j * ctx.np.normal(size=2**n))
    return v / np.linalg.norm(v)


def contain(ctx, v):
    """The same values in one of the accepted containers."""
    k = ctx.ri(0, 5)
    if k == 0:
        return [complex(x) for x in v]
    if k == 1:
        return tuple(complex(x) for x in v)
    if k == 2:
        return np.array(v, dtype=complex)
    if k == 3:
        return sympy.Matrix([sympy.sympify(complex(x)) for x in v])
    if k == 4:
        return sympy.ImmutableMatrix([sympy.sympify(complex(x)) for x in v])
    if np.allclose(np.imag(v), 0):
        return np.real(v).copy()
    return list(v)


def outcome(i, n):
    """Outcome string of basis index i: the library lists qubits from last to first."""
    return "".join(str((i >> k) & 1) for k in range(n))


def is_num(e):
    return not (isinstance(e, sympy.Basic) and e.free_symbols)


def observe(ctx, wf, model, what):
    """Everything observable of wf against the model (list of numbers / expressions)."""
    n = len(model).bit_length() - 1
    ctx.equal(len(wf), len(model), "length", what)
    ctx.check(len(wf) & (len(wf) - 1) == 0 and len(wf) > 0, "power of two")
    ctx.equal(wf.n_qubits, n, "n_qubits", what)
    syms = set().union(*[e.free_symbols for e in model if isinstance(e, sympy.Basic)] or [set()])
    ctx.equal(set(wf.free_symbols), syms, "free symbols", what)
    env = {s: 0.1 + 0.01 * i for i, s in enumerate(sorted(syms, key=str))}
    want = np.array([ref.num(e, env) for e in model])
    amps, probs, outs = wf.amplitudes, wf.get_probabilities(), wf.get_outcome_probs()
    views = dict(
        amplitudes=list(amps), iteration=list(wf), items=[wf[i] for i in range(len(wf))],
        negative=[wf[i - len(model)] for i in range(len(model))],
    )
    for k, v in views.items():
        ctx.close([ref.num(e, env) for e in v], want, "observed " + k, detail=what)
    ctx.close([ref.num(e, env) for e in probs], np.abs(want) ** 2, "observed probabilities", detail=what)
    ctx.equal(set(outs), {outcome(i, n) for i in range(2**n)} if n else {"0"}, "outcome keys", what)
    if n:
        ctx.close([ref.num(outs[outcome(i, n)], env) for i in range(2**n)], np.abs(want) ** 2, "outcome probabilities", detail=what)
    if not syms:
        ctx.check(isinstance(amps, np.ndarray) and amps.shape == (len(model),), "numeric amplitudes form a vector", what)
        ctx.check(abs(sum(probs) - 1) < 1e-4, "unit probability", what)
        ctx.check(all(isinstance(float(p), float) for p in probs), "numeric probabilities")
    else:
        ctx.check(sum(abs(ref.num(e)) ** 2 for e in model if is_num(e)) <= 1 + 1e-4, "numeric part at most one", what)
    s = str(wf)
    ctx.check(s.startswith("Wavefunction("), "printable")
    ctx.check(wf == copy.deepcopy(wf) and not wf != copy.deepcopy(wf), "equal to its copy", what)
    ctx.check(wf != list(amps) and wf != type(wf).zero_state(n + 1), "differs from others", what)
    if syms:
        s0 = sorted(syms, key=str)[0]
        other = type(wf)(sympy.Matrix([e.subs(s0, sympy.Symbol("other")) if isinstance(e, sympy.Basic) else e for e in model]))
        ctx.check(wf != other and not wf == other, "differs from others", what)


@CHECK.scenario(quick=400, thorough=8000, needs=("valid construction", "invalid construction rejected"))
def construct(ctx):
    from zquantum.core.wavefunction import Wavefunction

    n = ctx.ri(1, 5)
    v = unit(ctx, n, real=ctx.chance(0.3))
    kind = ctx.ri(0, 4)
    if kind == 0:  # wrong norm
        v = v * ctx.pick([0.5, 0.99, 1.01, 2, 1.5j, 0])
        bad = True
    elif kind == 1:  # wrong length
        extra = ctx.pick([1, 2, 3]) if n > 1 else 1
        v = np.concatenate([v, np.zeros(extra)])
        bad = len(v) & (len(v) - 1) != 0
    elif kind == 2 and ctx.chance(0.3):
        v = v.copy()
        v[ctx.ri(0, len(v) - 1)] = float("nan")
        bad = True
    else:
        bad = False
    c = contain(ctx, v) if not np.isnan(v).any() else np.array(v)
    ctx.case((type(c).__name__, np.round(v, 6).tolist()))
    ctx.sample((type(c).__name__, np.round(v, 6).tolist()[:8], bad))
    if bad:
        ctx.raises(ValueError, lambda: Wavefunction(c), "invalid construction rejected", v)
        return
    wf = Wavefunction(c)
    ctx.event("valid construction")
    observe(ctx, wf, list(v), type(c).__name__)
    if isinstance(c, (np.ndarray, list)) or type(c) is type(sympy.Matrix([1])):
        c[0] = 5
        ctx.event("source array changed afterwards")
        observe(ctx, wf, list(v), "after changing the source container")
    # equality is sensitive to every amplitude
    same = Wavefunction(contain(ctx, v))
    ctx.check(isinstance(wf == same, bool) and wf == same or np.iscomplexobj(v), "equal amplitudes compare equal")
    w = v * ctx.pick([-1, 1j])
    ctx.check(not (wf == Wavefunction(w)), "different amplitudes compare unequal")
    ctx.check(not (wf == list(v)) and not (wf == "x"), "unequal to other types")
    if n < 5:
        ctx.check(not (wf == Wavefunction(np.concatenate([v, np.zeros(len(v))]))), "different size unequal")


def sym_entries(ctx, n, syms):
    """Random mix of numbers (total probability < 1) and expressions."""
    dim = 2**n
    k = ctx.ri(1, dim)
    spots = ctx.rng.sample(range(dim), k)
    v = unit(ctx, n) * ctx.pick([0.3, 0.9, 1.0])
    m = [complex(x) for x in v]
    for i in spots:
        m[i] = gen.expr(ctx, syms, ctx.ri(0, 1)) * ctx.pick([1, 1, 0.5, sympy.I])
        if is_num(m[i]):
            m[i] = ctx.pick(syms)
    if ctx.chance(0.15):
        # numeric part that adds up to one exactly in real arithmetic but not in floating point
        r = [i for i in range(dim) if is_num(m[i])]
        for i in r:
            m[i] = 1 / math.sqrt(len(r))
    return m


def norm2(m):
    return sum(abs(ref.num(e)) ** 2 for e in m if is_num(e))


def verdict(m):
    """'ok', 'bad' or 'gray' for a model vector."""
    p = norm2(m)
    full = all(is_num(e) for e in m)
    if full:
        return "ok" if abs(p - 1) < 1e-8 else "bad" if abs(p - 1) > 1e-3 else "gray"
    return "ok" if p < 1 + 1e-8 else "bad" if p > 1 + 1e-3 else "gray"


@CHECK.scenario(quick=500, thorough=12000, needs=("rejected assignment leaves object", "accepted assignment", "binding", "rejected binding"))
def history(ctx):
    from zquantum.core.wavefunction import Wavefunction

    n = ctx.ri(1, 3)
    dim = 2**n
    syms = gen.symbols(ctx, ctx.ri(1, 4), ["a", "b", "c", "theta_1", "theta_10", "x"])
    if ctx.chance(0.4):
        model = [complex(x) for x in unit(ctx, n)]
        wf = Wavefunction(contain(ctx, np.array(model)))
    else:
        model = sym_entries(ctx, n, syms)
        wf = Wavefunction(list(model) if ctx.chance(0.5) else sympy.Matrix(model))
        model = [m if not is_num(m) else complex(ref.num(m)) for m in model]
    trace = [str(model)]
    observe(ctx, wf, model, trace)
    array_like = all(is_num(e) for e in model)  # numeric from the start or after binding
    others = []
    for step in range(ctx.ri(1, 6)):
        symbolic = any(not is_num(e) for e in model)
        k = ctx.ri(0, 9)
        new = list(model)
        if k <= 3:  # item
            i = ctx.ri(-dim, dim - 1)
            j = ctx.ri(0, 5)
            if j == 0:
                val = model[i] * complex(np.exp(1j * ctx.rng.uniform(0, 6)))
            elif j == 1:
                val = ctx.pick([1.0, -1.0, 0.0, 2, 0.5, 1j])
            elif j == 2:
                val = ctx.pick(syms) * ctx.pick([1, 0.5])
            elif j == 3:
                rest = norm2([e for t, e in enumerate(model) if t != i % dim])
                val = math.sqrt(max(0.0, 1 - rest))
            elif j == 4:
                val = sympy.sqrt(2) / 2
            else:
                val = complex(ctx.rng.uniform(-1, 1), ctx.rng.uniform(-1, 1))
            new[i] = val
            act = lambda: wf.__setitem__(i, val)
            trace.append(f"wf[{i}]={val}")
        elif k <= 6:  # slice
            a = ctx.ri(0, dim - 1)
            b = ctx.ri(a + 1, dim)
            st = ctx.pick([1, 1, 2])
            sl = slice(a, b, st) if ctx.chance(0.7) else slice(None, None, -1)
            old = [complex(ref.num(e)) if is_num(e) else None for e in model[sl]]
            if ctx.chance(0.5) and None not in old:
                val = list(old)
                ctx.rng.shuffle(val)
                val = [x * ctx.pick([1, -1, 1j]) for x in val]
            else:
                val = [complex(ctx.rng.uniform(-1, 1)) for _ in old]
                if ctx.chance(0.3):
                    val = [0.0] * len(old)
            new[sl] = val
            act = lambda: wf.__setitem__(sl, list(val) if ctx.chance(0.5) else np.array(val))
            trace.append(f"wf[{sl}]={val}")
        else:
            act = None
        if act is not None:
            v = verdict(new)
            if v == "gray":
                trace.pop()
                continue
            num_arr = array_like
            must_reject = v == "bad"
            # slice assignment on symbolic vectors is not offered by sympy matrices: only required to be all-or-nothing
            # a symbol is not required to fit into an all-numeric vector
            may_reject = (not num_arr and k > 3) or (not symbolic and any(not is_num(e) for e in new))
            try:
                act()
                ok = True
            except Exception as e:
                ok = False
                if v == "bad" and num_arr and not any(not is_num(e2) for e2 in new):
                    ctx.check(isinstance(e, ValueError), "violating assignment raises ValueError", (trace, repr(e)))
            if ok:
                ctx.check(not must_reject, "violating assignment rejected", lambda: trace)
                model = [e if not is_num(e) else complex(ref.num(e)) for e in new]
                ctx.event("accepted assignment")
            else:
                ctx.check(must_reject or may_reject, "valid assignment accepted", lambda: trace)
                ctx.event("rejected assignment leaves object")
            observe(ctx, wf, model, lambda: trace)
        else:
            present = sorted(set().union(*[e.free_symbols for e in model if isinstance(e, sympy.Basic)] or [set()]), key=str)
            mode = ctx.ri(0, 3)
            if mode == 0 and len(present) > 1:
                perm = present[1:] + present[:1]
                m = dict(zip(present, perm))
            elif mode == 1 and present:
                keep = ctx.rng.sample(present, ctx.ri(0, len(present)))
                m = {s: ctx.pick([0.0, 0.1, -0.2, 0.05, 3.0]) for s in keep}
            elif present:
                # bind everything so that the norm comes out right, if a single plain entry allows it
                m = {s: ctx.pick([0.0, 0.05, 0.1]) for s in present}
                plain = [e for e in model if isinstance(e, sympy.Symbol) and sum(1 for f in model if isinstance(f, sympy.Basic) and e in f.free_symbols) == 1]
                if plain:
                    s = plain[0]
                    rest = sum(abs(ref.num(f, m)) ** 2 for f in model if f is not s)
                    if rest <= 1:
                        m[s] = math.sqrt(1 - rest) * ctx.pick([1, -1])
            else:
                m = {ctx.pick(syms): 0.3}
            extra = dict(m)
            if ctx.chance(0.3):
                extra[sympy.Symbol("unused")] = 2.0
            new = [e.xreplace({s: sympy.sympify(x) for s, x in m.items()}) if isinstance(e, sympy.Basic) else e for e in model]
            new = [e if not is_num(e) else complex(ref.num(e)) for e in new]
            v = verdict(new)
            trace.append(f"bind {m}")
            if v == "gray":
                trace.pop()
                continue
            arg = {str(s): x for s, x in extra.items()} if ctx.chance(0.3) and mode else extra
            try:
                bound = wf.bind(arg)
                ok = True
            except ValueError:
                ok = False
            if ok:
                ctx.check(v == "ok", "violating binding rejected", lambda: trace)
                ctx.event("binding")
                observe(ctx, bound, new, lambda: trace)
                observe(ctx, wf, model, lambda: trace + ["original after bind"])
                if bound is not wf:
                    others.append((wf, list(model)))
                wf, model = bound, new
                array_like = array_like or (bool(present) and all(is_num(e) for e in new))
            else:
                ctx.check(v == "bad", "valid binding accepted", lambda: trace)
                ctx.event("rejected binding")
                observe(ctx, wf, model, lambda: trace + ["after rejected bind"])
    for o, m in others:
        observe(ctx, o, m, "earlier object unchanged by later history")
    ctx.case(trace, trivial=len(trace) < 2)
    ctx.sample(trace)


@CHECK.scenario(quick=60, thorough=400, needs=("dicke state", "zero state", "invalid request rejected"))
def named(ctx):
    from zquantum.core.wavefunction import Wavefunction

    n = ctx.ri(1, 9)
    k = ctx.ri(0, n)
    if ctx.chance(0.2):
        n = ctx.pick([10, 11, 12, 13, 14, 16, 17, 18])
        k = ctx.pick([0, 1, 2, n // 2, n // 2, n - 1, n])
        ctx.case((n, k))
        v = Wavefunction.dicke_state(n, k).amplitudes
        want = np.array([1 / math.sqrt(math.comb(n, k)) if bin(i).count("1") == k else 0 for i in range(2**n)])
        ctx.close(v, want, "dicke state of a large register", detail=(n, k))
        ctx.close(Wavefunction.zero_state(n).amplitudes, np.eye(1, 2**n)[0], "zero state")
        return
    ctx.case((n, k))
    z = Wavefunction.zero_state(n)
    ctx.event("zero state")
    with warnings.catch_warnings(record=True) as ws:
        warnings.simplefilter("always")
        ctx.check(Wavefunction.zero_state(n + ctx.pick([0.0, 0.5])) == z, "zero state of a rounded size", n)
    ctx.check(len(ws) == 1, "rounded size warned about", n)
    observe(ctx, z, [1] + [0] * (2**n - 1), n)
    d = Wavefunction.dicke_state(n, k)
    ctx.event("dicke state")
    a = 1 / math.sqrt(math.comb(n, k))
    observe(ctx, d, [a if bin(i).count("1") == k else 0 for i in range(2**n)], (n, k))
    independent(ctx, "zero states", lambda: Wavefunction.zero_state(n))
    independent(ctx, "dicke states", lambda: Wavefunction.dicke_state(n, k))
    bad = [
        lambda: Wavefunction.zero_state(0), lambda: Wavefunction.zero_state(-n),
        lambda: Wavefunction.dicke_state(n, n + ctx.ri(1, 3)), lambda: Wavefunction.dicke_state(n, -1),
        lambda: Wavefunction.dicke_state(n, 0.5), lambda: Wavefunction.dicke_state(0, 0),
    ]
    for f in bad:
        ctx.raises(ValueError, f, "invalid request rejected", (n, k))


@CHECK.scenario(quick=150, thorough=3000, needs=("flipped amplitudes", "loaded wavefunction", "sample order"))
def flip_save_sample(ctx):
    from zquantum.core.measurement import load_wavefunction, sample_from_wavefunction, save_wavefunction
    from zquantum.core.wavefunction import Wavefunction, flip_amplitudes, flip_wavefunction

    n = ctx.ri(1, 6)
    v = unit(ctx, n)
    ctx.case(np.round(v, 6).tolist())
    wf = Wavefunction(v)
    rev = [int(format(i, f"0{n}b")[::-1], 2) for i in range(2**n)]
    f = flip_wavefunction(wf)
    ctx.event("flipped amplitudes")
    observe(ctx, f, [v[rev[i]] for i in range(2**n)], n)
    observe(ctx, flip_wavefunction(f), list(v), "flipped twice")
    observe(ctx, wf, list(v), "original after flip")
    if n > 1:
        independent(ctx, "flipped wavefunctions", lambda: flip_wavefunction(wf), wf)
    independent(ctx, "probabilities", wf.get_probabilities, wf)
    independent(ctx, "outcome probabilities", wf.get_outcome_probs, wf)
    lst = [object() for _ in range(2**n)]
    ctx.check(all(x is lst[r] for x, r in zip(flip_amplitudes(lst), rev)), "flip of any sequence")
    p = ctx.used_path()
    save_wavefunction(wf, p)
    if ctx.chance(0.5):
        l = load_wavefunction(p)
    else:
        with open(p) as fh:
            l = load_wavefunction(fh)
    ctx.event("loaded wavefunction")
    observe(ctx, l, list(v), "loaded")
    independent(ctx, "loaded wavefunctions", lambda: load_wavefunction(p), wf)
    rewritten(ctx, "wavefunction files", save_wavefunction, load_wavefunction, [wf, f, wf])
    ctx.check(np.array_equal(l.amplitudes, v), "loaded exactly")
    observe(ctx, wf, list(v), "original after save")
    shots = ctx.pick([1, 2, 50])
    s = sample_from_wavefunction(wf, shots, ctx.pick([None, 0, 7]))
    ctx.equal(len(s), shots, "sample count")
    ctx.event("sample order")
    for t in s:
        ctx.check(isinstance(t, tuple) and len(t) == n and set(t) <= {0, 1}, "sample is a bit tuple")
        ctx.check(abs(v[int("".join(map(str, t)), 2)]) ** 2 > 1e-18, "sampled outcome has non-zero probability, qubit 0 first", (t, np.round(v, 5).tolist()))
    # deterministic ordering: a basis state
    i = ctx.ri(0, 2**n - 1)
    b = np.zeros(2**n, dtype=complex)
    b[i] = ctx.pick([1, -1, 1j])
    bits = tuple(int(c) for c in format(i, f"0{n}b"))
    ctx.equal(set(sample_from_wavefunction(Wavefunction(b), 3, None)), {bits}, "basis state samples")
    for bad in (0, -1):
        ctx.raises(ValueError, lambda: sample_from_wavefunction(wf, bad), "no samples rejected")
    q = sample_from_wavefunction(wf, 20, 5)
    ctx.equal(q, sample_from_wavefunction(wf, 20, 5), "seeded samples reproducible")
