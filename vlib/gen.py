"""Hostile random workloads shared by the checks (all randomness from the case's PRNG)."""
import math

import numpy as np
import sympy

from . import ref

NAMES = ["theta", "theta_0", "theta_1", "theta_10", "theta_2", "alpha", "beta", "gamma",
         "x", "y", "zeta", "p[0]", "p[3]", "phi_12", "A", "b7"]
RESERVED = ["beta", "gamma", "zeta", "S", "I", "N", "E", "Q", "O", "C", "pi", "sin", "re", "im", "Symbol", "lambda_1", "test", "Circuit"]
ANGLES = [0.0, math.pi, -math.pi, math.pi / 2, -math.pi / 2, math.pi / 4, 2 * math.pi, 4 * math.pi,
          1e-3, -1e-3, 1e-7, 7.5, -13.25, 0.5, 1.0, 3, -2, 0, 1, 100.125]
ONE_Q = [g for g, v in ref.GATES.items() if v[1] == 1]
TWO_Q = [g for g, v in ref.GATES.items() if v[1] == 2]
PARAMETRIC = [g for g, v in ref.GATES.items() if v[0]]


def angle(ctx):
    r = ctx.rng.random()
    if r < 0.3:
        return ctx.pick(ANGLES)
    if r < 0.35:
        return np.float64(ctx.rng.uniform(-10, 10))
    if r < 0.4:
        return sympy.pi * sympy.Rational(ctx.ri(-7, 7), ctx.ri(1, 8))
    return ctx.rng.uniform(-2 * math.pi, 2 * math.pi)


def symbols(ctx, n, pool=None):
    pool = list(pool or NAMES)
    ctx.rng.shuffle(pool)
    return [sympy.Symbol(s) for s in pool[:n]]


def expr(ctx, syms, depth=2):
    """A real-valued (for real symbols) expression in syms, defined everywhere."""
    r = ctx.rng.random()
    if depth == 0 or r < 0.35:
        return ctx.pick(syms)
    a = expr(ctx, syms, depth - 1)
    k = ctx.ri(0, 7)
    if k == 0:
        return a + expr(ctx, syms, depth - 1)
    if k == 1:
        return a * expr(ctx, syms, depth - 1)
    if k == 2:
        return a * ctx.pick([2, -1, 0.5, -0.75, sympy.Rational(1, 3), sympy.pi / 2, 1.1])
    if k == 3:
        return a + ctx.pick([1, -2, 0.25, sympy.pi, sympy.Rational(2, 7), -0.3])
    if k == 4:
        return a - expr(ctx, syms, depth - 1)
    if k == 5:
        return sympy.cos(a)
    if k == 6:
        return -a / ctx.pick([2, 3, 4.0, sympy.pi])
    return a**2 / 3


def env(ctx, syms):
    return {s: ctx.rng.uniform(-3, 3) if ctx.chance(0.85) else float(ctx.pick([0.0, 1.0, -1.0, 0.5])) for s in syms}


def param(ctx, syms, p_sym):
    if syms and ctx.chance(p_sym):
        return expr(ctx, syms, ctx.ri(0, 2))
    return angle(ctx)


_cnt = [0]


def custom_def(ctx, nq=None, nsyms=None, name=None):
    """A random (unitary) custom gate definition."""
    nq = nq or (1 if ctx.chance(0.6) else 2)
    kind = ctx.ri(0, 2) if nsyms is None else (0 if nsyms == 0 else ctx.ri(1, 2))
    name = name or ctx.pick(["custom_a", "U_x", "MyGate", "g1", "zz_top", "U4", "Ω", "with space", "X2", "CustomGate"]) + str(ctx.ri(0, 99))
    if kind == 0:
        if ctx.chance(0.5):
            u = ref.random_unitary(ctx.np, 2**nq)
            m = sympy.Matrix(u.tolist())
        else:
            perm = list(range(2**nq))
            ctx.rng.shuffle(perm)
            ph = [ctx.pick([1, -1, sympy.I, -sympy.I, sympy.exp(sympy.I * sympy.pi / 8)]) for _ in perm]
            m = sympy.zeros(2**nq, 2**nq)
            for i, j in enumerate(perm):
                m[i, j] = ph[i]
        return ref.CustomDef(name, nq, (), m)
    n = nsyms or ctx.ri(1, 3)
    syms = symbols(ctx, n, ["a", "b", "c", "gamma", "beta", "theta", "t_2", "t_10", "q"])
    d = 2**nq
    # a chain of elementary rotations in random planes, each by a (coefficient*symbol)
    m = sympy.eye(d)
    for s in syms:
        i, j = sorted(ctx.rng.sample(range(d), 2))
        k = ctx.pick([1, 2, -1, sympy.Rational(1, 2), 0.5])
        g = sympy.eye(d)
        if ctx.chance(0.5):
            g[i, i] = g[j, j] = sympy.cos(k * s)
            g[i, j], g[j, i] = -sympy.sin(k * s), sympy.sin(k * s)
        else:
            g[i, i], g[j, j] = sympy.exp(sympy.I * k * s), sympy.exp(-3 * sympy.I * s)
        m = m * g
    return ref.CustomDef(name, nq, syms, m)


def base_spec(ctx, max_q, syms=(), p_sym=0.0, customs=(), gates=None, p_custom=0.12):
    if customs and ctx.chance(p_custom):
        c = [d for d in customs if d.nq <= max_q]
        if c:
            d = ctx.pick(c)
            return ("c", d, tuple(param(ctx, syms, p_sym) for _ in d.symbols))
    pool = gates or (ONE_Q if max_q == 1 or ctx.chance(0.55) else TWO_Q)
    pool = [g for g in pool if ref.GATES[g][1] <= max_q]
    if p_sym and ctx.chance(0.5):
        pool = [g for g in pool if ref.GATES[g][0]] or pool
    g = ctx.pick(pool)
    if g == "U3" and ctx.chance(0.5):
        g = ctx.pick(pool)
    return ("b", g, tuple(param(ctx, syms, p_sym) for _ in range(ref.GATES[g][0])))


def spec(ctx, max_q, syms=(), p_sym=0.0, customs=(), p_mod=0.25, gates=None, p_custom=0.12):
    """A random gate specification on at most max_q qubits."""
    s = base_spec(ctx, max_q, syms, p_sym, customs, gates, p_custom)
    while ctx.chance(p_mod):
        room = max_q - ref.spec_qubits(s)
        if room > 0 and ctx.chance(0.6):
            s = ("ctrl", ctx.ri(1, room), s)
        else:
            s = ("dag", s)
    return s


def related(ctx, s, max_q, gates=None, p_mod=0.25, **_):
    """A specification resembling another one: same parameters in another gate, another nesting, or just the same."""
    k = ctx.ri(0, 4)
    if k == 0:
        return s
    if k == 1 and p_mod:  # another modifier around it
        room = max_q - ref.spec_qubits(s)
        return ("ctrl", ctx.ri(1, room), s) if room > 0 and ctx.chance(0.6) else ("dag", s)
    if k == 2 and s[0] in ("ctrl", "dag"):  # one modifier less
        return s[-1]
    params = ref.spec_params(s)
    if k == 3 and len(params) > 1:  # same parameters in another order
        return ref.spec_with_params(s, ctx.rng.sample(list(params), len(params)))

    def other(t):
        if t[0] == "ctrl":
            return ("ctrl", t[1], other(t[2]))
        if t[0] == "dag":
            return ("dag", other(t[1]))
        pool = [g for g in (gates or ref.GATES) if ref.GATES[g][0] == len(params) and ref.GATES[g][1] <= ref.spec_qubits(t)]
        return ("b", ctx.pick(sorted(pool)), tuple(params)) if pool else t

    return other(s)


def ops(ctx, n, count, max_arity=3, **kw):
    out = []
    for _ in range(count):
        if out and ctx.chance(0.3):
            s = related(ctx, ctx.pick(out)[0], min(n, max_arity), **kw)
        else:
            s = spec(ctx, min(n, max_arity), **kw)
        q = ctx.rng.sample(range(n), ref.spec_qubits(s))
        out.append((s, tuple(q)))
    return out


# ---- building the same things with the real library
def build_custom(d):
    from zquantum.core.circuits import CustomGateDefinition

    return CustomGateDefinition(d.name, sympy.Matrix(d.matrix), tuple(d.symbols))


def build_gate(s, defs=None, by_method=True):
    from zquantum.core import circuits as C

    if s[0] == "b":
        g = C.builtin_gate_by_name(s[1])
        return g(*s[2]) if ref.GATES[s[1]][0] else g
    if s[0] == "c":
        d = (defs or {}).get(id(s[1])) or build_custom(s[1])
        return d(*s[2])
    if s[0] == "ctrl":
        g = build_gate(s[2], defs, by_method)
        return g.controlled(s[1]) if by_method else C.ControlledGate(g, s[1])
    g = build_gate(s[1], defs, by_method)
    return g.dagger if by_method else C.Dagger(g)


def build_circuit(op_list, n=None, by_method=True):
    from zquantum.core.circuits import Circuit

    return Circuit([build_gate(s, None, by_method)(*q) for s, q in op_list], n_qubits=n)


def retyped(ctx, c, p=0.1, reals=(np.float64,)):
    """Sometimes the same circuit, with its register size, qubits and parameters of the types that numpy's arrays hold
    (or an integral float as register size)."""
    from zquantum.core.circuits import Circuit

    if not ctx.chance(p):
        return c
    ctx.event("numpy numbers")
    kind, real = ctx.pick([np.int64, np.int32, np.uint8]), ctx.pick(list(reals))
    out = []
    for o in c.operations:
        if hasattr(o, "gate"):
            if o.params and ctx.chance(0.7):
                o = o.replace_params(tuple(real(x) if isinstance(x, float) else kind(x) if type(x) is int and 0 <= x < 100 else x for x in o.params))
            o = o.gate(*[kind(q) for q in o.qubit_indices])
        out.append(o)
    return Circuit(out, n_qubits=ctx.pick([kind, kind, float, np.float64])(c.n_qubits) if c.n_qubits else None)


def show(op_list):
    return "; ".join(f"{show_spec(s)}@{q}" for s, q in op_list)


def show_spec(s):
    if s[0] == "b":
        return f"{s[1]}({','.join(map(str, s[2]))})"
    if s[0] == "c":
        return f"{s[1].name}({','.join(map(str, s[2]))})"
    if s[0] == "ctrl":
        return f"C{s[1]}[{show_spec(s[2])}]"
    return f"dag[{show_spec(s[1])}]"


# ---- operators
def coeff(ctx, real=False, special=True):
    if special and ctx.chance(0.25):
        c = ctx.pick([1.0, -1.0, 0.5, 2, -3, 1e-3, 0.25, 7])
        return c if real or ctx.chance(0.7) else c * 1j
    if real:
        return ctx.rng.uniform(-2, 2)
    return complex(ctx.rng.uniform(-2, 2), ctx.rng.uniform(-2, 2))


def pauli_terms(ctx, n, count, real=True, letters="XYZ", const=0.3, max_w=None):
    """dict term -> coefficient, distinct terms in random order."""
    out = {}
    for _ in range(count):
        if ctx.chance(const / max(1, count)):
            t = ()
        else:
            w = ctx.ri(1, min(n, max_w or n))
            qs = sorted(ctx.rng.sample(range(n), w))
            t = tuple((q, ctx.pick(letters)) for q in qs)
        out[t] = coeff(ctx, real)
    return out


def qubit_operator(terms):
    from zquantum.core.openfermion import QubitOperator

    op = QubitOperator()
    for t, c in terms.items():
        op += QubitOperator(t, c)
    return op


def ising_operator(terms):
    from zquantum.core.openfermion import IsingOperator

    op = IsingOperator()
    for t, c in terms.items():
        op += IsingOperator(t, c)
    return op


def fermion_operator(terms):
    from zquantum.core.openfermion import FermionOperator

    op = FermionOperator()
    for t, c in terms.items():
        op += FermionOperator(t, c)
    return op


def fermion_terms(ctx, n, count, real=False, max_len=4):
    out = {}
    for _ in range(count):
        L = ctx.ri(0, max_len)
        t = tuple((ctx.ri(0, n - 1), ctx.ri(0, 1)) for _ in range(L))
        out[t] = coeff(ctx, real)
    return out


def hermitian_tensors(ctx, n, sparse=False):
    """A random Hermitian interaction operator; symmetry classes of chemistry and none at all."""
    z = ctx.np.normal
    cplx = ctx.chance(0.6)
    h = z(size=(n, n)) + (1j * z(size=(n, n)) if cplx else 0)
    g = z(size=(n,) * 4) + (1j * z(size=(n,) * 4) if cplx else 0)
    if sparse or ctx.chance(0.4):
        h = h * (ctx.np.random((n, n)) < 0.3)
        g = g * (ctx.np.random((n,) * 4) < ctx.pick([0.02, 0.1, 0.3]))
    if cplx and ctx.chance(0.4):
        # Some integrals are purely real and some purely imaginary.
        pick = ctx.np.integers(0, 3, size=h.shape)
        h = np.where(pick == 0, h.real, np.where(pick == 1, 1j * h.imag, h))
        pick = ctx.np.integers(0, 3, size=g.shape)
        g = np.where(pick == 0, g.real, np.where(pick == 1, 1j * g.imag, g))
    h = h + h.conj().T
    g = g + g.conj().transpose(3, 2, 1, 0)
    style = ctx.ri(0, 3)
    if style == 1:
        g = g + g.transpose(1, 0, 3, 2)
    elif style == 2:
        g = g - g.transpose(1, 0, 2, 3)
        g = g - g.transpose(0, 1, 3, 2)
    elif style == 3 and not cplx:
        h, g = np.round(2 * h), np.round(2 * g)
    return ctx.pick([0.0, 1.5, -2, 0.25]), h, g
