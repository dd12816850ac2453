"""Operator algebra: histories of arithmetic against the matrices represented, equality, text, compression."""
import copy
import warnings

import numpy as np
import sympy

from vlib import gen, ref
from vlib.alias import independent
from vlib.harness import Check

CHECK = Check(
    "C19",
    "a case is one history of operations over a pool of operators (kind, coefficients, operands), or one group of "
    "operators compared, printed, parsed or compressed; pools of constants only are trivial",
    ["at most 4 qubits or 3 fermionic modes; symbolic coefficients are compared at random (also complex) values; coefficients "
     "stay away from the documented tolerance 1e-8 except where the tolerance itself is monitored"],
)

A, B = sympy.Symbol("a"), sympy.Symbol("b")


def kind(ctx, kinds=("QubitOperator", "FermionOperator", "IsingOperator")):
    import zquantum.core.openfermion as of

    name = ctx.pick(kinds)
    return name, getattr(of, name), {"QubitOperator": 3, "FermionOperator": 3, "IsingOperator": 4}[name]


def number(ctx, symbolic=False):
    k = ctx.ri(0, 9)
    if symbolic and k < 4:
        return ctx.pick([A, B, A + 1, 2 * B, A * B, -A / 2, A - 0.5 * B, sympy.I * A])
    if k < 4:
        return ctx.rng.uniform(0.2, 2) * ctx.pick([1, -1])
    if k == 4:
        return complex(ctx.rng.uniform(-2, 2), ctx.rng.uniform(0.2, 2))
    if k == 5:
        return np.float64(ctx.rng.uniform(0.2, 2))
    if k == 6:
        return np.complex128(ctx.rng.uniform(0.2, 2) * 1j + 0.5)
    return ctx.pick([1, -1, 2, 1.0, -1.0, 0.5, 1j, -1j, -3])


def raw_term(ctx, name, n, longest=4):
    """A product of factors, repeated and in any order."""
    L = ctx.ri(0, longest)
    if name == "FermionOperator":
        return tuple((ctx.ri(0, n - 1), ctx.ri(0, 1)) for _ in range(L))
    return tuple((ctx.ri(0, n - 1), ctx.pick("XYZ") if name == "QubitOperator" else "Z") for _ in range(L))


def text_of(name, t, ctx=None):
    gap = (lambda: ctx.pick([" ", "  ", "\n"])) if ctx else (lambda: " ")
    fs = [f"{i}{'^' if a else ''}" if name == "FermionOperator" else f"{a}{i}" for i, a in t]
    out = ""
    for k, f in enumerate(fs):
        out += (gap() if k else "") + f
    return out


def raw_matrix(name, raw, n, env=None):
    """Sum over a list of (product of factors, coefficient); factors multiplied as they stand."""
    out = np.zeros((2**n, 2**n), dtype=complex)
    for t, c in raw:
        m = np.eye(2**n, dtype=complex)
        for i, a in t:
            m = m @ (ref.ladder(n, i, a) if name == "FermionOperator" else ref.pauli_term_matrix([(i, a)], n))
        out += ref.num(c, env) * m
    return out


def mat(name, op, n, env=None):
    return raw_matrix(name, list(op.terms.items()), n, env)


def build(ctx, name, cls, raw):
    """An operator from raw terms, through one of the constructors."""
    op = cls()
    for t, c in raw:
        how = ctx.ri(0, 4)
        if how == 0:
            x = cls(text_of(name, t, ctx), c)
        elif how == 1:
            x = cls([tuple(f) for f in t], c)
        elif how == 2:
            x = cls(f"[{text_of(name, t)}]", c)
        elif how == 3 and len(t) == 1:
            x = cls(t[0], c)
        else:
            x = cls(tuple(t), c)
        if ctx.chance(0.5):
            op += x
        else:
            op = op + x
    return op


def values(ctx):
    if ctx.chance(0.3):
        return {s: complex(ctx.rng.uniform(-2, 2), ctx.rng.uniform(-1, 1)) for s in (A, B)}
    return {s: ctx.rng.uniform(-2, 2) for s in (A, B)}


def snapshot(op):
    return [(t, c, type(c)) for t, c in op.terms.items()]


def size(op):
    return sum(abs(complex(ref.num(c, {A: 1.3, B: -0.7}))) for c in op.terms.values())


@CHECK.scenario(quick=700, thorough=15000, needs=("result represents the same operation on matrices", "operands untouched", "aliased operands"))
def history(ctx):
    from zquantum.core.openfermion import anticommutator, commutator, hermitian_conjugated

    name, cls, n = kind(ctx)
    symbolic = ctx.chance(0.12)
    env = values(ctx) if symbolic else None
    pool = []
    raws = []
    for _ in range(ctx.ri(1, 3)):
        raw = [(raw_term(ctx, name, n), number(ctx, symbolic)) for _ in range(ctx.ri(0, 3))]
        raws.append(raw)
        op = build(ctx, name, cls, raw)
        m = raw_matrix(name, raw, n, env)
        ctx.close(mat(name, op, n, env), m, "construction represents its terms", detail=lambda: (name, raw, op))
        pool.append([op, m])
    log = [f"{name}({r})" for r in raws]
    ctx.case((name, repr(raws), ctx.idx), trivial=all(not t for r in raws for t, _ in r))
    ctx.sample((name, raws))
    for _ in range(ctx.ri(2, 4 if symbolic else 9)):
        i, j = ctx.ri(0, len(pool) - 1), ctx.ri(0, len(pool) - 1)
        (a, ma), (b, mb) = pool[i], pool[j]
        if i == j:
            ctx.event("aliased operands")
        before = [snapshot(x) for x, _ in pool]
        k = ctx.pick(
            ["+", "-", "*", "s*", "*s", "/s", "**", "neg", "+=", "-=", "*=", "*=s", "/=s", "s+", "+s", "s-", "-s", "+=s",
             "-=s", "dag", "comm", "anti", "sum", "acc", "iter", "groups", "copy"]
        )
        s = number(ctx, symbolic)
        if "/" in k and s == 0:
            s = 2
        v = ref.num(s, env)
        eye = np.eye(2**n)
        if "*" in k and k in ("*", "*=") and len(a.terms) * len(b.terms) > 40:
            k = "+"
        if k in ("comm", "anti") and len(a.terms) * len(b.terms) > 25:
            k = "-"
        log.append((k, i, j, s))
        inplace, res, m = None, None, None
        if k == "+":
            res, m = a + b, ma + mb
        elif k == "-":
            res, m = a - b, ma - mb
        elif k == "*":
            res, m = a * b, ma @ mb
        elif k == "s*":
            res, m = s * a, v * ma
        elif k == "*s":
            res, m = a * s, v * ma
        elif k == "/s":
            res, m = a / s, ma / v
        elif k == "**":
            p = ctx.ri(0, 3) if len(a.terms) <= 4 else ctx.ri(0, 1)
            log.append(p)
            res, m = a**p, np.linalg.matrix_power(ma, p)
        elif k == "neg":
            res, m = -a, -ma
        elif k in ("+=", "-=", "*=", "*=s", "/=s", "+=s", "-=s"):
            inplace = i
            x = a
            if k == "+=":
                x += b
                m = ma + mb
            elif k == "-=":
                x -= b
                m = ma - mb
            elif k == "*=":
                x *= b
                m = ma @ mb
            elif k == "*=s":
                x *= s
                m = ma * v
            elif k == "/=s":
                x /= s
                m = ma / v
            elif k == "+=s":
                x += s
                m = ma + v * eye
            else:
                x -= s
                m = ma - v * eye
            ctx.check(x is a, "in-place arithmetic keeps the object", log)
            res = x
        elif k == "s+":
            res, m = s + a, ma + v * eye
        elif k == "+s":
            res, m = a + s, ma + v * eye
        elif k == "s-":
            res, m = s - a, v * eye - ma
        elif k == "-s":
            res, m = a - s, ma - v * eye
        elif k == "dag":
            if name == "IsingOperator":
                continue
            res, m = hermitian_conjugated(a), ma.conj().T
        elif k == "comm":
            res, m = commutator(a, b), ma @ mb - mb @ ma
        elif k == "anti":
            res, m = anticommutator(a, b), ma @ mb + mb @ ma
        elif k == "sum":
            res, m = sum([a, b, a]), 2 * ma + mb
        elif k == "acc":
            if ctx.chance(0.5):
                res, m = cls.accumulate([a, b], start=a), 2 * ma + mb
            else:
                res, m = cls.accumulate(x for x in (a, b)), ma + mb
        elif k == "iter":
            pairs = [(x, y) for x in a for y in a]
            ctx.check(len(pairs) == len(a.terms) ** 2, "iterations are independent", lambda: (log, len(pairs), a))
            ctx.check(all(type(x) is cls and len(x.terms) == 1 for x in a.get_operators()), "single-term operators", log)
            res, m = cls.accumulate(a), ma
        elif k == "groups":
            g = ctx.ri(1, 5) if ctx.chance(0.9) else ctx.pick([0, -2])
            if g > 0:
                groups = list(a.get_operator_groups(g))
            else:
                with warnings.catch_warnings(record=True):
                    warnings.simplefilter("always")
                    groups = list(a.get_operator_groups(g))
            ctx.check(len(groups) == min(max(g, 1), len(a.terms)), "requested number of groups", lambda: (log, g, groups))
            some = lambda x: [repr(t) for t, c in x.terms.items() if c != 0]
            ctx.equal(sorted(t for x in groups for t in some(x)), sorted(some(a)), "groups partition the terms")
            res, m = cls.accumulate(groups), ma
        else:
            res, m = copy.deepcopy(a), ma
        ctx.check(type(res) is cls, "result of the same kind", lambda: (log, type(res)))
        scale = 1e-6 * (1 + size(res) + np.abs(m).max(initial=0))
        got = mat(name, res, n, env)
        ctx.check(
            np.allclose(got, m, atol=scale, rtol=0), "result represents the same operation on matrices",
            lambda: (log, a, b, res, np.abs(got - m).max()),
        )
        for q, ((x, _), old) in enumerate(zip(pool, before)):
            if q != inplace:
                ctx.check(snapshot(x) == old, "operands untouched", lambda: (log, q, old, x))
        if inplace is not None:
            pool[inplace][1] = m
        elif len(pool) < 4:
            pool.append([res, m])
        else:
            pool[ctx.ri(0, 3)] = [res, m]
        for q, (x, _) in enumerate(pool):  # keep the numbers reasonable
            if size(x) > 300 or len(x.terms) > 24:
                pool[q] = [cls((), 1.0), np.eye(2**n, dtype=complex)]
    # other kinds are refused and change nothing
    import zquantum.core.openfermion as of

    other = getattr(of, ctx.pick([o for o in ("QubitOperator", "FermionOperator", "IsingOperator") if o != name]))()
    a = pool[0][0]
    old = snapshot(a)
    for f in (lambda: a + other, lambda: a * other, lambda: a - other, lambda: a / other, lambda: commutator(a, other), lambda: a * "x", lambda: "x" * a):
        ctx.raises(TypeError, f, "operands of another kind refused")
    ctx.raises(ValueError, lambda: a ** ctx.pick([-1, 1.5]), "such a power refused")
    ctx.check(snapshot(a) == old, "refused operations change nothing", (old, a))


@CHECK.scenario(quick=500, thorough=12000, needs=("equal operators equal", "different operators differ", "within the tolerance", "beyond the tolerance"))
def equality(ctx):
    name, cls, n = kind(ctx)
    terms = {}
    for _ in range(ctx.ri(1, 6)):
        raw = raw_term(ctx, name, n)
        for t in cls(raw, 1.0).terms:
            terms[t] = number(ctx) * ctx.pick([1, 1, 1, 50, 1e4, 1e6])
    items = list(terms.items())
    ctx.case((name, items), trivial=all(not t for t in terms))
    a = cls()
    for t, c in items:
        a.terms[t] = c
    ctx.rng.shuffle(items)
    b = cls()
    for t, c in items:
        b.terms[t] = complex(c) if ctx.chance(0.3) else c
    if ctx.chance(0.3):
        for x in (a, b):
            t = raw_term(ctx, name, n)
            for u in cls(t).terms:
                x.terms.setdefault(u, ctx.pick([0, 0.0, 1e-11, -1e-12j]))
    ctx.sample((a, b))
    ctx.check(a == b and b == a and not (a != b) and not (b != a), "equal operators equal", lambda: (a, b))
    ctx.check(a == copy.deepcopy(a), "equal operators equal", a)
    # one coefficient changed by a given fraction of the tolerance it is compared with
    c = copy.deepcopy(b)
    t = ctx.pick(list(terms))
    limit = 1e-8 * max(1, abs(terms[t]))
    inside = ctx.chance(0.5)
    delta = limit * (ctx.rng.uniform(0.05, 0.7) if inside else ctx.rng.uniform(1.5, 4)) * ctx.pick([1, -1, 1j])
    if terms[t] + delta == terms[t]:
        delta = limit * 1.0
    c.terms[t] = c.terms[t] + delta
    off = abs(c.terms[t] - terms[t])
    if off < 0.9 * limit:
        ctx.check(a == c and c == a, "within the tolerance", lambda: (a, c, t, delta))
    elif off > 1.3 * limit * (1 + 1e-7):
        ctx.check(a != c and c != a and not (a == c), "beyond the tolerance", lambda: (a, c, t, delta))
    # grossly different
    d = copy.deepcopy(b)
    how = ctx.ri(0, 2)
    if how == 0:
        d.terms[t] = d.terms[t] * ctx.pick([-1, 1.01, 0, 1j])
    elif how == 1:
        del d.terms[t]
    else:
        for u in cls(raw_term(ctx, name, n, 6)).terms:
            d.terms[u] = d.terms.get(u, 0) + ctx.pick([1, 0.25, 2 * abs(terms.get(u, 0)) + 1])
    ctx.check(a != d and d != a and not (a == d), "different operators differ", lambda: (a, d))
    import zquantum.core.openfermion as of

    o = ctx.pick([5, None, "x", getattr(of, ctx.pick([k for k in ("QubitOperator", "FermionOperator", "IsingOperator") if k != name]))()])
    ctx.check((a == o) is False and (a != o) is True, "other kinds are not equal", lambda: (a, o))
    ctx.raises(TypeError, lambda: hash(a), "operators are not hashable")


@CHECK.scenario(quick=120, thorough=2000, needs=("symbolic equality",))
def symbolic_equality(ctx):
    name, cls, n = kind(ctx)
    t = raw_term(ctx, name, n, 3)
    u = raw_term(ctx, name, n, 3)
    e = ctx.pick([A + B, A * B, A**2 + 1, (A + 1) * (B - 2), A - B, 2 * A + 0.5])
    ctx.case((name, t, u, str(e)))
    a = cls(t, e) + cls(u, 2.0)
    b = cls(u, 2.0) + cls(t, sympy.expand(e))
    ctx.check(a == b and b == a, "symbolic equality", lambda: (a, b))
    ctx.check(a == cls(t, e) + cls(u, 2.0), "symbolic equality", a)
    if cls(t).terms.keys() != cls(u).terms.keys():
        c = cls(t, e + ctx.pick([1, A, -0.25])) + cls(u, 2.0)
        ctx.check(a != c and c != a, "different symbolic operators differ", lambda: (a, c))
        ctx.check((a - cls(u, 2.0)) != cls(t, B * 7), "different symbolic operators differ", a)
    z = cls(t, e) - cls(t, e)
    ctx.check(z == cls() and not z.terms, "symbolic terms cancel", z)


def same(a, b):
    """Same terms; coefficients to 11 digits (PyPy prints complex numbers with 12)."""
    return a.terms.keys() == b.terms.keys() and all(abs(a.terms[t] - b.terms[t]) <= 1e-11 * abs(b.terms[t]) for t in b.terms)


def spelled(ctx, c):
    """Some text for a number, with the sign in front."""
    c = complex(c)
    if c.imag == 0:
        r = c.real
        s = ctx.pick([repr(abs(r)), f"{abs(r):.17g}", f"{abs(r):.17e}"])
        if abs(r) == 1 and ctx.chance(0.5):
            s = ""
        return ("-" if r < 0 else "+"), s
    if c.real == 0 and ctx.chance(0.5):
        return ("-" if c.imag < 0 else "+"), f"{abs(c.imag)!r}j"
    if ctx.chance(0.3):  # without brackets the sign belongs to the real part
        imag = f"{c.imag:+.17g}j"
        return ("-" if c.real < 0 or (c.real == 0 and str(c.real)[0] == "-") else "+"), f"{abs(c.real):.17g}{imag}"
    return ctx.pick([("+", f"({c.real!r}{c.imag:+.17g}j)"), ("-", f"({-c.real!r}{-c.imag:+.17g}j)"), ("+", repr(c)), ("-", repr(-c))])


@CHECK.scenario(quick=500, thorough=10000, needs=("text parsed as written", "printed text parses back"))
def text(ctx):
    name, cls, n = kind(ctx)
    raw = [(raw_term(ctx, name, n), complex(number(ctx))) for _ in range(ctx.ri(1, 5))]
    s = ""
    for k, (t, c) in enumerate(raw):
        sign, digits = spelled(ctx, c)
        if k == 0 and sign == "+":
            sign = ctx.pick(["", "+"])
        s += sign + ctx.pick(["", " "]) + digits + ctx.pick(["", " ", "\n"]) + "[" + text_of(name, t, ctx) + "]" + ctx.pick(["", " ", "\n"])
    factor = ctx.pick([1.0, 1, 2, -0.5, 1j])
    ctx.case((name, s, factor), trivial=all(not t for t, _ in raw))
    ctx.sample((name, s, factor))
    op = cls(s, factor) if factor != 1 or ctx.chance(0.5) else cls(s)
    m = factor * raw_matrix(name, raw, n)
    ctx.close(mat(name, op, n), m, "text parsed as written", detail=lambda: (name, s, factor, op))
    clean = cls()
    for t, c in op.terms.items():
        if abs(c) > 1e-6:
            clean.terms[t] = c
    if clean.terms:
        back = cls(str(clean))
        ctx.check(back == clean and same(back, clean), "printed text parses back", lambda: (str(clean), back))
        ctx.equal(repr(clean), str(clean), "one text form")
        big = cls()
        for t, c in clean.terms.items():
            big.terms[t] = c * ctx.pick([1e12, 1e-5, 1, 123456789.123456])
        ctx.check(same(cls(str(big)), big), "printed text parses back", lambda: (str(big), big.terms))
    ctx.equal(str(cls()), "0", "the zero operator prints as 0")
    tiny = cls(raw[0][0], 1e-10)
    ctx.equal(str(tiny), "0", "the zero operator prints as 0")
    bad = {"QubitOperator": ["W0", "X", "X-1", "0X", "X0Y1", "x0", "X0 Y"], "IsingOperator": ["X0", "Z", "Z-2", "Z0Z1"],
           "FermionOperator": ["X0", "-1^", "0^^", "^0", "0^1", "a"]}[name]
    w = ctx.pick(bad)
    ctx.raises(ValueError, lambda: cls(w), "malformed text refused")
    ctx.raises(ValueError, lambda: cls(f"1.5 [{w}]"), "malformed text refused")
    ctx.raises(ValueError, lambda: cls(f"1.5.2 [{text_of(name, raw[0][0])}]"), "malformed coefficient refused")
    wrong = ctx.pick([((0, 5),), ((-1, "Z"),), ((0.5, "Z"),), (("Z", 0),), ((0, "Z", 1),)])
    ctx.raises(ValueError, lambda: cls(wrong), "malformed term refused")
    ctx.raises(ValueError, lambda: cls(raw[0][0], ctx.pick(["1", None, [1]])), "malformed coefficient refused")


@CHECK.scenario(quick=400, thorough=10000, needs=("compression by its definition", "renormalised"))
def compression(ctx):
    import zquantum.core.openfermion as of

    name, cls, n = kind(ctx)
    op = cls()
    tol = ctx.pick([None, 1e-6, 0.5, 1.0, 0.0])
    lim = 1e-8 if tol is None else tol
    for _ in range(ctx.ri(1, 6)):
        for t in cls(raw_term(ctx, name, n)).terms:
            def part():
                k = ctx.ri(0, 4)
                if k == 0:
                    return 0.0
                if k == 1:
                    return ctx.pick([1, -1]) * lim * ctx.rng.uniform(0, 0.9)
                return ctx.pick([1, -1]) * (lim * 1.1 + ctx.rng.uniform(0.01, 3))
            c = ctx.pick([part(), complex(part(), part()), complex(part(), part())])
            if ctx.chance(0.15):
                c = ctx.pick([1, -2, 0, 3])
            if ctx.chance(0.1):
                c = sympy.Integer(3) * ctx.pick([1, -1]) + sympy.I * ctx.pick([0, 2, -2])
            op.terms[t] = c
    ctx.case((name, repr(snapshot(op)), tol), trivial=all(not t for t in op.terms))
    ctx.sample((name, snapshot(op), tol))
    expected = {}
    for t, c in op.terms.items():
        z = complex(c)
        z = complex(z.real if abs(z.real) > lim else 0.0, z.imag if abs(z.imag) > lim else 0.0)
        if abs(z) > lim:
            expected[t] = z
    old = snapshot(op)
    norm1, norm2 = sum(abs(complex(c)) for c in op.terms.values()), sum(abs(complex(c)) ** 2 for c in op.terms.values()) ** 0.5
    ctx.close(complex(op.induced_norm()), norm1, "induced norm")
    ctx.close(complex(op.induced_norm(2)), norm2, "induced norm")
    ctx.equal(op.many_body_order(), max([len(t) for t, c in op.terms.items() if abs(complex(c)) > 1e-8], default=0), "many-body order", op)
    ctx.equal(of.count_qubits(op), max([i + 1 for t in op.terms for i, _ in t], default=0), "number of qubits", op)
    ctx.close(complex(op.constant), complex(op.terms.get((), 0)), "constant term")
    if name != "IsingOperator":
        ctx.equal(of.is_identity(op), list(op.terms) == [()], "identity recognised", op)
        m = mat(name, op, n)
        gap = np.abs(m - m.conj().T).max()
        h = of.is_hermitian(op)
        if gap < 1e-12:
            ctx.check(h, "Hermitian operator recognised", op)
        elif gap > 1e-4:
            ctx.check(not h, "non-Hermitian operator recognised", lambda: (op, gap))
        sym = op + of.hermitian_conjugated(op)
        ctx.check(of.is_hermitian(sym), "Hermitian operator recognised", sym)
    if ctx.chance(0.3):
        other = copy.deepcopy(op)
        for t in list(other.terms)[::2]:
            del other.terms[t]
        independent(ctx, "queries", lambda: (op.induced_norm(), op.induced_norm(2), op.many_body_order(), of.count_qubits(op), op.constant), op)
        independent(ctx, "arithmetic", lambda: (op + other, op - other, 2 * op, op * other, op**2, -op, op / 2), op, other)
        independent(ctx, "comparison", lambda: (op == other, op == op * 1), op, other)
        independent(ctx, "text", lambda: (str(op), repr(op)), op)
        if name != "IsingOperator":
            independent(ctx, "queries", lambda: (of.is_identity(op), of.is_hermitian(op)), op)
            independent(ctx, "conjugates", lambda: of.hermitian_conjugated(op), op)
            independent(ctx, "commutators", lambda: (of.commutator(op, other), of.anticommutator(op, other)), op, other)
    ctx.check(snapshot(op) == old, "queries change nothing", (old, op))
    x = copy.deepcopy(op)
    x.compress() if tol is None else x.compress(tol)
    ctx.check(
        set(x.terms) == set(expected) and all(abs(complex(x.terms[t]) - expected[t]) < 1e-12 for t in expected),
        "compression by its definition", lambda: (old, tol, x.terms, expected),
    )
    ctx.check(snapshot(op) == old, "copies are independent", (old, op))
    if name == "QubitOperator" and not any(isinstance(c, sympy.Basic) for c in op.terms.values()):
        y = copy.deepcopy(op)
        if norm2 > 1e-6:
            y.renormalize()
            ctx.close([complex(y.terms[t]) for t in op.terms], [complex(c) / norm2 for c in op.terms.values()], "renormalised")
        elif norm2 < 1e-9:
            ctx.raises(ZeroDivisionError, y.renormalize, "zero cannot be renormalised")


@CHECK.scenario(quick=150, thorough=3000, needs=("double commutator",))
def double_commutators(ctx):
    from zquantum.core.openfermion import FermionOperator, anticommutator, commutator, double_commutator

    n = 4
    if ctx.chance(0.5):
        def hop():
            p, q = ctx.rng.sample(range(n), 2)
            c = number(ctx)
            return FermionOperator(((p, 1), (q, 0)), c) + FermionOperator(((q, 1), (p, 0)), c), {p, q}
        (o2, i2), (o3, i3) = hop(), hop()
        k = ctx.ri(0, 1)
        o1 = gen.fermion_operator(gen.fermion_terms(ctx, n, ctx.ri(1, 3)))
        ctx.case((repr(o1), repr(o2), repr(o3)))
        kept = (set(i2), set(i3))
        got = double_commutator(o1, o2, o3, i2, i3, True, True)
        ctx.equal((i2, i3), kept, "index sets left alone")
    else:
        o1, o2, o3 = (gen.fermion_operator(gen.fermion_terms(ctx, n, ctx.ri(1, 2), max_len=3)) for _ in range(3))
        ctx.case((repr(o1), repr(o2), repr(o3)))
        got = double_commutator(o1, o2, o3)
    ctx.sample((o1, o2, o3))
    f = lambda o: mat("FermionOperator", o, n)
    a, b, c = f(o1), f(o2), f(o3)
    d = b @ c - c @ b
    ctx.close(f(got), a @ d - d @ a, "double commutator", atol=1e-6, detail=lambda: (o1, o2, o3, got))
    x, y = ctx.np.normal(size=(4, 4)), ctx.np.normal(size=(4, 4)) + 1j
    kx, ky = x.copy(), y.copy()
    x2 = x.astype(complex)
    ctx.close(commutator(x2, y), x @ y - y @ x, "commutator of arrays")
    ctx.close(anticommutator(x2, y), x @ y + y @ x, "anticommutator of arrays")
    ctx.check((x2 == kx).all() and (y == ky).all(), "arrays untouched")
    for f2 in (commutator, anticommutator):
        wrong = ctx.pick([(o1, x2), (x2, o1), (o1, 2.0), (x2, [[1]])])
        ctx.raises(TypeError, lambda: f2(*wrong), "different kinds refused")


# ---------------------------------------------------------------- sizes
PAULI = {("X", "Y"): (1j, "Z"), ("Y", "Z"): (1j, "X"), ("Z", "X"): (1j, "Y"), ("Y", "X"): (-1j, "Z"), ("Z", "Y"): (-1j, "X"), ("X", "Z"): (-1j, "Y")}


def multiply(s, t, name):
    if name == "FermionOperator":
        return 1, s + t
    out, c = dict(s), 1
    for q, p in t:
        o = out.pop(q, None)
        if o is None:
            out[q] = p
        elif o != p:
            f, out[q] = PAULI[o, p]
            c *= f
    return c, tuple(sorted(out.items()))


def expand(a, b, name):
    out = {}
    for s, x in a.items():
        for t, y in b.items():
            c, u = multiply(s, t, name)
            out[u] = out.get(u, 0) + c * x * y
    return out


@CHECK.scenario(quick=30, thorough=500, needs=("large product", "large sum", "power"))
def large(ctx):
    """Operators of many terms on many qubits, and high powers, against dictionary arithmetic."""
    name, cls, _ = kind(ctx)
    n = ctx.pick([12, 40, 70, 150])

    def some(k, longest):
        d = {}
        for _ in range(k):
            if name == "FermionOperator":
                t = tuple((ctx.ri(0, n - 1), ctx.ri(0, 1)) for _ in range(ctx.ri(0, longest)))
            else:
                t = tuple((q, ctx.pick("XYZ") if name == "QubitOperator" else "Z") for q in sorted(ctx.rng.sample(range(n), ctx.ri(0, min(n, longest)))))
            d[t] = ctx.rng.uniform(0.2, 2) * ctx.pick([1, -1])
        op = cls()
        for t, c in d.items():
            if ctx.chance(0.5):
                op += cls(t, c)
            else:
                op.terms[t] = c
        return op, d

    def same(op, d, what):
        keys = {t for t, c in d.items() if abs(c) > 1e-7}
        ctx.check(keys <= set(op.terms) and all(abs(d.get(t, 0)) < 1e-6 for t in set(op.terms) - keys), what + ": terms", lambda: (name, n, len(keys), len(op.terms)))
        ctx.check(all(abs(op.terms[t] - d[t]) < 1e-7 * (1 + abs(d[t])) for t in keys), what, lambda: (name, n))

    a, da = some(ctx.ri(30, 90), ctx.pick([3, 8, n]))
    b, db = some(ctx.ri(10, 60), ctx.pick([3, 8, n]))
    ctx.case((name, n, repr(da)[:500], ctx.idx))
    same(a, da, "large operator")
    want = expand(da, db, name)
    same(a * b, want, "large product")
    p = +1 * a
    p *= b
    same(p, want, "large product")
    tot = dict(da)
    for t, c in db.items():
        tot[t] = tot.get(t, 0) + c
    same(a + b, tot, "large sum")
    same(cls.accumulate([a, b]), tot, "large sum")
    same(a - b, {t: da.get(t, 0) - db.get(t, 0) for t in {**da, **db}}, "large sum")
    if name != "IsingOperator":
        from zquantum.core.openfermion import count_qubits, hermitian_conjugated, is_hermitian

        # real coefficients: the adjoint reverses fermionic products and keeps Pauli products
        flip = {tuple((i, 1 - x) for i, x in reversed(t)) if name == "FermionOperator" else t: c for t, c in da.items()}
        same(hermitian_conjugated(a), flip, "large adjoint")
        same(hermitian_conjugated(hermitian_conjugated(1j * a)) * -1j, da, "large adjoint")
        both = a + hermitian_conjugated(a)
        ctx.check(is_hermitian(both), "large operator recognised as Hermitian", lambda: both)
        late = max(t for t in both.terms if t) if any(both.terms) else None
        if late and name == "QubitOperator":
            ctx.check(not is_hermitian(both + cls(late, 0.5j)), "large operator recognised as not Hermitian", lambda: (both, late))
        ctx.equal(count_qubits(a), max((i + 1 for t in da for i, _ in t), default=0), "qubits of a large operator")
    parts = list(a)
    ctx.equal([list(x.terms.items()) for x in parts], [[kv] for kv in a.terms.items()], "terms one by one")
    same(sum(parts[1:], parts[0]), da, "large sum")
    same(a, da, "operands untouched")
    same(b, db, "operands untouched")
    e = ctx.ri(5, 21) if name != "FermionOperator" else ctx.ri(3, 6)
    x, dx = some(2, 4)
    want = {(): 1.0}
    for _ in range(e):
        want = expand(want, dx, name)
    same(x**e, want, "power")
    same(x, dx, "operands untouched")
    text = cls(str(a).replace("\n", " ")) if name != "IsingOperator" else None
    if text is not None:
        same(text, da, "large operator read back from its text")
