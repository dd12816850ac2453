"""Symbolic expression translation and natural orderings."""
import functools
import itertools
import math

import numpy as np
import sympy

from vlib import gen, ref
from vlib.harness import Check

CHECK = Check(
    "C06",
    "a case is one expression translated both ways (with the assignment it is evaluated at), or one list of symbols sorted; "
    "constants and one-element lists are trivial",
    ["expressions are evaluated at random real points away from singularities; equality tolerance 1e-9 relative"],
)
FUNCS = [sympy.cos, sympy.sin, sympy.exp, sympy.sqrt, sympy.tan]


def expr(ctx, syms, depth):
    if depth == 0 or ctx.chance(0.15):
        r = ctx.rng.random()
        if r < 0.7:
            return ctx.pick(syms)
        return ctx.pick([sympy.Integer(ctx.ri(-5, 5)), sympy.Rational(ctx.ri(-7, 7), ctx.ri(1, 9)), sympy.Float(ctx.rng.uniform(-3, 3)), sympy.Integer(1), sympy.Integer(-1), sympy.Rational(1, 2)])
    a, b = expr(ctx, syms, depth - 1), expr(ctx, syms, depth - 1)
    k = ctx.ri(0, 11)
    if k == 0:
        return a + b
    if k == 1:
        return a - b
    if k == 2:
        return a * b
    if k == 3:
        return a / b if b != 0 else a
    if k == 4:
        return -a
    if k == 5:
        return a ** ctx.pick([2, 3, -1, -2, sympy.Rational(1, 2), sympy.Rational(-1, 2), 0.5, -1.0, 1.5, sympy.Rational(ctx.ri(-5, 7), ctx.ri(2, 4))])
    if k == 6:
        return 1 / a if a != 0 else b
    if k == 7:
        return a - b - expr(ctx, syms, 0)
    if k == 8:
        return a * b / (expr(ctx, syms, 0) + sympy.Symbol("x"))
    if k == 9:
        return sympy.Mul(-1, a, evaluate=False) if ctx.chance(0.5) else sympy.Add(a, -b)
    if k == 10:
        return a ** ctx.pick(syms) if ctx.chance(0.5) else 2**a
    return ctx.pick(FUNCS)(a)


def value(e, env):
    """Evaluate with numpy only (independent of the library)."""
    if not isinstance(e, sympy.Basic):
        return complex(e)
    if e.is_Symbol:
        return complex(env[e])
    if e.is_Number:
        return complex(float(e))
    if e is sympy.I:
        return 1j
    if e is sympy.pi:
        return complex(math.pi)
    if e is sympy.E:
        return complex(math.e)
    args = [value(a, env) for a in e.args]
    if e.is_Add:
        return functools.reduce(lambda x, y: x + y, args)
    if e.is_Mul:
        return functools.reduce(lambda x, y: x * y, args)
    if e.is_Pow:
        b = args[0]
        if not e.exp.is_Integer:
            # principal powers, the cut itself belonging to the upper side; rounding must not decide the side
            if abs(b.imag) <= 1e-12 * (1 + abs(b)):
                b = complex(b.real, 0.0)
            elif b.real < 0 and abs(b.imag) < 1e-6:
                raise ZeroDivisionError
            if abs(b) < 1e-9:
                raise ZeroDivisionError
        return b ** args[1]
    f = {sympy.cos: np.cos, sympy.sin: np.sin, sympy.exp: np.exp, sympy.tan: np.tan}[e.func]
    return complex(f(args[0]))


@CHECK.scenario(quick=4000, thorough=100000, needs=("round trip value", "round trip symbols"))
def roundtrip(ctx):
    from zquantum.core.circuits.symbolic.sympy_expressions import SYMPY_DIALECT, expression_from_sympy
    from zquantum.core.circuits.symbolic.translations import translate_expression

    names = gen.symbols(ctx, ctx.ri(1, 3))
    syms = names + [sympy.Symbol("x")]
    with np.errstate(all="ignore"):
        e = expr(ctx, syms, ctx.ri(0, 4))
        if not e.is_finite and e.has(sympy.zoo, sympy.oo, sympy.nan, -sympy.oo) or e.has(sympy.zoo, sympy.nan, sympy.oo):
            return
        if ctx.chance(0.05):  # many operands of one sum or product
            many = [sympy.Symbol(f"w{i}") for i in range(ctx.ri(9, 14))]
            syms = syms + many
            e = ctx.pick([sympy.Add, sympy.Mul])(e, *[ctx.ri(1, 3) * s for s in many])
            ctx.event("many operands")
        if ctx.chance(0.15):
            e = e * sympy.I
        if e.atoms(sympy.NumberSymbol) or {f.func for f in e.atoms(sympy.Function)} - set(FUNCS):
            return
        ctx.case(str(e), trivial=not e.free_symbols)
        ctx.sample(str(e))
        native = expression_from_sympy(e)
        back = translate_expression(native, SYMPY_DIALECT)
        if isinstance(back, sympy.Basic) and e.free_symbols:
            # the neutral form must mention exactly the symbols of the expression
            names_seen = set()

            def walk(t):
                from zquantum.core.circuits.symbolic.expressions import FunctionCall, Symbol

                if isinstance(t, FunctionCall):
                    ctx.check(isinstance(t.name, str) and len(tuple(t.args)) >= 1, "neutral node well formed", t)
                    for a in t.args:
                        walk(a)
                elif isinstance(t, Symbol):
                    names_seen.add(t.name)
                else:
                    ctx.check(isinstance(t, (int, float, complex)), "neutral leaf is a number or symbol", repr(t))

            walk(native)
            ctx.equal(names_seen, {s.name for s in e.free_symbols}, "symbols of the neutral form", str(e))
            # sympy may cancel a symbol while rebuilding (x - (x + 1/2)), never introduce one
            ctx.check(back.free_symbols <= e.free_symbols, "round trip symbols", str(e))
        ok = 0
        for _ in range(6):
            env = {s: ctx.rng.uniform(0.2, 2.5) * (1 if ctx.chance(0.7) else -1) for s in syms}
            try:
                want = value(e, env)
            except (ZeroDivisionError, OverflowError):
                continue
            if not np.isfinite(want) or abs(want) > 1e8 or (abs(want) < 1e-8 and want != 0):
                continue
            # discard badly conditioned points
            try:
                near = value(e, {k: v * (1 + 1e-9) for k, v in env.items()})
            except (ZeroDivisionError, OverflowError):
                continue
            if not abs(near - want) <= 1e-5 * (1 + abs(want)):
                continue
            got = value(back, env)
            ok += 1
            ctx.check(abs(got - want) <= 1e-7 * (1 + abs(want)), "round trip value", lambda: (str(e), str(native), str(back), env, got, want))
        ctx.event("points", ok)


@CHECK.scenario(quick=40, thorough=500, needs=("python number identity", "unsupported rejected"))
def leaves(ctx):
    """Numbers of every kind, symbols with awkward names, tuples, unsupported objects."""
    from zquantum.core.circuits.symbolic.expressions import FunctionCall, Symbol
    from zquantum.core.circuits.symbolic.sympy_expressions import SYMPY_DIALECT, expression_from_sympy
    from zquantum.core.circuits.symbolic.translations import translate_expression

    ctx.case(ctx.idx)
    for x in [0, 1, -1, ctx.ri(-9, 9), 0.5, ctx.rng.uniform(-5, 5), 1j, 2 - 3j, np.float64(0.3), np.int64(4)]:
        ctx.check(expression_from_sympy(x) == x, "python number identity", x)
        ctx.check(translate_expression(x, SYMPY_DIALECT) == x, "python number identity", x)
    n, d = ctx.ri(-20, 20), ctx.ri(1, 17)
    ctx.close(expression_from_sympy(sympy.Rational(n, d)), n / d, "rational value", atol=1e-15)
    ctx.equal(expression_from_sympy(sympy.Integer(n)), n, "integer value")
    f = ctx.rng.uniform(-5, 5)
    ctx.equal(expression_from_sympy(sympy.Float(f)), f, "float value")
    ctx.equal(expression_from_sympy(sympy.I), 1j, "imaginary unit")
    nm = ctx.pick(gen.NAMES + gen.RESERVED + ["lambda", "x[2]", "a b"])
    s = expression_from_sympy(sympy.Symbol(nm))
    ctx.equal(s, Symbol(nm), "symbol name")
    ctx.equal(translate_expression(s, SYMPY_DIALECT), sympy.Symbol(nm), "symbol name")
    ctx.raises(ValueError, lambda: translate_expression(FunctionCall("nosuch", (1,)), SYMPY_DIALECT), "unknown function rejected")
    for bad in ("x", None, [1], sympy.Matrix([1]), {}, object()):
        ctx.raises(NotImplementedError, lambda: expression_from_sympy(bad), "unsupported rejected", str(bad))
    # the dialect's functions on plain numbers
    a, b, c = (ctx.rng.uniform(0.3, 2) for _ in range(3))
    F = lambda name, *args: complex(sympy.N(translate_expression(FunctionCall(name, args), SYMPY_DIALECT)))
    ctx.close(F("add", a, b, c), a + b + c, "add")
    ctx.close(F("mul", a, b, c), a * b * c, "mul")
    ctx.close(F("sub", a, b), a - b, "sub")
    ctx.close(F("div", a, b), a / b, "div")
    ctx.close(F("pow", a, b), a**b, "pow")
    for name, fn in (("cos", np.cos), ("sin", np.sin), ("exp", np.exp), ("sqrt", np.sqrt), ("tan", np.tan)):
        ctx.close(F(name, a), fn(a), name)
    # parsing a user-defined expression with a custom dialect: the structure is not altered
    from zquantum.core.circuits.symbolic.expressions import ExpressionDialect

    text = ExpressionDialect(
        symbol_factory=lambda s: s.name, number_factory=lambda n: str(n),
        known_functions={"f": lambda *a: "f(" + ",".join(a) + ")", "g": lambda *a: "g(" + ",".join(a) + ")"},
    )
    tree = FunctionCall("f", (Symbol("p"), 3, FunctionCall("g", (FunctionCall("f", (2.5,)), Symbol("q")))))
    ctx.equal(translate_expression(tree, text), "f(p,3,g(f(2.5),q))", "translation by a custom dialect")


def naive_key(name):
    """[text, number, text, ...] alternating, written without regular expressions."""
    out, cur, digit = [], "", False
    for ch in name:
        if ("0" <= ch <= "9") != digit:
            out.append(int(cur) if digit else cur)
            cur, digit = "", not digit
        cur += ch
    out.append(int(cur) if digit else cur)
    if digit:
        out.append("")
    return out


@CHECK.scenario(quick=300, thorough=5000, needs=("natural order", "revlex order", "fixed names order"))
def orderings(ctx):
    from zquantum.core.circuits.symbolic import natural_key, natural_key_fixed_names_order, natural_key_revlex

    bases = ["theta", "beta", "gamma", "alpha", "x"]
    ctx.rng.shuffle(bases)
    bases = bases[: ctx.ri(1, 4)]
    nums = ctx.rng.sample(list(range(0, 14)) + [20, 99, 100, 101, 1000], ctx.ri(1, 7))
    names = [f"{b}_{k}" for b in bases for k in nums if ctx.chance(0.85)] or [f"{bases[0]}_0"]
    want = sorted(names, key=lambda s: (s.split("_")[0], int(s.split("_")[1])))
    wantr = sorted(names, key=lambda s: (int(s.split("_")[1]), s.split("_")[0]))
    order = list(bases)
    ctx.rng.shuffle(order)
    wantf = sorted(names, key=lambda s: (int(s.split("_")[1]), order.index(s.split("_")[0])))
    ctx.case(sorted(names), trivial=len(names) < 2)
    ctx.sample(names)
    for _ in range(3):
        ctx.rng.shuffle(names)
        syms = [sympy.Symbol(n) for n in names]
        f = lambda key: [s.name for s in sorted(syms, key=key)]
        ctx.equal(f(natural_key), want, "natural order", names)
        ctx.equal(f(natural_key_revlex), wantr, "revlex order", names)
        ctx.equal(f(natural_key_fixed_names_order(order)), wantf, "fixed names order", (order, names))
    # keys of general names
    g = [ctx.pick(["a", "theta", "b1c", "x_2_10", "x_2_9", "x_10_1", "p[3]", "p[12]", "a0", "a00", "q7q"]) for _ in range(6)]
    ctx.equal(
        [s for s in sorted(g, key=lambda n: natural_key(sympy.Symbol(n)))], sorted(g, key=naive_key), "natural order of general names", g
    )
    for n in g + names:
        ctx.equal(natural_key(sympy.Symbol(n)), naive_key(n), "natural key", n)
        ctx.equal(natural_key_revlex(sympy.Symbol(n)), naive_key(n)[::-1], "revlex key", n)
    ctx.raises(Exception, lambda: natural_key_fixed_names_order(["a"])(sympy.Symbol("b_1")), "unknown name rejected")


@CHECK.scenario(quick=150, thorough=3000, needs=("alike numbers told apart", "dialects told apart", "alike arguments told apart"))
def alike(ctx):
    """Expressions which print or compare alike, translated one after the other, through several dialects."""
    from zquantum.core.circuits.symbolic.expressions import ExpressionDialect, FunctionCall, Symbol
    from zquantum.core.circuits.symbolic.sympy_expressions import SYMPY_DIALECT, expression_from_sympy
    from zquantum.core.circuits.symbolic.translations import translate_expression

    def leaves(t):
        if isinstance(t, FunctionCall):
            return [x for a in t.args for x in leaves(a)]
        return [t]

    c = ctx.rng.uniform(0.1, 5) * ctx.pick([1, -1])
    near = [c, float(np.nextafter(c, 10)), float(np.nextafter(c, -10)), c * (1 + 3e-16)]
    x, y = sympy.Symbol("x"), sympy.Symbol("y")
    form = ctx.pick([lambda k: x + k, lambda k: k * x, lambda k: k * x + y, lambda k: sympy.sin(x * k), lambda k: x ** sympy.Float(abs(k)),
                     lambda k: sympy.exp(k + x) * y, lambda k: x / (y + k), lambda k: sympy.sqrt(x + y * k), lambda k: x - k * y])
    ctx.case((c, str(form(c))))
    ctx.rng.shuffle(near)
    for k in near:
        want = {float(v) for v in sympy.sympify(form(k)).atoms(sympy.Float)}
        native = expression_from_sympy(form(k))
        got = {v for v in leaves(native) if isinstance(v, float)}
        ctx.check(got and {abs(v) for v in got} <= {abs(v) for v in want} | {0.5, 1.0}, "alike numbers told apart", lambda: (repr(k), native))
        back = translate_expression(native, SYMPY_DIALECT)
        ctx.check({abs(float(v)) for v in back.atoms(sympy.Float)} <= {abs(v) for v in want}, "alike numbers told apart", lambda: (repr(k), back))

    # Dialects which come and go, and arguments which compare equal.
    def dialect(tag, functions=("f", "g")):
        return ExpressionDialect(
            symbol_factory=lambda s: tag + s.name, number_factory=lambda n: tag + repr(n),
            known_functions={f: (lambda *a, f=f: tag + f + "(" + ",".join(a) + ")") for f in functions},
        )

    def expected(t, tag):
        if isinstance(t, FunctionCall):
            return tag + t.name + "(" + ",".join(expected(a, tag) for a in t.args) + ")"
        return tag + (t.name if isinstance(t, Symbol) else repr(t))

    ones = [1, 1.0, True, 1 + 0j, np.float64(1.0)]
    zeros = [0, 0.0, -0.0, False]
    mk = ctx.pick([tuple, list])
    trees = []
    for v in ones + zeros:
        t = FunctionCall("f", mk([v, Symbol("p")]))
        trees.append(FunctionCall("g", mk([t, Symbol("q")])) if ctx.chance(0.5) else t)
    ctx.rng.shuffle(trees)
    keep = dialect("k")
    for i, t in enumerate(trees):
        ctx.equal(translate_expression(t, keep), expected(t, "k"), "alike arguments told apart", t)
        ctx.equal(translate_expression(t, dialect("t%d" % i)), expected(t, "t%d" % i), "dialects told apart", t)
    # A dialect is what its table says at the time of the call.
    t = FunctionCall("f", (Symbol("p"), 2))
    ctx.equal(translate_expression(t, keep), expected(t, "k"), "dialects told apart", t)
    keep.known_functions["f"] = lambda *a: "new(" + ",".join(a) + ")"
    ctx.equal(translate_expression(t, keep), "new(kp,k2)", "dialects told apart", t)
    del keep.known_functions["f"]
    ctx.raises(ValueError, lambda: translate_expression(t, keep), "unknown function rejected")
