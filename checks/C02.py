"""Gate matrices, modifiers and gate equality."""
import math

import numpy as np
import sympy

from vlib.alias import independent
from vlib import gen, ref
from vlib.harness import Check

CHECK = Check(
    "C02",
    "a case is one gate (base gate or custom definition, parameters, nesting of dagger/control) or one pair of "
    "gates compared; distinct cases differ in that description",
    ["parameters are finite reals or sympy expressions in real symbols; equality is probed well inside (1e-10) and well outside (1e-5) the stated tolerance"],
)
NAMES = sorted(ref.GATES)


def npm(m, env=None):
    return np.array(
        [[ref.num(sympy.sympify(m[i, j]), env) for j in range(m.shape[1])] for i in range(m.shape[0])], dtype=complex
    )


@CHECK.scenario(quick=22 * 30, thorough=22 * 300, needs=("matrix=definition", "symbolic matrix=definition"))
def builtin(ctx):
    """Each built-in gate, numeric and symbolic parameters."""
    from zquantum.core import circuits as C

    name = NAMES[ctx.idx % len(NAMES)]
    k, nq, f = ref.GATES[name]
    ps = tuple(gen.angle(ctx) for _ in range(k))
    if k and ctx.chance(0.25):  # many turns, of either parity
        ps = tuple(ctx.pick([p, p, 2 * np.pi * ctx.ri(-40000, 40000) + float(p), ctx.rng.uniform(-1e5, 1e5)]) for p in ps)
    g = C.builtin_gate_by_name(name)
    ctx.check(g is getattr(C, name), "gate by name is the exported gate")
    gate = g(*ps) if k else g
    ctx.case((name, str(ps)))
    ctx.sample((name, str(ps)))
    want = np.asarray(f(*[ref.num(p) for p in ps]), dtype=complex)
    got = npm(gate.matrix)
    ctx.close(got, want, "matrix=definition", detail=(name, ps))
    ctx.close(got @ got.conj().T, np.eye(2**nq), "matrix unitary", detail=(name, ps))
    ctx.equal(gate.num_qubits, nq, "number of qubits")
    ctx.equal(gate.name, name, "name")
    ctx.equal(tuple(gate.params), ps, "params")
    ctx.equal(list(gate.free_symbols), [], "no free symbols")
    if getattr(gate, "is_hermitian", False):
        ctx.close(want, want.conj().T, "gate flagged Hermitian is Hermitian")
    ctx.close(npm(gate.dagger.matrix), want.conj().T, "dagger of base gate")
    if k:
        syms = gen.symbols(ctx, 3)
        sp = tuple(gen.expr(ctx, syms, ctx.ri(0, 1)) for _ in range(k))
        env = gen.env(ctx, syms)
        sg = g(*sp)
        want = np.asarray(f(*[ref.num(p, env) for p in sp]), dtype=complex)
        ctx.close(npm(sg.matrix, env), want, "symbolic matrix=definition", detail=(name, sp, env))
        ctx.equal(set(sg.free_symbols), set().union(*[p.free_symbols for p in sp]), "free symbols")


def nested(ctx, max_q, depth, syms=(), p_sym=0.0):
    s = gen.base_spec(ctx, ctx.ri(1, 2), syms, p_sym, [gen.custom_def(ctx) for _ in range(2)], p_custom=0.2)
    for _ in range(depth):
        room = max_q - ref.spec_qubits(s)
        s = ("ctrl", ctx.ri(1, room), s) if room > 0 and ctx.chance(0.5) else ("dag", s)
    return s


@CHECK.scenario(quick=300, thorough=6000, needs=("nested matrix=reference", "dagger=adjoint", "controlled=block"))
def modifiers(ctx):
    """Arbitrary nestings, built through methods and constructors, stepwise observed."""
    from zquantum.core import circuits as C

    s = nested(ctx, 4, ctx.ri(0, 5))
    by_method = ctx.chance(0.6)
    g = gen.build_gate(s, by_method=by_method)
    m = ref.spec_matrix(s)
    ctx.case((gen.show_spec(s), by_method))
    ctx.sample(gen.show_spec(s))

    def same(gate, mat, spec_q, what):
        ctx.equal(gate.num_qubits, spec_q, what + ": qubits", detail=gen.show_spec(s))
        ctx.equal(tuple(gate.params), ref.spec_params(s), what + ": params", detail=gen.show_spec(s))
        ctx.close(npm(gate.matrix), mat, what, detail=gen.show_spec(s))

    nq = ref.spec_qubits(s)
    for h in (g, g.dagger, g.controlled(1)):
        independent(ctx, "matrices", lambda: h.matrix)
    same(g, m, nq, "nested matrix=reference")
    same(g.dagger, m.conj().T, nq, "dagger=adjoint")
    same(g.dagger.dagger, m, nq, "dagger twice")
    k = ctx.ri(1, 2)
    if nq + k <= 5:
        same(g.controlled(k), ref.controlled(m, k), nq + k, "controlled=block")
        same(g.controlled(k).dagger, ref.controlled(m, k).conj().T, nq + k, "dagger of controlled")
        same(g.dagger.controlled(k), ref.controlled(m, k).conj().T, nq + k, "controlled of dagger")
        if nq + k <= 4:
            same(g.controlled(k).controlled(1), ref.controlled(m, k + 1), nq + k + 1, "controlled twice")
    ctx.equal(g.free_symbols if isinstance(g.free_symbols, list) else list(g.free_symbols), [], "free symbols of numeric gate")
    ctx.raises(ValueError, lambda: C.ControlledGate(g, 0), "zero controls rejected")
    ctx.raises(ValueError, lambda: C.ControlledGate(g, -1), "negative controls rejected")
    q = tuple(ctx.rng.sample(range(9), nq))
    op = g(*q)
    ctx.equal((op.gate, tuple(op.qubit_indices), tuple(op.params)), (g, q, tuple(g.params)), "operation keeps gate and qubits")


@CHECK.scenario(quick=60, thorough=1000, needs=("symbolic nested=reference",))
def symbolic_modifiers(ctx):
    syms = [sympy.Symbol(s.name, real=True) if False else s for s in gen.symbols(ctx, 2)]
    s = nested(ctx, 3, ctx.ri(1, 3), syms, 0.8)
    if "U3" in gen.show_spec(s) and ctx.chance(0.7):
        s = ("dag", ("b", "RZ", (syms[0] / 2,)))
    env = gen.env(ctx, syms)
    g = gen.build_gate(s)
    ctx.case(gen.show_spec(s))
    want_syms = set().union(*[sympy.sympify(p).free_symbols for p in ref.spec_params(s) if isinstance(p, sympy.Basic)] or [set()])
    ctx.equal(set(g.free_symbols), want_syms, "free symbols through modifiers")
    b = g.bind(env)
    want = ref.spec_matrix(s, env)
    ctx.close(npm(b.matrix), want, "symbolic nested=reference", detail=(gen.show_spec(s), env))
    # adjoint of an unbound matrix, with the symbols replaced by real values
    m = g.matrix
    got = np.array(
        [[complex(sympy.N(sympy.sympify(m[i, j]).subs({k: sympy.Float(v) for k, v in env.items()}, simultaneous=True))) for j in range(m.shape[1])] for i in range(m.shape[0])]
    )
    ctx.close(got, want, "unbound matrix evaluated=reference", detail=(gen.show_spec(s), env))


def mutate(ctx, s):
    """A spec that must differ from s."""
    r = ctx.ri(0, 4)
    ps = ref.spec_params(s)
    if r == 0 and ps:
        i = ctx.ri(0, len(ps) - 1)
        d = ctx.pick([1e-5, -1e-5, 1e-3, 0.5, 2 * math.pi, 1.0])
        p = list(ps)
        p[i] = p[i] + d
        return ref.spec_with_params(s, p), f"param {i} + {d}"
    if r == 1:
        return ("dag", s) if s[0] != "dag" else s[1], "dagger"
    if r == 2:
        return ("ctrl", 1, s), "control"
    if len(ps) >= 2 and abs(ref.num(ps[0]) - ref.num(ps[-1])) > 1e-4:
        return ref.spec_with_params(s, ps[::-1]), "params reversed"

    def rename(t):
        if t[0] == "b":
            k, q, _ = ref.GATES[t[1]]
            o = [x for x in NAMES if x != t[1] and ref.GATES[x][:2] == (k, q)]
            return ("b", ctx.pick(o), t[2]) if o else ("b", "X", ())
        if t[0] == "c":
            d = t[1]
            if ctx.chance(0.5):
                return ("c", ref.CustomDef(d.name + "_", d.nq, d.symbols, d.matrix), t[2])
            m = d.matrix.copy()
            m[-1, -1] = m[-1, -1] + ctx.pick([1e-4, 0.5, 1])
            return ("c", ref.CustomDef(d.name, d.nq, d.symbols, m), t[2])
        if t[0] == "ctrl":
            return ("ctrl", t[1], rename(t[2]))
        return ("dag", rename(t[1]))

    return rename(s), "other base gate"


@CHECK.scenario(quick=240, thorough=5000, needs=("equal when rebuilt", "unequal when different"))
def equality(ctx):
    """Gates rebuilt from the same description are equal; changed ones are not; equal gates have equal matrices."""
    s = nested(ctx, 3, ctx.ri(0, 3))
    # modifiers through constructors keep the written structure
    g1, g2 = gen.build_gate(s, by_method=False), gen.build_gate(s, by_method=False)
    ctx.case((gen.show_spec(s), ctx.idx))
    ctx.check(g1 == g2 and g2 == g1 and not (g1 != g2), "equal when rebuilt", gen.show_spec(s))
    ps = ref.spec_params(s)
    if ps:
        near = ref.spec_with_params(s, [p + ctx.pick([1e-10, -1e-11, 0.0]) for p in ps])
        ctx.check(g1 == gen.build_gate(near, by_method=False), "equal within tolerance", gen.show_spec(s))
        as_sympy = ref.spec_with_params(s, [sympy.sympify(p) for p in ps])
        ctx.check(gen.build_gate(as_sympy, by_method=False) == g1, "sympy and python numbers equal", gen.show_spec(s))
    t, why = mutate(ctx, s)
    h = gen.build_gate(t, by_method=False)
    ctx.sample((gen.show_spec(s), why))
    ctx.check(not (g1 == h) and not (h == g1) and g1 != h, "unequal when different", lambda: (gen.show_spec(s), gen.show_spec(t), why))
    # random pairs: whenever the library says equal, matrices agree
    a, b = nested(ctx, 2, ctx.ri(0, 2)), nested(ctx, 2, ctx.ri(0, 2))
    ga, gb = gen.build_gate(a), gen.build_gate(b)
    if ga == gb:
        ctx.close(ref.spec_matrix(a), ref.spec_matrix(b), "equal gates have equal matrices", atol=1e-6, detail=(gen.show_spec(a), gen.show_spec(b)))
    q = ctx.rng.sample(range(6), g1.num_qubits)
    ctx.check(g1(*q) == g2(*q), "operations equal when rebuilt")
    if len(q) > 1:
        ctx.check(g1(*q) != g2(*q[::-1]), "operations with other qubit order differ")
    ctx.check(not (g1 == "X") and not (g1 == None), "gate differs from a foreign object")  # noqa: E711


@CHECK.scenario(quick=60, thorough=1200, needs=("symbolic equality",))
def symbolic_equality(ctx):
    syms = gen.symbols(ctx, 3)
    e = gen.expr(ctx, syms, 2)
    name = ctx.pick(["RX", "RZ", "PHASE", "CPHASE", "XX"])
    from zquantum.core import circuits as C

    G = C.builtin_gate_by_name(name)
    ctx.case((name, str(e)))
    ctx.check(G(e) == G(e), "symbolic equality")
    ctx.check(G(e) == G(sympy.sympify(e + 0) * 1), "symbolic equality")
    a, b, c = syms
    ctx.check(G(a * (b + c)) == G(a * b + a * c), "expanded form equal")
    ctx.check(G(e) != G(e + sympy.Symbol("other")), "symbolic difference seen")
    ctx.check(G(e) != G(e + 0.25), "symbolic offset seen")
    ctx.check(G(e) != G(0.125) or not e.free_symbols, "symbol differs from number")
    ctx.check(G(0.125) != G(e) or not e.free_symbols, "symbol differs from number")


@CHECK.scenario(quick=1, thorough=1, needs=("unknown name",))
def names(ctx):
    from zquantum.core import circuits as C

    ctx.case("names")
    for n in NAMES:
        g = C.builtin_gate_by_name(n)
        g = g(*([0.3] * ref.GATES[n][0])) if ref.GATES[n][0] else g
        ctx.equal(g.name, n, "name lookup")
    for n in ["", "x", "rx", "CCX", "U2", "XXX", "NoSuchGate", "RX ", "Control"]:
        ctx.raises(KeyError, lambda: C.builtin_gate_by_name(n), "unknown name")
    for n in ["Callable", "Union", "GateRef", "GatePrototype", "make_parametric_gate_prototype", "builtin_gate_by_name", "_gates", "__name__"]:
        ctx.raises(KeyError, lambda: C.builtin_gate_by_name(n), "unknown name (module internals)", n)


@CHECK.scenario(quick=30, thorough=500, needs=("custom matrix=definition",))
def custom(ctx):
    """Custom gate definitions: any matrix of dimension 2^N with any parameter order."""
    d = gen.custom_def(ctx, nq=ctx.pick([None, None, None, 3, 4]))
    syms = list(d.symbols)
    cd = gen.build_custom(d)
    vals = [gen.angle(ctx) for _ in syms]
    ctx.case((repr(d)[:300], str(vals)))
    g = cd(*vals)
    ctx.close(npm(g.matrix), d.ref(*[ref.num(v) for v in vals]), "custom matrix=definition", detail=(d, vals))
    ctx.equal((g.name, g.num_qubits, tuple(g.params)), (d.name, d.nq, tuple(vals)), "custom gate attributes")
    # another definition, different in one element or in its last column only
    m = sympy.Matrix(cd.matrix)
    i, j = ctx.ri(0, m.rows - 1), ctx.ri(0, m.cols - 1)
    m[i, j] = m[i, j] + ctx.pick([1, 0.25, -sympy.I])
    other = type(cd)(d.name, m, tuple(syms))
    ctx.check(other != cd and cd != other and not other == cd, "definitions with other matrices differ", lambda: (cd, other))
    h = other(*vals)
    ctx.check(not (g == h) and not (h == g) and g != h, "gates with other matrices differ", lambda: (g, h))
    ctx.check(cd == type(cd)(d.name, sympy.Matrix(cd.matrix), tuple(syms)) and g == cd(*vals), "custom gates equal when rebuilt", lambda: cd)
    if len(syms) >= 1:
        # called with (other) symbols, among them the definition's own in another order
        args = list(syms)
        ctx.rng.shuffle(args)
        if ctx.chance(0.5):
            args[0] = gen.expr(ctx, syms, 1)
        if len(args) > 1 and ctx.chance(0.3):
            args[-1] = 0.7
        env = gen.env(ctx, syms)
        g = cd(*args)
        ctx.close(
            npm(g.matrix, env), d.ref(*[ref.num(a, env) for a in args]), "custom matrix with permuted symbols", detail=(d, args, env)
        )
    ctx.raises(ValueError, lambda: type(cd)("bad", sympy.eye(3), ()), "matrix of dimension 3 rejected")
    ctx.raises(ValueError, lambda: type(cd)("bad", sympy.zeros(2, 4), ()), "non-square matrix rejected")
