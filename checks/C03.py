"""Parameter binding and replacement."""
import numpy as np
import sympy

from vlib import gen, ref
from vlib.harness import Check
from checks.C02 import nested, npm

CHECK = Check(
    "C03",
    "a case is a gate/operation/circuit with symbolic parameters together with the symbol maps bound to it; "
    "cases in which nothing symbolic occurs are trivial",
    ["values are finite reals or expressions in real symbols"],
)


def simul(e, m):
    """Reference: simultaneous substitution."""
    if not isinstance(e, sympy.Basic):
        return e
    return e.xreplace({k: sympy.sympify(v) for k, v in m.items()})


def agree(ctx, got, want, env, what, detail):
    """Two parameter values: same symbols, same value."""
    gs = set(got.free_symbols) if isinstance(got, sympy.Basic) else set()
    ws = set(want.free_symbols) if isinstance(want, sympy.Basic) else set()
    ctx.equal(gs, ws, what + ": symbols", detail)
    ctx.close(ref.num(got, env), ref.num(want, env), what, detail=detail)


def make_map(ctx, syms):
    """A symbols map, hostile in several ways."""
    m = {}
    style = ctx.ri(0, 5)
    if style == 0:  # permutation among symbols
        p = list(syms)
        ctx.rng.shuffle(p)
        m = dict(zip(syms, p))
    elif style == 1:  # expressions in other (and the same) symbols
        for s in syms:
            if ctx.chance(0.8):
                m[s] = gen.expr(ctx, syms + [sympy.Symbol("new_1")], 1)
    elif style == 2:  # mixture
        for s in syms:
            m[s] = ctx.pick([ctx.pick(syms), gen.angle(ctx), 0])
    else:
        for s in syms:
            if style == 3 or ctx.chance(0.6):
                m[s] = ctx.pick([gen.angle(ctx), gen.angle(ctx), ctx.ri(-3, 3), np.float64(ctx.rng.uniform(-3, 3)), 0, sympy.Rational(1, 3)])
    for extra in ("unused", "zz_9"):
        if ctx.chance(0.4):
            m[sympy.Symbol(extra)] = ctx.pick([1.0, sympy.Symbol("theta"), -2])
    items = list(m.items())
    ctx.rng.shuffle(items)
    return dict(items)


def fullenv(ctx, *exprs):
    s = set()
    for e in exprs:
        if isinstance(e, sympy.Basic):
            s |= e.free_symbols
    return gen.env(ctx, sorted(s, key=str))


@CHECK.scenario(quick=300, thorough=6000, needs=("bound parameter=substituted", "bound matrix=substituted"))
def gate(ctx):
    syms = gen.symbols(ctx, ctx.ri(1, 3))
    s = nested(ctx, 3, ctx.ri(0, 4), syms, 0.75)
    if "U3" in gen.show_spec(s) and ctx.chance(0.8):
        s = ("dag", ("ctrl", 1, ("b", "CPHASE", (gen.expr(ctx, syms, 2),))))
    by_method = ctx.chance(0.6)
    g = gen.build_gate(s, by_method=by_method)
    m = make_map(ctx, syms)
    m0 = dict(m)
    before = (str(g), tuple(g.params))
    ps = ref.spec_params(s)
    d = lambda: (gen.show_spec(s), m)
    ctx.case((gen.show_spec(s), str(m)), trivial=not any(isinstance(p, sympy.Basic) and p.free_symbols for p in ps))
    ctx.sample((gen.show_spec(s), str(m)))
    want = [simul(p, m) for p in ps]
    env = fullenv(ctx, *want, *ps)
    q = tuple(ctx.rng.sample(range(7), ref.spec_qubits(s)))
    for obj, what in ((g.bind(m), "gate"), (g(*q).bind(m), "operation")):
        ctx.equal(len(obj.params), len(ps), "number of parameters", d)
        for a, b, orig in zip(obj.params, want, ps):
            agree(ctx, a, b, env, "bound parameter=substituted", d)
            if not isinstance(orig, sympy.Basic):
                ctx.check(a is orig or (type(a) == type(orig) and a == orig), "numeric parameter untouched", d)
        wsyms = set()
        for w in want:
            wsyms |= w.free_symbols if isinstance(w, sympy.Basic) else set()
        ctx.equal(list(obj.free_symbols), sorted(wsyms, key=str), "free symbols after binding", d)
        if what == "operation":
            ctx.equal(tuple(obj.qubit_indices), q, "qubits after binding", d)
            bg = obj.gate
    ctx.close(npm(bg.matrix, env), ref.spec_matrix(ref.spec_with_params(s, want), env), "bound matrix=substituted", detail=d)
    ctx.equal(bg.num_qubits, ref.spec_qubits(s), "qubit count after binding", d)
    if by_method or True:
        ref_gate = gen.build_gate(ref.spec_with_params(s, want), by_method=True)
        got_gate = gen.build_gate(s, by_method=True).bind(m)
        ctx.check(got_gate == ref_gate, "bound gate=gate built with bound parameters", d)
    ctx.equal((str(g), tuple(g.params)), before, "original unchanged by bind", d)
    ctx.equal(m, m0, "map unchanged by bind", d)
    ctx.check(g.bind({}) == g, "binding nothing", d) if by_method else None


@CHECK.scenario(quick=150, thorough=3000, needs=("replaced parameters",))
def replace(ctx):
    syms = gen.symbols(ctx, ctx.ri(1, 3))
    s = nested(ctx, 3, ctx.ri(0, 4), syms, 0.5)
    if not ref.spec_params(s):
        s = ("ctrl", 1, ("dag", ("b", "U3", tuple(gen.param(ctx, syms, 0.3) for _ in range(3)))))
    g = gen.build_gate(s, by_method=ctx.chance(0.6))
    ps = ref.spec_params(s)
    new = tuple(gen.param(ctx, syms + [sympy.Symbol("fresh")], 0.4) for _ in ps)
    env = fullenv(ctx, *new, *ps)
    before = (str(g), tuple(g.params))
    d = lambda: (gen.show_spec(s), new)
    ctx.case((gen.show_spec(s), str(new)))
    ctx.sample((gen.show_spec(s), str(new)))
    q = tuple(ctx.rng.sample(range(7), ref.spec_qubits(s)))
    for obj in (g.replace_params(new), g(*q).replace_params(new).gate):
        ctx.equal(tuple(obj.params), new, "replaced parameters", d)
        ctx.equal(obj.num_qubits, ref.spec_qubits(s), "qubit count after replacing", d)
        ctx.check(
            gen.build_gate(ref.spec_with_params(s, new)) == gen.build_gate(s).replace_params(new), "same structure after replacing", d
        )
    if not ("U3" in gen.show_spec(s) and any(isinstance(p, sympy.Basic) and p.free_symbols for p in new)) or ctx.chance(0.2):
        ctx.close(npm(obj.matrix, env), ref.spec_matrix(ref.spec_with_params(s, new), env), "matrix after replacing", detail=d)
    ctx.equal(tuple(g(*q).replace_params(new).qubit_indices), q, "qubits after replacing", d)
    ctx.equal((str(g), tuple(g.params)), before, "original unchanged by replace_params", d)


@CHECK.scenario(quick=150, thorough=3000, needs=("circuit bound parameter=substituted", "steps=at once"))
def circuit(ctx):
    n = ctx.ri(1, 4)
    syms = gen.symbols(ctx, ctx.ri(1, 5))
    customs = [gen.custom_def(ctx)]
    length = ctx.ri(0, 7)
    if ctx.chance(0.04):
        syms = [sympy.Symbol(f"theta_{i}") for i in range(ctx.ri(12, 40))]
        n, length = ctx.ri(5, 40), ctx.ri(30, 90)
        ctx.event("long circuit")
    ol = gen.ops(ctx, n, length, syms=syms, p_sym=0.7, customs=customs, p_mod=0.3)
    reg = n + ctx.ri(0, 2)
    c = gen.build_circuit(ol, reg)
    first = []
    for s, _ in ol:
        fs = set().union(*[p.free_symbols for p in ref.spec_params(s) if isinstance(p, sympy.Basic)] or [set()])
        first += [x for x in sorted(fs, key=str) if x not in first]
    d = lambda: (gen.show(ol), m)
    m = make_map(ctx, syms)
    ctx.case((gen.show(ol), str(m)), trivial=not first)
    ctx.sample((gen.show(ol), str(m)))
    ctx.equal(list(c.free_symbols), first, "free symbols by first appearance", d)
    if first and ctx.chance(0.3):
        handed = c.free_symbols
        handed.reverse()
        handed.pop()
        ctx.equal(list(c.free_symbols), first, "free symbols independent of the list handed out", d)
    before = str(c)
    b = c.bind(m)
    ctx.equal(b.n_qubits, reg, "register size after binding", d)
    ctx.equal(len(b.operations), len(ol), "number of operations after binding", d)
    env = gen.env(ctx, sorted(set(syms) | {sympy.Symbol(x) for x in ("new_1", "theta", "unused", "zz_9")}, key=str))
    bound_specs = []
    for op, (s, q) in zip(b.operations, ol):
        want = [simul(p, m) for p in ref.spec_params(s)]
        bound_specs.append((ref.spec_with_params(s, want), q))
        ctx.equal(tuple(op.qubit_indices), q, "qubits after binding", d)
        for a, w in zip(op.params, want):
            agree(ctx, a, w, env, "circuit bound parameter=substituted", d)
    ctx.check(b == gen.build_circuit(bound_specs, reg), "bound circuit=circuit built from bound parameters", d)
    want = set().union(*[p.free_symbols for s, _ in bound_specs for p in ref.spec_params(s) if isinstance(p, sympy.Basic)] or [set()])
    ctx.equal(set(b.free_symbols), want, "remaining symbols", d)
    ctx.equal(str(c), before, "original circuit unchanged", d)
    # several steps of numeric values = at once
    env2 = gen.env(ctx, syms)
    items = list(env2.items())
    ctx.rng.shuffle(items)
    k = ctx.ri(0, len(items))
    two = c.bind(dict(items[:k])).bind(dict(items[k:]))
    ctx.check(two == c.bind(env2), "steps=at once", d)
    ctx.equal(list(two.free_symbols), [], "all bound")
    one_by_one = c
    for kv in items:
        one_by_one = one_by_one.bind(dict([kv]))
    ctx.check(one_by_one == two, "steps=at once", d)
    # binding again after rebinding does not leak: same circuit bound to other values
    env3 = gen.env(ctx, syms)
    want3 = gen.build_circuit([(ref.spec_with_params(s, [simul(p, env3) for p in ref.spec_params(s)]), q) for s, q in ol], reg)
    ctx.check(c.bind(env3) == want3, "second binding independent of the first", d)


@CHECK.scenario(quick=40, thorough=800, needs=("alike but different",))
def alike(ctx):
    """Symbols, parameters and gates that print alike are still told apart."""
    from zquantum.core import circuits as C

    name = ctx.pick(["x", "theta_1", "2", "0.5"])
    twins = [sympy.Symbol(name), sympy.Symbol(name, real=True), sympy.Symbol(name, positive=True)]
    values = [float(name)] if name in ("2", "0.5") else []
    a, b = ctx.np.normal(size=2)
    defs = []
    for k in range(2):
        v = sympy.Symbol("v")
        m = sympy.Matrix([[sympy.exp(sympy.I * v * (k + 1)), 0], [0, sympy.exp(-sympy.I * v)]])
        defs.append(C.CustomGateDefinition("same", m, (v,)))
    specs = []
    for _ in range(ctx.ri(2, 5)):
        p = ctx.pick(twins + values)
        how = ctx.pick(["p", "p", "2p", "p+1", "-p"])
        specs.append((ctx.ri(0, 3), p, how))
    if len({p for _, p, _ in specs}) == 1:
        specs.append((0, twins[0] if specs[0][1] is not twins[0] else twins[1], specs[0][2]))
    make = [C.RX, C.PHASE, defs[0], defs[1]]
    form = {"p": lambda p: p, "2p": lambda p: 2 * p, "p+1": lambda p: p + 1, "-p": lambda p: -p}
    nest = ctx.ri(0, 2)

    def built(value):
        ops = []
        for k, p, how in specs:
            g = make[k](form[how](value(p)))
            g = g.dagger if nest == 1 else g.controlled(1) if nest == 2 else g
            ops.append(g(*range(g.num_qubits)))
        return C.Circuit(ops, 2)

    c = built(lambda p: p)
    m = {t: float(ctx.rng.uniform(0.1, 3)) for t in twins}
    some = dict(ctx.rng.sample(list(m.items()), ctx.ri(1, 3)))
    d = lambda: (specs, m)
    ctx.case(repr([(k, sympy.srepr(p) if isinstance(p, sympy.Basic) else p, h) for k, p, h in specs]))
    for mm in (m, some):
        got = c.bind(mm)
        want = built(lambda p: mm.get(p, p))
        for op, w in zip(got.operations, want.operations):
            for x, y in zip(op.params, w.params):
                fx = x.free_symbols if isinstance(x, sympy.Basic) else set()
                fy = y.free_symbols if isinstance(y, sympy.Basic) else set()
                ctx.equal(fx, fy, "alike but different", d)
                if not fx:
                    ctx.close(complex(x), complex(y), "alike but different", detail=d)
                ctx.check(op.gate == op.gate.replace_params(op.params), "alike but different", d)
    full = c.bind(m)
    ctx.equal(list(full.free_symbols), [], "alike but different", d)
    ctx.equal(set(c.bind(some).free_symbols), {p for _, p, _ in specs if isinstance(p, sympy.Basic) and p not in some}, "alike but different", d)
    u = np.eye(4, dtype=complex)
    for k, p, how in specs:
        t = float(form[how](m.get(p, p)))
        if k == 0:
            x = np.array([[np.cos(t / 2), -1j * np.sin(t / 2)], [-1j * np.sin(t / 2), np.cos(t / 2)]])
        elif k == 1:
            x = np.diag([1, np.exp(1j * t)])
        else:
            x = np.diag([np.exp(1j * t * (k - 1)), np.exp(-1j * t)])
        x = x.conj().T if nest == 1 else x
        x = np.kron(np.diag([1, 0]), np.eye(2)) + np.kron(np.diag([0, 1]), x) if nest == 2 else np.kron(x, np.eye(2))
        u = x @ u
    ctx.close(np.asarray(full.to_unitary(), dtype=complex), u, "alike but different", detail=d)


@CHECK.scenario(quick=30, thorough=400, needs=("multiphase bound",))
def multiphase(ctx):
    from zquantum.core.circuits import Circuit, MultiPhaseOperation, X

    n = ctx.ri(1, 4)
    syms = gen.symbols(ctx, 3)
    ps = tuple(gen.param(ctx, syms, 0.6) for _ in range(2**n))
    op = MultiPhaseOperation(ps)
    m = make_map(ctx, syms)
    d = (ps, m)
    ctx.case((str(ps), str(m)))
    b = op.bind(m)
    want = [simul(p, m) for p in ps]
    env = fullenv(ctx, *want)
    for a, w in zip(b.params, want):
        agree(ctx, a, w, env, "multiphase bound", d)
    ctx.equal(len(b.params), len(ps), "multiphase parameter count")
    ctx.equal(op.params, ps, "multiphase original unchanged")
    new = tuple(ctx.rng.uniform(-3, 3) for _ in ps)
    ctx.equal(op.replace_params(new).params, new, "multiphase replaced")
    c = Circuit([X(0), op, X(n - 1)])
    cb = c.bind(m)
    ctx.equal((cb.n_qubits, len(cb.operations)), (n, 3), "circuit with multiphase bound")
    for a, w in zip(cb.operations[1].params, want):
        agree(ctx, a, w, env, "multiphase bound in circuit", d)
    fs = sorted(set().union(*[p.free_symbols for p in ps if isinstance(p, sympy.Basic)] or [set()]), key=str)
    ctx.equal(list(c.free_symbols), fs, "multiphase free symbols")


@CHECK.scenario(quick=4, thorough=20, needs=("bind through simulator symbol map",))
def in_use(ctx):
    """bind as used by run_circuit_and_measure's symbol_map."""
    from zquantum.core.circuits import RX, Circuit
    from zquantum.core.symbolic_simulator import SymbolicSimulator

    t = sympy.Symbol("t")
    k = ctx.ri(0, 1)
    ctx.case((k, ctx.idx))
    c = Circuit([RX(t)(0), RX(t / 2)(1)])
    m = SymbolicSimulator(seed=ctx.idx).run_circuit_and_measure(c, 20, {t: 2 * np.pi * k})
    ctx.check(all(b[0] == 0 and b[1] == k for b in m.bitstrings), "bind through simulator symbol map", m.bitstrings)
