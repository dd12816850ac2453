"""Circuit unitaries and step-by-step action against dense reference linear algebra."""
import numpy as np
import sympy

from vlib.alias import independent
from vlib import gen, ref
from vlib.harness import Check

CHECK = Check(
    "C01",
    "a case is one circuit (gate list with qubits and parameters, register size) and, where "
    "used, a state vector; distinct cases differ in that description; circuits without gates are trivial",
    ["circuits with up to 4 qubits for full unitaries (6 for single gates, 7 for state application)"],
)


def random_numeric(ctx, nmax, max_ops):
    n = ctx.ri(1, nmax)
    count = ctx.ri(1, max_ops)
    customs = [gen.custom_def(ctx) for _ in range(ctx.ri(0, 2))]
    return n, gen.ops(ctx, n, count, customs=customs, p_mod=0.3), customs


def snapshot(c):
    return (c.n_qubits, [(str(o.gate), o.qubit_indices) for o in c.operations])


@CHECK.scenario(quick=420, thorough=9000, needs=("unitary=reference", "apply=reference"))
def numeric(ctx):
    """to_unitary and apply of bound circuits."""
    n, ol, _ = random_numeric(ctx, 4, 7)
    reg = n + (ctx.ri(0, 2) if ctx.chance(0.3) and n < 4 else 0)
    explicit = reg != n or ctx.chance(0.5)
    c = gen.retyped(ctx, gen.build_circuit(ol, reg if explicit else None, by_method=ctx.chance(0.7)))
    if not explicit:
        reg = max(max(q) for _, q in ol) + 1
    ctx.equal(c.n_qubits, reg, "register size")
    before = snapshot(c)
    ctx.case((gen.show(ol), reg))
    ctx.sample((gen.show(ol), reg))
    want = ref.circuit_unitary(ol, reg)
    got = c.to_unitary()
    ctx.check(isinstance(got, np.ndarray), "bound circuit's unitary is a numpy array", type(got))
    if reg <= 3:
        independent(ctx, "unitary", c.to_unitary)
    ctx.close(got, want, "unitary=reference", detail=lambda: gen.show(ol))
    ctx.close(got @ got.conj().T, np.eye(2**reg), "unitary is unitary", detail=lambda: gen.show(ol))
    v = ref.random_state(ctx.np, reg)
    v0 = v.copy()
    s = v
    for k, op in enumerate(c.operations):
        s = op.apply(s)
        ctx.close(s, ref.circuit_unitary(ol[: k + 1], reg) @ v0, "apply=reference", detail=lambda: gen.show(ol))
    ctx.close(v, v0, "apply leaves the input vector unchanged", atol=0, rtol=0)
    ctx.equal(snapshot(c), before, "circuit unchanged by to_unitary/apply")


@CHECK.scenario(quick=160, thorough=3000, needs=("lifted=reference",))
def placement(ctx):
    """A single gate in every kind of qubit placement of a wider register."""
    n = ctx.ri(2, 6)
    s = gen.spec(ctx, min(n, 4), customs=[gen.custom_def(ctx)], p_mod=0.4)
    k = ref.spec_qubits(s)
    q = ctx.rng.sample(range(n), k)
    style = ctx.ri(0, 4)
    if style == 0:
        q = sorted(q)
    elif style == 1:
        q = sorted(q, reverse=True)
    elif style == 2:
        a = ctx.ri(0, n - k)
        q = list(range(a, a + k))
        ctx.rng.shuffle(q)
    elif style == 3 and k >= 2:
        q[0], q[-1] = n - 1, 0
        rest = [x for x in range(1, n - 1)]
        ctx.rng.shuffle(rest)
        q[1:-1] = rest[: k - 2]
    gate = gen.build_gate(s)
    op = gate(*q)
    ctx.case((gen.show_spec(s), tuple(q), n))
    ctx.sample((gen.show_spec(s), tuple(q), n))
    m = ref.spec_matrix(s)
    want = ref.embed(m, q, n)
    got = np.array(op.lifted_matrix(n), dtype=complex)
    ctx.close(got, want, "lifted=reference", detail=(gen.show_spec(s), q, n))
    v = ref.random_state(ctx.np, n)
    ctx.close(op.apply(v), want @ v, "apply=reference", detail=(gen.show_spec(s), q, n))
    b = ctx.ri(0, 2**n - 1)
    e = np.zeros(2**n)
    e[b] = 1
    ctx.close(op.apply(e), want[:, b], "apply to basis state", detail=(gen.show_spec(s), q, n, b))
    ctx.close(op.apply(list(v)), want @ v, "apply to a list")


@CHECK.scenario(quick=120, thorough=2500, needs=("symbolic unitary=reference", "bound unitary=reference"))
def symbolic(ctx):
    """Unbound circuits: symbolic unitary evaluated = unitary after binding."""
    n = ctx.ri(1, 3)
    syms = gen.symbols(ctx, ctx.ri(1, 3))
    gates = None if ctx.chance(0.15) else [g for g in ref.GATES if g != "U3"]
    customs = [gen.custom_def(ctx, nsyms=ctx.ri(1, 2))] if ctx.chance(0.4) else []
    ol = gen.ops(ctx, n, ctx.ri(1, 4), syms=syms, p_sym=0.7, customs=customs, p_mod=0.25, gates=gates)
    c = gen.build_circuit(ol, n)
    env = gen.env(ctx, syms)
    ctx.case((gen.show(ol), n, sorted(env.items(), key=str)), trivial=not c.free_symbols)
    ctx.sample((gen.show(ol), n))
    u = c.to_unitary()
    want = ref.circuit_unitary(ol, n, env)
    if c.free_symbols:
        ctx.equal(tuple(u.shape), (2**n, 2**n), "shape of the symbolic unitary")
        got = np.array([[ref.num(sympy.sympify(x), env) for x in u[i, :]] for i in range(2**n)], dtype=complex)
    else:
        got = np.asarray(u)
    ctx.close(got, want, "symbolic unitary=reference", detail=lambda: (gen.show(ol), env))
    b = c.bind(env)
    ctx.equal(list(b.free_symbols), [], "no free symbols after binding all")
    ctx.close(b.to_unitary(), want, "bound unitary=reference", detail=lambda: (gen.show(ol), env))


@CHECK.scenario(quick=60, thorough=1200, needs=("symbolic apply=reference",))
def symbolic_state(ctx):
    """Applying (bound or unbound) operations to numeric and symbolic vectors."""
    n = ctx.ri(1, 3)
    syms = gen.symbols(ctx, 3)
    vs, gs = syms[:2], syms[2:]
    p = ctx.pick([0.0, 0.6])
    ol = gen.ops(ctx, n, ctx.ri(1, 3), syms=gs, p_sym=p, p_mod=0.2, gates=[g for g in ref.GATES if g != "U3"])
    c = gen.build_circuit(ol, n)
    env = gen.env(ctx, syms)
    vec = []
    for _ in range(2**n):
        r = ctx.rng.random()
        vec.append(ctx.pick(vs) * ctx.pick([1, 0.5, sympy.I]) if r < 0.5 else 0 if r < 0.7 else ctx.rng.uniform(-1, 1))
    kind = ctx.ri(0, 1)
    state = np.array(vec, dtype=object) if kind == 0 else sympy.Matrix(vec)
    if p and ctx.chance(0.3):  # symbolic gates, numeric state
        vec = list(ref.random_state(ctx.np, n))
        state = np.array(vec)
    ctx.case((gen.show(ol), n, str(vec)))
    ctx.sample((gen.show(ol), n, str(vec)))
    for op in c.operations:
        state = op.apply(state)
    got = np.array([ref.num(sympy.sympify(x), env) for x in np.array(state, dtype=object).flatten()], dtype=complex)
    v0 = np.array([ref.num(sympy.sympify(x), env) for x in vec], dtype=complex)
    ctx.close(got, ref.circuit_unitary(ol, n, env) @ v0, "symbolic apply=reference", detail=lambda: (gen.show(ol), vec, env))


@CHECK.scenario(quick=24, thorough=400, needs=("multiphase=reference",))
def multiphase(ctx):
    """MultiPhaseOperation: diagonal phases, interleaved with gates."""
    from zquantum.core.circuits import MultiPhaseOperation

    n = ctx.ri(1, 5)
    syms = gen.symbols(ctx, 2)
    ph = [gen.param(ctx, syms, 0.2) for _ in range(2**n)]
    env = gen.env(ctx, syms)
    op = MultiPhaseOperation(tuple(ph))
    ctx.case((n, str(ph)))
    bound = op.bind(env)
    vals = np.array([ref.num(sympy.sympify(p) if isinstance(p, sympy.Basic) else p, env) for p in ph], dtype=float)
    v = ref.random_state(ctx.np, n)
    v0 = v.copy()
    ctx.close(bound.apply(v), np.exp(1j * vals) * v0, "multiphase=reference")
    ctx.close(v, v0, "multiphase leaves input unchanged", atol=0, rtol=0)
    ctx.equal(tuple(bound.qubit_indices), tuple(range(n)), "multiphase qubits")
    if any(isinstance(p, sympy.Basic) and p.free_symbols for p in ph):
        ctx.raises(RuntimeError, lambda: op.apply(v), "unbound multiphase rejected")
    ctx.raises(ValueError, lambda: bound.apply(ref.random_state(ctx.np, n + 1)), "wrong length rejected")
    ctx.raises(ValueError, lambda: MultiPhaseOperation((0.5, 1j)), "complex phase rejected")


@CHECK.scenario(quick=8, thorough=40, needs=("empty unitary is identity",))
def edge(ctx):
    """Empty circuits, idle qubits at both ends, vectors of the wrong length."""
    from zquantum.core.circuits import CNOT, Circuit, X

    n = 1 + ctx.idx % 4
    ctx.case((n, ctx.idx))
    ctx.close(Circuit(n_qubits=n).to_unitary(), np.eye(2**n), "empty unitary is identity")
    ctx.close(Circuit([X(0)], n_qubits=n).to_unitary(), ref.embed(ref.PX, (0,), n), "idle qubits below")
    ctx.close(Circuit([X(n - 1)]).to_unitary(), ref.embed(ref.PX, (n - 1,), n), "idle qubits above")
    ctx.raises(ValueError, lambda: X(0).apply(np.ones(2**n + 1) / 2), "vector length not a power of two rejected")
    if n > 1:
        a, b = ctx.rng.sample(range(n), 2)
        ctx.close(Circuit([CNOT(a, b)], n_qubits=n).to_unitary(), ref.embed(ref.GATES["CNOT"][2](), (a, b), n), "cnot placement")


@CHECK.scenario(quick=24, thorough=400, needs=("wide apply=reference",))
def wide_and_long(ctx):
    """Wide registers (few gates) and long circuits with repeated gate objects (few qubits)."""
    if ctx.chance(0.4):
        n, count = ctx.ri(7, 8), 3
    else:
        n, count = ctx.ri(1, 3), ctx.ri(15, 40)
    specs = [gen.spec(ctx, min(n, 3), p_mod=0.3) for _ in range(4)]
    gates = [gen.build_gate(s) for s in specs]
    from zquantum.core.circuits import Circuit

    ol, ops = [], []
    for _ in range(count):
        i = ctx.ri(0, 3)
        q = tuple(ctx.rng.sample(range(n), ref.spec_qubits(specs[i])))
        ol.append((specs[i], q))
        ops.append(gates[i](*q))
    c = Circuit(ops, n_qubits=n)
    ctx.case((gen.show(ol), n))
    v = ref.random_state(ctx.np, n)
    want = v
    for s, q in ol:
        want = ref.apply_matrix(ref.spec_matrix(s), q, want, n)
    got = v
    for op in c.operations:
        got = op.apply(got)
    ctx.close(got, want, "wide apply=reference", detail=lambda: gen.show(ol))
    if n <= 3:
        ctx.close(c.to_unitary() @ v, want, "long unitary=reference", detail=lambda: gen.show(ol))


def every_order(count):
    import itertools

    out = []
    for k in (3, 4):
        for p in itertools.permutations(range(k)):
            out.append(p)
    return out[count % len(out)]


@CHECK.scenario(quick=60, thorough=900, needs=("wide gate=reference",))
def wide_gates(ctx):
    """Gates on three to five qubits without any symmetry, in every order of their qubits."""
    if ctx.idx % 60 < 30:
        order = list(every_order(ctx.idx % 60))
    else:
        order = ctx.rng.sample(range(5), ctx.pick([3, 4, 4, 5]))
    k = len(order)
    if k < 5 and ctx.chance(0.4):  # controls around something which is not symmetric
        inner = gen.custom_def(ctx, nq=2, nsyms=0)
        s = ("ctrl", k - 2, ("c", inner, ()))
    else:
        s = ("c", gen.custom_def(ctx, nq=k, nsyms=0), ())
    a, b = ctx.ri(0, 1), ctx.ri(0, 1)
    q = [x + a for x in order]
    n = max(q) + 1 + b
    ctx.case((gen.show_spec(s)[:80], tuple(q), n))
    ctx.sample((tuple(q), n, s[0]))
    op = gen.build_gate(s)(*q)
    v = ref.random_state(ctx.np, n)
    want = ref.apply_matrix(ref.spec_matrix(s), q, v, n)
    ctx.close(op.apply(v), want, "wide gate=reference", detail=lambda: (q, n))
    if n <= 5:
        from zquantum.core.circuits import Circuit

        ctx.close(Circuit([op], n_qubits=n).to_unitary() @ v, want, "wide gate's unitary=reference", detail=lambda: (q, n))
