"""Composition, splitting, generators and layouts."""
from collections import Counter

import numpy as np
import sympy

from vlib.alias import independent
from vlib import gen, ref
from vlib.harness import Check

CHECK = Check(
    "C04",
    "a case is one composition/splitting/generator/layout call with its inputs; distinct cases differ in those inputs; "
    "empty-with-empty compositions are trivial",
    ["sequences of operations are compared object by object with the operations that went in"],
)


def ops_of(c):
    return list(c.operations)


def rand_circuit(ctx, nmax=5, max_ops=6, min_ops=0):
    n = ctx.ri(1, nmax)
    if nmax > 4 and ctx.chance(0.03):
        n, min_ops, max_ops = ctx.pick([5, 12, 40]), 60, 260
        ctx.event("long circuit")
    ol = gen.ops(ctx, n, ctx.ri(min_ops, max_ops), syms=gen.symbols(ctx, 2), p_sym=0.2, p_mod=0.2, customs=[gen.custom_def(ctx)])
    reg = n + ctx.ri(0, 3) if ctx.chance(0.5) else None
    c = gen.retyped(ctx, gen.build_circuit(ol, reg))
    width = reg or (max([max(q) for _, q in ol]) + 1 if ol else 0)
    return c, width, ol


def same_ops(ctx, got, want, what, detail=""):
    ctx.check(len(got) == len(want) and all(a is b or a == b for a, b in zip(got, want)), what, lambda: (list(map(str, got)), list(map(str, want)), detail))


@CHECK.scenario(quick=200, thorough=4000, needs=("sum=concatenation", "operands unchanged"))
def add(ctx):
    from zquantum.core.circuits import Circuit

    a, wa, oa = rand_circuit(ctx)
    b, wb, ob = rand_circuit(ctx)
    ctx.equal(a.n_qubits, wa, "register size")
    ctx.case((gen.show(oa), wa, gen.show(ob), wb), trivial=not oa and not ob)
    ctx.sample((gen.show(oa), wa, gen.show(ob), wb))
    A, B = ops_of(a), ops_of(b)
    c = a + b
    same_ops(ctx, ops_of(c), A + B, "sum=concatenation")
    ctx.equal(c.n_qubits, max(wa, wb), "width of sum")
    same_ops(ctx, ops_of(a), A, "operands unchanged")
    same_ops(ctx, ops_of(b), B, "operands unchanged")
    ctx.equal((a.n_qubits, b.n_qubits), (wa, wb), "operand registers unchanged")
    same_ops(ctx, ops_of(a + a), A + A, "sum with itself")
    # operation by operation, with += on an aliased circuit
    acc = alias = a
    for k, op in enumerate(B):
        acc += op
        ctx.equal(acc.n_qubits, max([wa] + [max(o.qubit_indices) + 1 for o in B[: k + 1]]), "width after appending")
    same_ops(ctx, ops_of(acc), A + B, "appended one by one")
    same_ops(ctx, ops_of(alias), A, "operands unchanged")
    # associativity, iterables as input
    d, wd, od = rand_circuit(ctx, 3, 3)
    ctx.check((a + b) + d == a + (b + d), "addition associative")
    it = Circuit(iter(A + B), n_qubits=max(wa, wb) or None)
    ctx.check(it == c, "circuit from an iterator")
    ctx.check(a + Circuit() == a and Circuit() + a == a, "empty circuit is neutral")
    lst = list(A)
    e = Circuit(lst, n_qubits=wa or None)
    lst.append("junk")
    same_ops(ctx, ops_of(e), A, "circuit does not alias the caller's list")
    ctx.raises(NotImplementedError, lambda: a + 5, "adding a foreign object rejected")
    for bad in (-1, 2.5, -3):
        ctx.raises(ValueError, lambda: Circuit([], n_qubits=bad), "invalid register size rejected")


@CHECK.scenario(quick=300, thorough=4000, needs=("chunks concatenate to the original", "long circuit"))
def split(ctx):
    from zquantum.core.circuits import split_circuit

    c, w, ol = rand_circuit(ctx, 5, 12)
    O = ops_of(c)
    kind = ctx.ri(0, 5)
    table = {i: ctx.chance(0.5) for i in range(len(O))}
    if kind == 0:
        pred, expected = (lambda op: len(op.qubit_indices) == 1), None
    elif kind == 1:
        pred = lambda op: bool(op.params)
    elif kind == 2:
        pred = lambda op: 0 in op.qubit_indices
    elif kind == 3:
        pred = lambda op: True
    elif kind == 4:
        pred = lambda op: False
    else:  # arbitrary but deterministic by identity of position
        ids = {id(o): table[i] for i, o in enumerate(O)}
        pred = lambda op: ids[id(op)]
    calls = []

    def spy(op):
        calls.append(op)
        return pred(op)

    ctx.case((gen.show(ol), w, kind, str(table) if kind == 5 else ""))
    ctx.sample((gen.show(ol), kind))
    chunks = list(split_circuit(c, spy))
    same_ops(ctx, [o for _, s in chunks for o in s.operations], O, "chunks concatenate to the original")
    for v, s in chunks:
        ctx.check(len(s.operations) > 0, "no empty chunk")
        ctx.equal(s.n_qubits, w, "chunk register size")
        ctx.check(all(bool(pred(o)) == bool(v) for o in s.operations), "predicate constant per chunk")
    ctx.check(all(x[0] != y[0] for x, y in zip(chunks, chunks[1:])), "values alternate")
    ctx.check(all(any(k is o for o in O) for k in calls), "predicate only sees the circuit's operations")
    same_ops(ctx, ops_of(c), O, "operands unchanged")


@CHECK.scenario(quick=120, thorough=2500, needs=("layer gates", "ancilla gates"))
def generators(ctx):
    from zquantum.core import circuits as C

    n = ctx.ri(1, 8) if ctx.chance(0.8) else ctx.ri(9, 20)
    # layer
    name = ctx.pick([g for g in gen.ONE_Q])
    k = ref.GATES[name][0]
    G = C.builtin_gate_by_name(name)
    ps = np.array([[ctx.rng.uniform(-3, 3) for _ in range(k)] for _ in range(n)]) if k else None
    if k and ctx.chance(0.3):
        ps = [[sympy.Symbol(f"t_{i}_{j}") for j in range(k)] for i in range(n)]
    layer = C.create_layer_of_gates(n, G, ps)
    ctx.case((n, name, str(ps)))
    ctx.sample((n, name, str(ps)))
    ctx.equal(layer.n_qubits, n, "layer register")
    got = sorted([(o.qubit_indices, o.gate.name, tuple(o.params)) for o in layer.operations], key=lambda t: t[0])
    ctx.equal(got, [((i,), name, tuple(ps[i]) if k else ()) for i in range(n)], "layer gates")
    # gate on selected qubits of an existing circuit
    c, w, ol = rand_circuit(ctx, 5, 4)
    O = ops_of(c)
    qs = ctx.rng.sample(range(12), ctx.ri(1, 6) if ctx.chance(0.8) else ctx.ri(9, 12))
    ps = [[ctx.rng.uniform(-3, 3) for _ in range(k)] for _ in qs] if k else None
    r = C.apply_gate_to_qubits(c, tuple(qs), G, ps)
    same_ops(ctx, ops_of(r)[: len(O)], O, "existing operations kept")
    new = {o.qubit_indices: (o.gate.name, tuple(o.params)) for o in ops_of(r)[len(O) :]}
    ctx.equal(len(ops_of(r)) - len(O), len(qs), "one gate per qubit")
    ctx.equal(new, {(q,): (name, tuple(ps[i]) if k else ()) for i, q in enumerate(qs)}, "gate applied to each requested qubit", (qs, ps))
    ctx.equal(r.n_qubits, max(w, max(qs) + 1), "register after applying to qubits")
    same_ops(ctx, ops_of(c), O, "operands unchanged")
    if not k:
        dup = qs + [ctx.pick(qs)]
        r2 = C.apply_gate_to_qubits(c, dup, G)
        ctx.equal(
            Counter(o.qubit_indices for o in ops_of(r2)[len(O) :]), Counter((q,) for q in qs), "duplicates ignored", dup
        )
    else:
        ctx.raises(AssertionError, lambda: C.apply_gate_to_qubits(c, qs, G, ps + [[0.0] * k]), "wrong number of parameters rejected")
    # ancilla
    m = ctx.ri(0, 5) if ctx.chance(0.7) else ctx.ri(6, 20)
    a = C.add_ancilla_register(c, m)
    same_ops(ctx, ops_of(a)[: len(O)], O, "existing operations kept")
    ctx.equal([(o.gate.name, o.qubit_indices) for o in ops_of(a)[len(O) :]], [("I", (w + i,)) for i in range(m)], "ancilla gates")
    ctx.equal(a.n_qubits, w + m, "ancilla register")
    same_ops(ctx, ops_of(c), O, "operands unchanged")
    ctx.equal(c.n_qubits, w, "operands unchanged")


@CHECK.scenario(quick=80, thorough=1500, needs=("random circuit size",))
def random_circuit(ctx):
    from zquantum.core.circuits import create_random_circuit

    n, g, seed = ctx.ri(1, 12), ctx.ri(0, 30), ctx.ri(0, 10**6)
    c = create_random_circuit(n, g, np.random.default_rng(seed))
    ctx.case((n, g, seed))
    ctx.equal((c.n_qubits, len(c.operations)), (n, g), "random circuit size")
    for o in c.operations:
        q = o.qubit_indices
        ctx.check(len(set(q)) == len(q) == o.gate.num_qubits and all(0 <= x < n for x in q), "random gate placement", str(o))
        ctx.check(o.gate.name in ref.GATES and len(o.params) == ref.GATES[o.gate.name][0], "random gate parameters", str(o))
        ctx.check(all(-np.pi <= p <= np.pi for p in o.params), "random gate parameter range", str(o))
    ctx.check(create_random_circuit(n, g, np.random.default_rng(seed)) == c, "equal seeds give equal circuits")
    if g > 8:
        ctx.check(create_random_circuit(n, g, np.random.default_rng(seed + 1)) != c, "other seeds give other circuits")


@CHECK.scenario(quick=200, thorough=4000, needs=("equal circuits", "unequal circuits", "circuits that print alike told apart"))
def equality(ctx):
    from zquantum.core import circuits as C
    from zquantum.core.circuits import Circuit

    c, w, ol = rand_circuit(ctx, 4, 5, 1)
    O = ops_of(c)
    c2 = Circuit([gen.build_gate(s)(*q) for s, q in ol], n_qubits=w)
    ctx.case((gen.show(ol), w, ctx.idx))
    ctx.check(c == c2 and c2 == c and not (c != c2), "equal circuits", gen.show(ol))
    ctx.check(c != Circuit(O, n_qubits=w + 1), "unequal circuits (register)")
    ctx.check(c != Circuit(O[:-1], n_qubits=w) and Circuit(O[:-1], n_qubits=w) != c, "unequal circuits (prefix)")
    ctx.check(c != Circuit(O + [O[-1]], n_qubits=w), "unequal circuits (repeated operation)")
    i = ctx.ri(0, len(O) - 1)
    r = ctx.ri(0, 2)
    spec, q = ol[i]
    changed = None
    if r == 0 and w > 1:
        q2 = tuple(ctx.rng.sample(range(w), len(q)))
        if q2 != q:
            changed = gen.build_gate(spec)(*q2)
    elif r == 1 and ref.spec_params(spec):
        p = ref.spec_params(spec)
        changed = gen.build_gate(ref.spec_with_params(spec, [p[0] + 1e-4] + list(p[1:])))(*q)
    elif r == 2:
        changed = gen.build_gate(("b", "X" if "X()" not in gen.show_spec(spec) else "Y", ()))(q[0])
    if changed is not None:
        ctx.check(c != Circuit(O[:i] + [changed] + O[i + 1 :], n_qubits=w), "unequal circuits", lambda: (gen.show(ol), i, str(changed)))
    if len(O) > 1 and O[0] != O[1]:
        ctx.check(c != Circuit([O[1], O[0]] + O[2:], n_qubits=w), "unequal circuits (order)")
    ctx.check(not (c == O) and c != None, "circuit differs from a foreign object")  # noqa: E711
    # circuits which print alike but act differently
    name = ctx.pick(["t", "0.5", "theta_0"])
    twins = [sympy.Symbol(name), sympy.Symbol(name, real=True)] + ([0.5] if name == "0.5" else [])
    a, b = ctx.rng.sample(twins, 2)
    q = ctx.ri(0, w - 1)
    g = ctx.pick([C.RX, C.PHASE, C.RZ])
    wrap = ctx.pick([lambda x: x, lambda x: x.dagger])
    A, B = (Circuit(O + [wrap(g(p))(q)], n_qubits=w) for p in (a, b))
    ctx.check(A != B and B != A and A == Circuit(O + [wrap(g(a))(q)], n_qubits=w), "circuits that print alike told apart", lambda: (sympy.srepr(a), str(b)))
    m = [sympy.Matrix([[sympy.exp(sympy.I * k), 0], [0, sympy.exp(-sympy.I * k)]]) for k in (1, 2)]
    A, B = (Circuit(O + [wrap(C.CustomGateDefinition("same", x, ())())(q)], n_qubits=w) for x in m)
    ctx.check(A != B and B != A and A == Circuit(O + [wrap(C.CustomGateDefinition("same", m[0], ())())(q)], n_qubits=w), "circuits that print alike told apart", "custom gates")


@CHECK.scenario(quick=60, thorough=400, needs=("chain cover", "sycamore cover"))
def layouts(ctx):
    from zquantum.core.circuits.layouts import build_circuit_layers_and_connectivity as build

    n = ctx.idx
    ctx.case(("nn", n))
    conn, layers = build(n) if ctx.chance(0.5) else build(n, ctx.ri(0, 3), "nearest-neighbor")
    ctx.equal(sorted(conn.connectivity), [(i, i + 1) for i in range(n - 1)], "chain connectivity")
    ctx.equal(Counter(t for L in layers.layers for t in L), Counter(conn.connectivity), "chain cover")

    def disjoint(layers, d):
        for L in layers.layers:
            qs = [q for t in L for q in t]
            ctx.check(len(qs) == len(set(qs)), "groups of a layer are disjoint", (d, L))

    disjoint(layers, n)
    x, y = 1 + ctx.idx % 8, 1 + (ctx.idx // 8) % 8
    ctx.case(("sycamore", x, y))
    conn, layers = build(x, y, "sycamore")
    # rows of x qubits; every odd row's node is linked to the nodes straight and diagonally (one to
    # the right) above and below it
    want = set()
    for r in range(1, y, 2):
        for col in range(x):
            for dr in (-1, 1):
                for dc in (0, 1):
                    if 0 <= r + dr < y and col + dc < x:
                        want.add((r * x + col, (r + dr) * x + col + dc))
    got = [tuple(t) for t in conn.connectivity]
    ctx.equal(len(got), len(set(got)), "no connection listed twice")
    ctx.equal(set(got), want, "sycamore connectivity", (x, y))
    disjoint(layers, (x, y))
    ls = [[tuple(t) for t in L] for L in layers.layers]
    f = lambda idx: Counter(t for i in idx for t in ls[i])
    ctx.equal(len(ls), 8, "eight layers")
    ctx.equal(f([0, 1, 4, 5]), Counter(want), "sycamore cover", (x, y))
    ctx.equal(f([2, 3, 6, 7]), Counter(want), "sycamore cover", (x, y))
    if x * y < 20:
        independent(ctx, "layouts", lambda: build(x, y, "sycamore"))
        independent(ctx, "layouts", lambda: build(n, 1, "nearest-neighbor"))
    ctx.raises(ValueError, lambda: build(3, 3, "hexagonal"), "undefined layer type rejected")
