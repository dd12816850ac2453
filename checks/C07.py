"""Decomposition of circuits by rules."""
import numpy as np
import sympy

from vlib import gen, ref
from vlib.harness import Check

CHECK = Check(
    "C07",
    "a case is one circuit (or list of abstract operations) with a sequence of rules; circuits on which no rule fires are "
    "counted as trivial unless kept unchanged is what is being observed",
    ["unitary comparison on up to 4 qubits"],
)


def u3(t, p, l):
    return np.asarray(ref.GATES["U3"][2](t, p, l), dtype=complex)


def rot(t, p, l):
    R = lambda n, a: np.asarray(ref.GATES[n][2](a), dtype=complex)
    return R("RZ", p) @ R("RY", t) @ R("RZ", l)


def angles3(ctx, zero_phase=False):
    t, p, l = (gen.angle(ctx) for _ in range(3))
    if zero_phase:
        l = -p
    return (t, p, l)


@CHECK.scenario(quick=260, thorough=6000, needs=("unitary preserved up to phase", "register kept"))
def u3_circuits(ctx):
    from zquantum.core.circuits import Circuit
    from zquantum.core.decompositions import U3GateToRotation, decompose_zquantum_circuit

    n = ctx.ri(1, 4)
    ol = []
    has_ctrl = False
    for _ in range(ctx.ri(0, 6)):
        r = ctx.rng.random()
        if r < 0.45:
            s = ("b", "U3", angles3(ctx))
        elif r < 0.6 and n > 1:
            s = ("ctrl", ctx.ri(1, n - 1), ("b", "U3", angles3(ctx, zero_phase=ctx.chance(0.5))))
        elif r < 0.7:
            s = ("dag", ("b", "U3", angles3(ctx)))
        else:
            s = gen.spec(ctx, min(n, 2), gates=[g for g in ref.GATES if g != "U3"], p_mod=0.3, customs=[gen.custom_def(ctx)])
        ol.append((s, tuple(ctx.rng.sample(range(n), ref.spec_qubits(s)))))
    reg = n + ctx.ri(0, 1) if n < 4 else n
    c = gen.retyped(ctx, gen.build_circuit(ol, reg))
    before = str(c)
    fires = sum(1 for s, _ in ol if s[0] == "b" and s[1] == "U3" or s[0] == "ctrl" and s[2][0] == "b" and s[2][1] == "U3")
    ctx.case((gen.show(ol), reg), trivial=not fires)
    ctx.sample((gen.show(ol), reg))
    rules = [U3GateToRotation()] * ctx.ri(1, 2)
    d = decompose_zquantum_circuit(c, rules)
    ctx.equal(d.n_qubits, reg, "register kept", gen.show(ol))
    ctx.equal(str(c), before, "input circuit unchanged")
    ctx.check(decompose_zquantum_circuit(c, []) == c, "no rules: circuit unchanged")
    # expected unitary; a controlled U3 is compared with what the implemented rule stands for
    # (controlled RZ RY RZ, see the known finding) and, separately, with the gate itself
    u = np.eye(2**reg, dtype=complex)
    for s, q in ol:
        m = ref.spec_matrix(s)
        if s[0] == "ctrl" and s[2][0] == "b" and s[2][1] == "U3":
            a = [float(ref.num(x)) for x in s[2][2]]
            true_block, impl = u3(*a), ref.controlled(rot(*a), s[1])
            one = decompose_zquantum_circuit(Circuit([gen.build_gate(s)(*q)], n_qubits=reg), rules)
            got = one.to_unitary()
            want = ref.embed(m, q, reg)
            if not ref.equal_up_to_phase(got, want, 1e-6):
                # only this specific loss is listed: the relative phase exp(i(phi+lambda)/2)
                if ref.equal_up_to_phase(got, ref.embed(impl, q, reg), 1e-6):
                    ctx.finding("controlled-u3-relative-phase", False, "decomposition of controlled U3 loses the relative phase exp(i(phi+lambda)/2)", (gen.show_spec(s), q))
                    m = impl
                else:
                    ctx.check(False, "controlled U3 decomposition", (gen.show_spec(s), q))
        u = ref.apply_matrix(m, q, u, reg)
    got = d.to_unitary() if d.operations else np.eye(2**reg)
    ctx.check(ref.equal_up_to_phase(got, u, 1e-6), "unitary preserved up to phase", lambda: (gen.show(ol), str(d)))
    # untouched operations kept, in order; U3 replaced by rotations on the same qubits
    out = list(d.operations)
    for op in c.operations:
        g = op.gate
        hit = g.name == "U3" or (g.name == "Control" and g.wrapped_gate.name == "U3")
        if not hit:
            ctx.check(out and out[0] == op, "operation without a rule kept", str(op))
            out.pop(0)
        else:
            three, out = out[:3], out[3:]
            ctx.check(len(three) == 3 and all(tuple(o.qubit_indices) == tuple(op.qubit_indices) for o in three), "rotations on the same qubits")
            base = [o.gate.wrapped_gate if g.name == "Control" else o.gate for o in three]
            ctx.check(all(b.name in ("RZ", "RY") for b in base), "only rotations", str(three))
            ctx.check(g.name != "Control" or all(o.gate.num_control_qubits == g.num_control_qubits for o in three), "controls kept")
    ctx.equal(len(out), 0, "nothing added")


@CHECK.scenario(quick=40, thorough=600, needs=("symbolic decomposition",))
def symbolic(ctx):
    from zquantum.core.circuits import U3, Circuit
    from zquantum.core.decompositions import U3GateToRotation, decompose_zquantum_circuit

    syms = gen.symbols(ctx, 3)
    ps = tuple(gen.param(ctx, syms, 0.8) for _ in range(3))
    env = gen.env(ctx, syms)
    n = ctx.ri(1, 3)
    q = ctx.ri(0, n - 1)
    ctx.case((str(ps), n, q))
    d = decompose_zquantum_circuit(Circuit([U3(*ps)(q)], n_qubits=n), [U3GateToRotation()])
    want_syms = set().union(*[p.free_symbols for p in ps if isinstance(p, sympy.Basic)] or [set()])
    ctx.equal(set(d.free_symbols), want_syms, "free symbols kept")
    got = d.bind(env).to_unitary()
    ctx.check(ref.equal_up_to_phase(got, ref.embed(u3(*[ref.num(p, env) for p in ps]), (q,), n), 1e-6), "symbolic decomposition", (ps, env))


@CHECK.scenario(quick=60, thorough=800, needs=("operations that print alike",))
def alike(ctx):
    """Operations that print alike, in one circuit or in successive calls, are still decomposed one by one."""
    from zquantum.core import circuits as C
    from zquantum.core.decompositions import U3GateToRotation, decompose_zquantum_circuit

    name = ctx.pick(["t", "0.5"])
    twins = [sympy.Symbol(name), sympy.Symbol(name, real=True)] + ([0.5] if name == "0.5" else [])
    n = ctx.ri(1, 3)
    mats = [np.diag([1, np.exp(1j * k)]) for k in (1, 2)]
    defs = [C.CustomGateDefinition("same", sympy.Matrix(m), ()) for m in mats]
    env = {t: ctx.rng.uniform(-2, 2) for t in twins if isinstance(t, sympy.Basic)}
    rest = tuple(ctx.rng.uniform(-2, 2) for _ in range(2))
    num = lambda p: env.get(p, p)
    ctx.case((name, n, ctx.idx))
    for _ in range(ctx.ri(1, 2)):
        ops, u = [], np.eye(2**n, dtype=complex)
        q = ctx.ri(0, n - 1)
        for _ in range(ctx.ri(2, 5)):
            if ctx.chance(0.25):
                k = ctx.ri(0, 1)
                ops.append(defs[k]()(q))
                m = mats[k]
            else:
                ps = [ctx.pick(twins), *rest]
                ops.append(C.U3(*ps)(q))
                m = u3(*[num(p) for p in ps])
            u = ref.embed(m, (q,), n) @ u
        d = decompose_zquantum_circuit(C.Circuit(ops, n_qubits=n), [U3GateToRotation()])
        ctx.equal(set(d.free_symbols), set(C.Circuit(ops).free_symbols), "operations that print alike: free symbols")
        ctx.check(all(o.gate.name != "U3" for o in d.operations), "operations that print alike: all decomposed")
        ctx.check(ref.equal_up_to_phase(np.array(d.bind(env).to_unitary(), dtype=complex), u), "operations that print alike", lambda: (ops, env))


class Rule:
    """A recording rule over abstract operations (nested tuples)."""

    def __init__(self, ctx, tag, pred, arity, lazy):
        self.tag, self.pred, self.arity, self.lazy = tag, pred, arity, lazy
        self.asked, self.produced = [], []

    def image(self, op):
        if self.arity < 0:
            return [op]
        return [(self.tag, i, op) for i in range(self.arity)]

    def predicate(self, op):
        self.asked.append(op)
        return self.pred(op)

    def production(self, op):
        self.produced.append(op)
        out = self.image(op)
        return iter(out) if self.lazy else out


@CHECK.scenario(quick=300, thorough=6000, needs=("rules applied in sequence",))
def sequences(ctx):
    """Any operation type, any rules: each rule sees exactly the previous rule's output."""
    from zquantum.core.decompositions import decompose_operations

    ops = [ctx.pick("abcde") + str(i) for i in range(ctx.ri(0, 6) if ctx.chance(0.9) else ctx.ri(20, 200))]
    rules = []
    for k in range(ctx.ri(0, 4) if len(ops) < 10 or ctx.chance(0.5) else ctx.ri(5, 12)):
        kind = ctx.ri(0, 4)
        letters = ctx.rng.sample("abcde", ctx.ri(1, 3))
        root = lambda op: op if isinstance(op, str) else root(op[2])
        pred = [
            lambda op, L=letters: root(op)[0] in L,
            lambda op: True,
            lambda op: False,
            lambda op: not isinstance(op, str),
            lambda op: not isinstance(op, str) and op[1] == 0,
        ][kind]
        rules.append(Rule(ctx, f"r{k}", pred, ctx.pick([1, 2, 3, 0, -1]), ctx.chance(0.5)))
    want, stages = list(ops), []
    for r in rules:
        stages.append(list(want))
        want = [x for op in want for x in (r.image(op) if r.pred(op) else [op])]
    ctx.case((ops, [(r.tag, r.arity) for r in rules]), trivial=not ops or not rules)
    got = decompose_operations(iter(ops) if ctx.chance(0.5) else ops, rules if ctx.chance(0.5) else tuple(rules))
    ctx.equal(list(got), want, "rules applied in sequence", ops)
    for r, stage in zip(rules, stages):
        ctx.equal(r.produced, [op for op in stage if r.pred(op)], "production called once per matching operation, in order")
        ctx.equal(list(dict.fromkeys(r.asked)), stage, "each rule asked about the previous rule's output")


@CHECK.scenario(quick=60, thorough=1200, needs=("user rules preserve the unitary",))
def user_rules(ctx):
    """Correct user rules in sequence on real circuits."""
    from zquantum.core.circuits import CNOT, CZ, H, RZ, Z, Circuit
    from zquantum.core.decompositions import U3GateToRotation, decompose_zquantum_circuit

    class SwapToCnot:
        predicate = staticmethod(lambda op: op.gate.name == "SWAP")

        def production(self, op):
            a, b = op.qubit_indices
            return [CNOT(a, b), CNOT(b, a), CNOT(a, b)]

    class CnotToCz:
        predicate = staticmethod(lambda op: op.gate.name == "CNOT")

        def production(self, op):
            a, b = op.qubit_indices
            return (x for x in [H(b), CZ(a, b), H(b)])

    class ZToRz:
        predicate = staticmethod(lambda op: op.gate.name == "Z")

        def production(self, op):
            return [RZ(np.pi)(*op.qubit_indices)]

    class ICancel:
        predicate = staticmethod(lambda op: op.gate.name == "I")

        def production(self, op):
            return []

    n = ctx.ri(2, 4)
    gates = ["SWAP", "CNOT", "Z", "I", "U3", "RX", "H", "CZ"]
    ol = gen.ops(ctx, n, ctx.ri(1, 6) if ctx.chance(0.9) else ctx.ri(20, 60), gates=gates, p_mod=0.0)
    rules = [SwapToCnot(), CnotToCz(), ZToRz(), ICancel(), U3GateToRotation()]
    ctx.rng.shuffle(rules)
    rules = rules[: ctx.ri(1, 5)]
    c = gen.build_circuit(ol, n)
    ctx.case((gen.show(ol), [type(r).__name__ for r in rules]))
    ctx.sample((gen.show(ol), [type(r).__name__ for r in rules]))
    d = decompose_zquantum_circuit(c, rules)
    ctx.equal(d.n_qubits, n, "register kept")
    ctx.check(
        ref.equal_up_to_phase(d.to_unitary() if d.operations else np.eye(2**n), ref.circuit_unitary(ol, n), 1e-6),
        "user rules preserve the unitary", lambda: (gen.show(ol), str(d)),
    )
    names = [o.gate.name for o in d.operations]
    kinds = [type(r).__name__ for r in rules]
    if "SwapToCnot" in kinds:
        ctx.check("SWAP" not in names, "rule applied everywhere")
    if "CnotToCz" in kinds and not ("SwapToCnot" in kinds and kinds.index("SwapToCnot") > kinds.index("CnotToCz")):
        ctx.check("CNOT" not in names, "rule applied to previous rule's output")
