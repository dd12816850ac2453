"""Time evolution: term exponentials, product formula, derivative circuits."""
import numpy as np
import sympy

from vlib.alias import independent
from vlib import gen, ref
from vlib.harness import Check

CHECK = Check(
    "C18",
    "a case is one Pauli-sum Hamiltonian with a time, a Trotter order, a state and an observable; Hamiltonians made "
    "of a constant only are trivial",
    ["Hermitian operators of up to 6 qubits and 5 terms; Trotter orders up to 6; evaluated in double precision"],
)


def coefficient(ctx):
    k = ctx.ri(0, 9)
    if k < 4:
        return ctx.rng.uniform(-2, 2)
    if k < 6:
        return ctx.pick([1, -1, 2, 0.5, -0.25, 3])
    if k == 6:
        return complex(ctx.rng.uniform(-2, 2), 0)
    if k == 7:
        return np.float64(ctx.rng.uniform(-2, 2))
    if k == 8:
        return ctx.pick([1e-6, -1e-8, 30.0, 1e-3, 4e-7])
    return ctx.pick([1.0, -1.0, 1e-9])


def moment(ctx):
    k = ctx.ri(0, 5)
    if k < 3:
        return ctx.rng.uniform(-3, 3)
    return ctx.pick([0, 1, -2, 0.0, np.pi, -np.pi / 2, np.float64(0.37), 17.5, 1e-7, 1234.5])


def terms(ctx, n, commuting=False, most=5):
    """Ordered list of (pauli term, coefficient), every term with another set of factors."""
    res = {}
    for _ in range(ctx.ri(1, most) if most == 1 or ctx.chance(0.97) else ctx.ri(9, 16)):
        size = ctx.ri(0, n) if ctx.chance(0.8) else ctx.pick([0, n])
        where = sorted(ctx.rng.sample(range(n), size))
        res[tuple((q, ctx.pick("XYZ") if not commuting else "Z") for q in where)] = coefficient(ctx)
    return list(res.items())


def operator(ts):
    from zquantum.core.openfermion import QubitOperator

    op = QubitOperator()
    for t, c in ts:
        op.terms[t] = c
    return op


def step(t, angle, n):
    p = ref.pauli_term_matrix(t, n)
    return np.cos(angle) * np.eye(2**n) - 1j * np.sin(angle) * p


def product(ts, time, order, n):
    """The defined product, the constant being a phase left out."""
    u = np.eye(2**n, dtype=complex)
    for _ in range(order):
        for t, c in ts:
            if t:
                u = step(t, complex(c).real * time / order, n) @ u
    return u


def derivative(ts, time, order, n):
    """d/dt of the product, term by term."""
    factors = [(t, complex(c).real / order) for _ in range(order) for t, c in ts if t]
    mats = [step(t, c * time, n) for t, c in factors]
    after = [np.eye(2**n, dtype=complex)]
    for m in reversed(mats):
        after.append(after[-1] @ m)
    after.reverse()
    before = np.eye(2**n, dtype=complex)
    total = np.zeros((2**n, 2**n), dtype=complex)
    for k, (t, c) in enumerate(factors):
        total += after[k + 1] @ (-1j * c * ref.pauli_term_matrix(t, n)) @ mats[k] @ before
        before = mats[k] @ before
    return total, before


def wide(circuit, n):
    from zquantum.core.circuits import Circuit

    return Circuit(circuit.operations, n_qubits=n)


def unitary(ctx, circuit, n):
    """What the circuit does to every basis state, computed from its gates' own parameters."""
    ctx.check(circuit.n_qubits <= n, "circuit stays on the qubits of the operator", (circuit, n))
    u = wide(circuit, n).to_unitary()
    return np.array(u, dtype=complex)


def frozen(op):
    return list(op.terms.items())


@CHECK.scenario(quick=260, thorough=5000, needs=("term exponential",))
def single_term(ctx):
    from zquantum.core.evolution import time_evolution, time_evolution_for_term
    from zquantum.core.openfermion import QubitOperator

    n = ctx.ri(1, 6)
    (t, c), = terms(ctx, n, most=1)
    time = moment(ctx)
    if c and ctx.chance(0.15):  # a small coefficient for a long time, or the other way round
        time = ctx.rng.uniform(-3, 3) / complex(c).real
        if ctx.chance(0.5):
            k = 10.0 ** ctx.ri(-9, 9)
            c, time = c * k, time / k
    ctx.case((t, c, time), trivial=not t)
    op = QubitOperator(t, c)
    kept = frozen(op)
    expected = product([(t, c)], time, 1, n)
    via = ctx.pick([time_evolution_for_term, time_evolution])
    symbolic = ctx.chance(0.4)
    if symbolic:
        s = sympy.Symbol(ctx.pick(["t", "theta", "time"]))
        form = ctx.pick([s, 2 * s, s / 3 + 1, -s, s**2])
        # value of s which makes the form evaluate to a time of ours
        v = float(time)
        time = float(form.subs({s: v}))
        expected = product([(t, c)], time, 1, n)
        circ = via(op, form)
        if t and complex(c).real != 0:
            ctx.check(set(circ.free_symbols) == {s}, "symbolic time is the free symbol", (circ, form))
        circ = circ.bind({s: v})
    else:
        circ = via(op, time)
    ctx.sample((op, time, circ))
    tol = 1e-7 + 1e-13 * abs(time * complex(c).real)
    ctx.close(unitary(ctx, circ, n), expected, "term exponential", atol=tol, detail=lambda: (op, time, circ))
    ctx.check(frozen(op) == kept, "operator left as it was", (op, kept))


def gate_matrix(o):
    return np.array(o.gate.matrix, dtype=complex)


@CHECK.scenario(quick=40, thorough=800, needs=("exponential of a long term", "product of long terms"))
def long_terms(ctx):
    """Terms on many qubits, acting on a state (their matrices would be too large)."""
    from zquantum.core.evolution import time_evolution, time_evolution_for_term
    from zquantum.core.openfermion import QubitOperator

    n = ctx.ri(7, 12)
    ts = {}
    for _ in range(ctx.ri(1, 3)):
        where = sorted(ctx.rng.sample(range(n), ctx.ri(5, n)))
        letters = ctx.pick(["XYZ", "XY", "Y", "X", "Z"])
        ts[tuple((q, ctx.pick(letters)) for q in where)] = ctx.rng.uniform(-2, 2)
    time, order = ctx.rng.uniform(-3, 3), ctx.pick([1, 1, 2])
    ctx.case((ts, time, order))
    start = ref.random_state(ctx.np, n)
    pauli = {"X": np.array([[0, 1], [1, 0]]), "Y": np.array([[0, -1j], [1j, 0]]), "Z": np.diag([1, -1])}

    def acted(t, angle, v):
        w = v
        for q, k in t:
            w = ref.apply_matrix(pauli[k].astype(complex), (q,), w, n)
        return np.cos(angle) * v - 1j * np.sin(angle) * w

    def run(circuit):
        ctx.check(circuit.n_qubits <= n, "circuit stays on the qubits of the operator", lambda: (circuit, n))
        v = start
        for o in circuit.operations:
            v = ref.apply_matrix(gate_matrix(o), o.qubit_indices, v, n)
        return v

    t, c = ctx.pick(list(ts.items()))
    ctx.close(run(time_evolution_for_term(QubitOperator(t, c), time)), acted(t, c * time, start), "exponential of a long term", atol=1e-8, detail=lambda: (t, c, time))
    want = start
    for _ in range(order):
        for t, c in ts.items():
            want = acted(t, c * time / order, want)
    ctx.close(run(time_evolution(operator(list(ts.items())), time, trotter_order=order)), want, "product of long terms", atol=1e-8, detail=lambda: (ts, time, order))


@CHECK.scenario(quick=110, thorough=2500, needs=("product formula", "exact for commuting terms"))
def trotter(ctx):
    from zquantum.core.evolution import time_evolution

    n = ctx.ri(1, 4)
    commuting = ctx.chance(0.3)
    ts = terms(ctx, n, commuting)
    order = ctx.pick([1, 1, 2, 3, 4, 6, 7, 9, 17, 32]) if ctx.chance(0.5) else ctx.ri(1, 6)
    time = moment(ctx)
    ctx.case((ts, time, order), trivial=not any(t for t, _ in ts))
    op = operator(ts)
    kept = frozen(op)
    if ctx.chance(0.35):
        s = sympy.Symbol("t")
        circ = time_evolution(op, s, trotter_order=order).bind({s: time})
    else:
        circ = time_evolution(op, time, "Trotter", order)
    ctx.sample((op, time, order))
    u = unitary(ctx, circ, n)
    ctx.close(u, product(ts, time, order, n), "product formula", atol=1e-6, detail=lambda: (op, time, order, circ))
    if commuting:
        h = sum((complex(c).real * ref.pauli_term_matrix(t, n) for t, c in ts if t), np.zeros((2**n, 2**n), dtype=complex))
        ctx.close(u, ref.expi(h, float(time)), "exact for commuting terms", atol=1e-6, detail=lambda: (op, time, order))
    ctx.check(frozen(op) == kept, "operator left as it was", (op, kept))
    if ctx.chance(0.15):
        ctx.raises(ValueError, lambda: time_evolution(op, time, method=ctx.pick(["trotter", "Suzuki", ""])), "other method refused")


@CHECK.scenario(quick=60, thorough=1200, needs=("second call like the first",))
def successive(ctx):
    """Calls which look like an earlier one: terms in another order, symbols and numbers that print alike, changed circuits."""
    from zquantum.core.evolution import time_evolution, time_evolution_derivatives

    n = ctx.ri(1, 3)
    ts = terms(ctx, n)
    order = ctx.pick([1, 1, 2, 3])
    name = ctx.pick(["t", "0.5"])
    times = [sympy.Symbol(name), sympy.Symbol(name, real=True), 0.5, 0.5 + ctx.pick([0.0, 1e-3]), np.float64(0.5)]
    env = {times[0]: 0.31, times[1]: -1.7}
    ctx.case((ts, order, name), trivial=not any(t for t, _ in ts))
    for _ in range(ctx.ri(2, 4)):
        now = ctx.rng.sample(ts, len(ts)) if ctx.chance(0.6) else ts
        if ctx.chance(0.3):
            now = [(t, c * (1 + 1e-3)) for t, c in now]
        time = ctx.pick(times)
        circ = time_evolution(operator(now), time, trotter_order=order)
        acts = any(t and complex(c).real != 0 for t, c in now)
        if isinstance(time, sympy.Basic) and acts:
            ctx.check(set(circ.free_symbols) == {time}, "second call like the first: symbols", lambda: (circ, sympy.srepr(time)))
        u = unitary(ctx, circ.bind(env), n)
        ctx.close(u, product(now, float(env.get(time, time)), order, n), "second call like the first", atol=1e-6, detail=lambda: (now, time, order, circ))
        circ.operations.clear()
        if not isinstance(time, sympy.Basic):
            cs, fs = time_evolution_derivatives(operator(now), time, trotter_order=order)
            ctx.equal(len(cs), len(fs), "second call like the first: derivatives")
            k = len(cs)
            cs.clear()
            fs.clear()
            again = time_evolution_derivatives(operator(now), time, trotter_order=order)
            ctx.equal((len(again[0]), len(again[1])), (k, k), "second call like the first: derivatives")


@CHECK.scenario(quick=110, thorough=2500, needs=("derivative of the expectation", "derivative at higher order"))
def derivatives(ctx):
    from zquantum.core.evolution import time_evolution_derivatives

    n = ctx.ri(1, 3)
    ts = terms(ctx, n, most=4)
    many = ctx.chance(0.08)
    if many:
        n, got = ctx.ri(2, 3), {}
        while len(got) < 10:
            got.update(terms(ctx, n, most=4))
        ts = list(got.items())
    if ctx.chance(0.1):  # a term which is there, but does nothing
        k = ctx.ri(0, len(ts) - 1)
        ts[k] = (ts[k][0], ctx.pick([0, 0.0]))
    order = 1 if many else ctx.pick([1, 1, 2, 3, 4])
    time = moment(ctx)
    ctx.case((ts, time, order), trivial=not any(t for t, _ in ts))
    op = operator(ts)
    kept = frozen(op)
    if ctx.chance(0.35):
        s = sympy.Symbol("t")
        circuits, factors = time_evolution_derivatives(op, s, trotter_order=order)
        circuits = [c.bind({s: time}) for c in circuits]
    else:
        circuits, factors = time_evolution_derivatives(op, time, "Trotter", order)
    ctx.check(len(circuits) == len(factors), "one factor for every circuit", (len(circuits), len(factors)))
    if ctx.chance(0.3):
        independent(ctx, "derivatives", lambda: time_evolution_derivatives(op, time, trotter_order=order)[1], op)
    ctx.check(all(np.imag(f) == 0 and np.isreal(f) and not isinstance(f, complex) for f in factors), "real factors", factors)
    psi = ref.random_state(ctx.np, n)
    a = ctx.np.normal(size=(2**n, 2**n)) + 1j * ctx.np.normal(size=(2**n, 2**n))
    a = a + a.conj().T
    du, u = derivative(ts, time, order, n)
    expected = 2 * np.real(np.vdot(u @ psi, a @ (du @ psi)))
    got = 0.0
    for c, f in zip(circuits, factors):
        v = unitary(ctx, c, n) @ psi
        got += f * np.real(np.vdot(v, a @ v))
    ctx.sample((op, time, order, got, expected))
    scale = 1 + sum(abs(complex(c).real) for _, c in ts) * np.abs(a).sum()
    ctx.check(
        abs(got - expected) <= 1e-7 * scale, "derivative of the expectation", lambda: (op, time, order, got, expected)
    )
    if order > 1:
        ctx.event("derivative at higher order")
    ctx.check(frozen(op) == kept, "operator left as it was", (op, kept))


@CHECK.scenario(quick=40, thorough=600, needs=("evolution without terms",))
def degenerate(ctx):
    from zquantum.core.evolution import time_evolution, time_evolution_derivatives, time_evolution_for_term
    from zquantum.core.openfermion import QubitOperator

    n = ctx.ri(1, 3)
    time, order = moment(ctx), ctx.ri(1, 4)
    op = ctx.pick([QubitOperator(), QubitOperator((), 1.5), QubitOperator((), -2)])
    ctx.case((repr(op), time, order, n))
    ctx.close(unitary(ctx, time_evolution(op, time, trotter_order=order), n), np.eye(2**n), "evolution without terms")
    circuits, factors = time_evolution_derivatives(op, time, trotter_order=order)
    ctx.check(len(circuits) == len(factors), "one factor for every circuit", (circuits, factors))
    psi = ref.random_state(ctx.np, n)
    a = ctx.np.normal(size=(2**n, 2**n))
    a = a + a.T
    tot = 0
    for c, f in zip(circuits, factors):
        v = unitary(ctx, c, n) @ psi
        tot += f * np.vdot(v, a @ v)
    ctx.close(tot, 0, "derivative without terms")
    sym = QubitOperator("X0", sympy.Symbol("g")) + QubitOperator("Z0 Z1", 0.5)
    ctx.raises(ValueError, lambda: time_evolution_derivatives(sym, time, trotter_order=order), "symbolic coefficients refused")
    for f in (time_evolution, time_evolution_derivatives):
        ctx.raises(ValueError, lambda: f(op + QubitOperator("X0"), time, method=ctx.pick(["trotter", "Exact", ""])), "other methods refused")
    several = operator(terms(ctx, 3, most=4)) + QubitOperator("X0 Z1", 0.7) + QubitOperator("Y2", 0.1)
    ctx.raises(ValueError, lambda: time_evolution_for_term(several, time), "several terms refused as one")
