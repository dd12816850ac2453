"""Simulators: state, exact expectation values, distributions, samples, native splitting."""
from collections import Counter

import numpy as np
import sympy
from scipy.stats import binom, chi2

from vlib.alias import independent
from vlib import gen, ref
from vlib.harness import Check

CHECK = Check(
    "C09",
    "a case is one circuit (with multi-phase operations, custom, controlled and daggered gates) with an initial state, operator, "
    "shot numbers, seed and native-support predicate; empty circuits are trivial",
    ["frequencies are compared with a chi-square test at significance 1e-9 per case",
     "registers of 1 to 5 qubits"],
)


def program(ctx, n, count, syms=(), p_sym=0.0, p_phase=0.15):
    """(library operations, reference steps) of a random circuit."""
    from zquantum.core.circuits import MultiPhaseOperation

    cust = [gen.custom_def(ctx) for _ in range(2)]
    libops, steps, shown = [], [], []
    for _ in range(count):
        if ctx.chance(p_phase):
            ps = tuple(gen.param(ctx, syms, p_sym) for _ in range(2**n))
            libops.append(MultiPhaseOperation(ps))
            steps.append(("phase", ps))
            shown.append(("phase", [str(p) for p in ps][:4]))
        else:
            s = gen.spec(ctx, min(n, 3), syms=syms, p_sym=p_sym, customs=cust)
            q = tuple(ctx.rng.sample(range(n), ref.spec_qubits(s)))
            libops.append(gen.build_gate(s)(*q))
            steps.append((s, q))
            shown.append((gen.show_spec(s), q))
    return libops, steps, shown


def run_ref(steps, v, n, env=None):
    v = np.array(v, dtype=complex)
    for a, b in steps:
        if a == "phase":
            v = v * np.exp(1j * np.array([float(ref.num(p, env)) for p in b]))
        else:
            v = ref.apply_matrix(ref.spec_matrix(a, env), b, v.reshape(-1, 1), n).reshape(-1)
    return v


def native_sim(ctx, pred, log):
    """A simulator with its own native kernel, which reports what it was given."""
    from zquantum.core.interfaces.backend import QuantumSimulator
    from zquantum.core.measurement import Measurements, sample_from_wavefunction

    class Sim(QuantumSimulator):
        def __init__(self):
            super().__init__()

        def _get_wavefunction_from_native_circuit(self, circuit, initial_state):
            log.append(circuit)
            v = np.array(initial_state, dtype=complex)
            for op in circuit.operations:
                v = np.asarray(op.lifted_matrix(circuit.n_qubits)).astype(complex) @ v if hasattr(op, "lifted_matrix") else np.asarray(op.apply(v))
            return v

        def run_circuit_and_measure(self, circuit, n_samples):
            return Measurements(sample_from_wavefunction(self.get_wavefunction(circuit), n_samples, 3))

    if pred is not None:  # otherwise the default decides
        Sim.is_natively_supported = lambda self, operation: pred(operation)
    return Sim()


@CHECK.scenario(quick=220, thorough=6000, needs=("wavefunction=reference", "initial state kept"))
def state(ctx):
    from zquantum.core.circuits import Circuit
    from zquantum.core.symbolic_simulator import SymbolicSimulator

    n = ctx.ri(1, 5)
    libops, steps, shown = program(ctx, n, ctx.ri(0, 8))
    c = gen.retyped(ctx, Circuit(libops, n_qubits=n))
    v = None
    if ctx.chance(0.6):
        v = ref.random_state(ctx.np, n)
        if ctx.chance(0.3):
            v = np.zeros(2**n, dtype=complex)
            v[ctx.ri(0, 2**n - 1)] = ctx.pick([1, -1, 1j])
    ctx.case((shown, None if v is None else np.round(v, 5).tolist()), trivial=not steps)
    ctx.sample(shown)
    init = np.eye(2**n)[0] if v is None else v
    keep = init.copy()
    arg = v if v is None or ctx.chance(0.5) else list(v)
    want = run_ref(steps, init, n)
    sim = SymbolicSimulator(seed=ctx.pick([None, 0, 5]))
    for rep in range(2):
        wf = sim.get_wavefunction(c) if arg is None else sim.get_wavefunction(c, arg)
        ctx.close(wf.amplitudes, want, "wavefunction=reference", atol=1e-7, detail=shown)
    ctx.check(np.array_equal(init, keep) and (arg is None or np.array_equal(arg, keep)), "initial state kept")
    ctx.close(wf.get_probabilities(), np.abs(want) ** 2, "probabilities", atol=1e-7)
    if n < 4:
        independent(ctx, "wavefunctions", (lambda: sim.get_wavefunction(c)) if arg is None else (lambda: sim.get_wavefunction(c, arg)), *([] if arg is None else [arg]))


@CHECK.scenario(quick=160, thorough=4000, needs=("native parts equal whole", "native runs counted"))
def native_split(ctx):
    from zquantum.core.circuits import Circuit, GateOperation
    from zquantum.core.symbolic_simulator import SymbolicSimulator

    n = ctx.ri(1, 4)
    libops, steps, shown = program(ctx, n, ctx.ri(0, 8), p_phase=0.25)
    c = gen.retyped(ctx, Circuit(libops, n_qubits=n))
    mode = ctx.ri(0, 6)
    tab = {}

    def rnd(op):
        return tab.setdefault(str(op), ctx.chance(0.5))

    pred = [
        lambda op: True, lambda op: False, lambda op: isinstance(op, GateOperation),
        lambda op: isinstance(op, GateOperation) and len(op.qubit_indices) == 1, rnd,
        lambda op: not isinstance(op, GateOperation),
        None,
    ][mode]
    log = []
    sim = native_sim(ctx, pred, log)
    flags = [bool((pred or (lambda op: isinstance(op, GateOperation)))(o)) for o in libops]
    ctx.case((shown, flags), trivial=not steps)
    init = ref.random_state(ctx.np, n) if ctx.chance(0.5) else None
    want = run_ref(steps, np.eye(2**n)[0] if init is None else init, n)
    got = sim.get_wavefunction(c, init)
    ctx.close(got.amplitudes, want, "native parts equal whole", atol=1e-7, detail=(shown, flags))
    runs, cur = [], None
    for o, f in zip(libops, flags):
        if f:
            if cur is None:
                cur = []
                runs.append(cur)
            cur.append(o)
        else:
            cur = None
    ctx.equal([list(s.operations) for s in log], runs, "native parts seen by the native simulator", shown)
    ctx.check(all(s.n_qubits == n for s in log), "native parts keep the register")
    ctx.equal((sim.number_of_circuits_run, sim.number_of_jobs_run), (len(runs), len(runs)), "native runs counted", shown)
    other = SymbolicSimulator().get_wavefunction(c, init)
    ctx.close(other.amplitudes, got.amplitudes, "simulators agree", atol=1e-7)


def rand_terms(ctx, n, letters="XYZ", k=None):
    out = {}
    for _ in range(ctx.ri(0, 5) if k is None else k):
        qs = sorted(ctx.rng.sample(range(n), ctx.ri(0, n)))
        t = tuple((q, ctx.pick(letters)) for q in qs)
        out[t] = ctx.pick([1.0, -1.0, 0.5, ctx.rng.uniform(-3, 3), 1, -2])
    return out


@CHECK.scenario(quick=200, thorough=5000, needs=("exact expectation values",))
def expectations(ctx):
    from zquantum.core.circuits import Circuit
    from zquantum.core.openfermion import IsingOperator, QubitOperator
    from zquantum.core.symbolic_simulator import SymbolicSimulator

    n = ctx.ri(1, 5)
    libops, steps, shown = program(ctx, n, ctx.ri(0, 7))
    c = gen.retyped(ctx, Circuit(libops, n_qubits=n))
    ising = ctx.chance(0.4)
    terms = rand_terms(ctx, n, "Z" if ising else "XYZ")
    op = (IsingOperator if ising else QubitOperator)()
    for t, co in terms.items():
        op.terms[t] = co
    ctx.case((shown, terms), trivial=not terms)
    ctx.sample((shown, terms))
    psi = run_ref(steps, np.eye(2**n)[0], n)
    log = []
    sim = SymbolicSimulator() if ctx.chance(0.5) else native_sim(ctx, lambda o: ctx.chance(0.7), log)
    before = dict(op.terms)
    ev = sim.get_exact_expectation_values(c, op)
    want = [co * (psi.conj() @ ref.pauli_term_matrix(t, n) @ psi).real for t, co in terms.items()]
    ctx.close(ev.values, np.array(want), "exact expectation values", atol=1e-7, detail=(shown, terms))
    ctx.check(not np.iscomplexobj(np.asarray(ev.values)), "exact expectation values are real")
    ctx.equal(dict(op.terms), before, "operator unchanged")
    if n < 4:
        independent(ctx, "exact expectation values", lambda: (native_sim if log else lambda *_: SymbolicSimulator())(ctx, lambda o: True, []).get_exact_expectation_values(c, op), op)
        independent(ctx, "exact expectation values of one simulator", lambda s=SymbolicSimulator(): s.get_exact_expectation_values(c, op), op)


def freq_ok(ctx, bits, p, n):
    """Chi-square over pooled cells."""
    cnt = np.zeros(2**n)
    for b in bits:
        cnt[ref.index_of(b)] += 1
    ns = len(bits)
    if np.any(cnt[p < 1e-12] > 0):
        return False, "outcome of zero probability"
    exp = p * ns
    big = exp >= 5
    obs_c, exp_c = list(cnt[big]), list(exp[big])
    if (~big).any() and exp[~big].sum() > 1e-9:
        r = exp[~big].sum()
        if r >= 5:
            obs_c.append(cnt[~big].sum())
            exp_c.append(r)
    if len(exp_c) < 2:
        return True, ""
    o, e = np.array(obs_c), np.array(exp_c)
    x = ((o - e) ** 2 / e).sum()
    pv = chi2.sf(x, len(e) - 1)
    return pv > 1e-9, f"chi2 {x} df {len(e) - 1} p {pv}"


@CHECK.scenario(quick=160, thorough=3000, needs=("shots exact", "samples follow the state", "seeded runs reproducible"))
def sampling(ctx):
    from zquantum.core.circuits import Circuit, X
    from zquantum.core.symbolic_simulator import SymbolicSimulator

    n = ctx.ri(1, 5)
    libops, steps, shown = program(ctx, n, ctx.ri(0, 6))
    if ctx.chance(0.3):
        # asymmetric basis states: order of bits visible in every shot
        for q in range(n):
            if ctx.chance(0.5):
                libops.insert(0, X(q))
                steps.insert(0, (("b", "X", ()), (q,)))
    c = gen.retyped(ctx, Circuit(libops, n_qubits=n))
    p = np.abs(run_ref(steps, np.eye(2**n)[0], n)) ** 2
    p[p < 1e-12] = 0
    shots = ctx.pick([1, 2, 3, 17, 100, 2000])
    seed = ctx.pick([None, 0, 1, 12345])
    ctx.case((shown, shots, seed), trivial=False)

    def calls(s):
        sim = SymbolicSimulator(seed=s)
        return [sim.run_circuit_and_measure(c, shots).bitstrings, sim.run_circuit_and_measure(c, shots + 1).bitstrings,
                sim.get_measurement_outcome_distribution(c, shots).distribution_dict], sim

    out, sim = calls(seed)
    for k, bits in enumerate(out[:2]):
        ctx.equal(len(bits), shots + k, "shots exact")
        ctx.check(all(len(b) == n and set(b) <= {0, 1} for b in bits), "one bit per qubit")
        ok, why = freq_ok(ctx, bits, p / p.sum(), n)
        ctx.check(ok, "samples follow the state", lambda: (why, shown, shots))
    d = out[2]
    ctx.check(abs(sum(d.values()) - 1) < 1e-9 and all(abs(v * shots - round(v * shots)) < 1e-6 for v in d.values()), "sampled distribution made of shots")
    ctx.check(all(p[ref.index_of(k)] > 0 for k in d), "sampled distribution support")
    if seed is not None:
        ctx.equal(calls(seed)[0], out, "seeded runs reproducible")
    ex = sim.get_measurement_outcome_distribution(c).distribution_dict
    ctx.close([ex.get(ref.bits_of(i, n), 0.0) for i in range(2**n)], p, "exact distribution", atol=1e-7, detail=shown)
    ctx.equal({len(k) for k in ex}, {n}, "distribution keys")
    bd = sim.get_bitstring_distribution(c)
    ctx.close([bd.distribution_dict.get(ref.bits_of(i, n), 0.0) for i in range(2**n)], p, "bitstring distribution", atol=1e-7)
    for bad in (0, -3):
        ctx.raises(ValueError, lambda: sim.run_circuit_and_measure(c, bad), "no shots rejected")


@CHECK.scenario(quick=24, thorough=400, needs=("rare outcomes drawn",))
def rare(ctx):
    """Outcomes of small probability come up in proportion, however small."""
    from zquantum.core.circuits import CNOT, RX, RY, Circuit, X
    from zquantum.core.symbolic_simulator import SymbolicSimulator

    n = ctx.ri(1, 3)
    small = [ctx.pick([3e-4, 1e-3, 2e-3, 4e-3, 8e-3, 2e-2]) for _ in range(n)]
    ops, steps = [], []

    def add(op, step):
        ops.append(op)
        steps.append(step)

    for q, s in enumerate(small):
        g = ctx.pick(["RX", "RY"])
        t = 2 * np.arcsin(np.sqrt(s))
        add((RX if g == "RX" else RY)(t)(q), (("b", g, (t,)), (q,)))
        if ctx.chance(0.4):
            add(X(q), (("b", "X", ()), (q,)))
        if q and ctx.chance(0.4):
            a, b = ctx.pick([(q - 1, q), (q, q - 1)])
            add(CNOT(a, b), (("b", "CNOT", ()), (a, b)))
    c = Circuit(ops, n_qubits=n)
    p = np.abs(run_ref(steps, np.eye(2**n)[0], n)) ** 2
    shots = ctx.pick([60000, 150000])
    ctx.case((small, str(c), shots))
    sim = SymbolicSimulator(seed=ctx.ri(0, 10**6))
    if ctx.chance(0.6):
        cnt = Counter(sim.run_circuit_and_measure(c, shots).bitstrings)
    else:
        d = sim.get_measurement_outcome_distribution(c, shots).distribution_dict
        cnt = {b: round(v * shots) for b, v in d.items()}
    ctx.equal(sum(cnt.values()), shots, "shots exact")
    for i in range(2**n):
        if p[i] < 1e-9:
            continue
        k = cnt.get(ref.bits_of(i, n), 0)
        tail = 2 * min(binom.cdf(k, shots, min(p[i], 1.0)), binom.sf(k - 1, shots, min(p[i], 1.0)))
        ctx.check(tail > 1e-11, "rare outcomes drawn", lambda: (ref.bits_of(i, n), k, p[i] * shots, str(c)))


@CHECK.scenario(quick=60, thorough=1200, needs=("symbolic state", "symbol map sampling"))
def symbolic(ctx):
    from zquantum.core.circuits import Circuit
    from zquantum.core.symbolic_simulator import SymbolicSimulator

    n = ctx.ri(1, 3)
    syms = gen.symbols(ctx, ctx.ri(1, 3))
    while True:
        libops, steps, shown = program(ctx, n, ctx.ri(1, 4), syms=syms, p_sym=0.8, p_phase=0.0)
        # products of several symbolic RH or U3 matrices take sympy minutes
        heavy = [sum(g in str(s[0]) for g in ("RH", "U3")) for op, s in zip(libops, shown) if op.free_symbols]
        if sum(heavy) <= 1 and len(heavy) <= 3:
            break
    c = gen.retyped(ctx, Circuit(libops, n_qubits=n))
    env = gen.env(ctx, syms)
    ctx.case((shown, env))
    sim = SymbolicSimulator(seed=2)
    want = run_ref(steps, np.eye(2**n)[0], n, env)
    wf = sim.get_wavefunction(c)
    got = [ref.num(a, env) for a in wf.amplitudes]
    ctx.close(got, want, "symbolic state", atol=1e-6, detail=shown)
    ctx.check(set(wf.free_symbols) <= set(syms), "symbols of the state")
    ctx.close(sim.get_wavefunction(c.bind(env)).amplitudes, want, "bound circuit state", atol=1e-6)
    bits = sim.run_circuit_and_measure(c, 50, symbol_map=env).bitstrings
    ok, why = freq_ok(ctx, bits, np.abs(want) ** 2 * (np.abs(want) ** 2 > 1e-12), n)
    ctx.check(ok and len(bits) == 50, "symbol map sampling", (why, shown))
    ctx.equal(bits, SymbolicSimulator(seed=2).run_circuit_and_measure(c.bind(env), 50).bitstrings, "symbol map = bound circuit")
    # the same circuit and simulator with other values
    if syms:
        env2 = {s: env[s] + ctx.pick([0.0, 1.1, np.pi]) for s in env}
        for e in (env2, env):
            again = sim.run_circuit_and_measure(c, 50, dict(e)).bitstrings
            ctx.equal(again, SymbolicSimulator(seed=2).run_circuit_and_measure(c.bind(e), 50).bitstrings, "symbol map = bound circuit, with other values", lambda: (shown, env, env2))
    if wf.free_symbols:
        ctx.raises(ValueError, lambda: sim.run_circuit_and_measure(c, 5), "unbound circuits cannot be sampled")


@CHECK.scenario(quick=120, thorough=2500, needs=("state in a history", "expectations in a history", "distribution in a history", "runs counted in a history"))
def histories(ctx):
    """Successive calls on one simulator, of circuits, operators and initial states that change in between."""
    from zquantum.core.circuits import Circuit
    from zquantum.core.openfermion import IsingOperator, QubitOperator
    from zquantum.core.symbolic_simulator import SymbolicSimulator

    n = ctx.ri(1, 3)
    log = []
    own = ctx.chance(0.3)
    sim = native_sim(ctx, lambda o: True, log) if own else SymbolicSimulator(seed=ctx.pick([None, 4]))
    twins = [ref.CustomDef("twin", 1, (), m) for m in (sympy.Matrix([[0, 1], [1, 0]]), sympy.eye(2), sympy.Matrix([[0, -sympy.I], [sympy.I, 0]]))]

    def fresh():
        libops, steps, _ = program(ctx, n, ctx.ri(1, 4), p_phase=0.05)
        if ctx.chance(0.4):
            s = ("c", ctx.pick(twins), ())
            k, q = ctx.ri(0, len(libops)), ctx.ri(0, n - 1)
            libops.insert(k, gen.build_gate(s)(q))
            steps.insert(k, (s, (q,)))
        return [Circuit(libops, n_qubits=n), steps]

    pool = [fresh() for _ in range(ctx.ri(1, 2))]
    ising = ctx.chance(0.3)
    op = (IsingOperator if ising else QubitOperator)()
    op.terms.update(rand_terms(ctx, n, "Z" if ising else "XYZ"))
    v = ref.random_state(ctx.np, n)
    zero = np.eye(2**n)[0]
    done, runs = [], 0
    for _ in range(ctx.ri(3, 9)):
        entry = ctx.pick(pool)
        change = ctx.pick(["none", "none", "replace", "replace", "append", "remove", "circuit", "alike", "near"])
        c, steps = entry
        if change in ("replace", "append"):
            libops, new, _ = program(ctx, n, 1, p_phase=0.0)
            if change == "append" or not steps:
                c.operations.append(libops[0])
                steps.append(new[0])
            else:
                k = ctx.ri(0, len(steps) - 1)
                c.operations[k], steps[k] = libops[0], new[0]
        elif change == "remove" and len(steps) > 1:
            k = ctx.ri(0, len(steps) - 1)
            del c.operations[k], steps[k]
        elif change == "circuit":
            entry[:] = fresh()
        elif change == "alike":  # an equal circuit, or one which only prints alike
            ops = [gen.build_gate(s)(*q) if s != "phase" else o for o, (s, q) in zip(c.operations, steps)]
            new = list(steps)
            for k, (s, q) in enumerate(new):
                if s != "phase" and s[0] == "c" and s[1].name == "twin":
                    t = ("c", ctx.pick(twins), ())
                    new[k], ops[k] = (t, q), gen.build_gate(t)(*q)
            entry[:] = [Circuit(ops, n_qubits=n), new]
        elif change == "near":  # another circuit object of the same operations
            entry[:] = [Circuit(list(c.operations), n_qubits=n), list(steps)]
        c, steps = entry
        call = ctx.pick(["wavefunction", "initial", "exact", "exact", "distribution", "sample"])
        done.append((change, call))
        psi = run_ref(steps, v if call == "initial" else zero, n)
        d = lambda: (done, str(c))
        if call == "wavefunction":
            w = sim.get_wavefunction(c)
            ctx.close(w.amplitudes, psi, "state in a history", atol=1e-7, detail=d)
            if ctx.chance(0.3):
                for i in range(2**n):
                    w[i] = -w[i]  # the caller's own wavefunction
        elif call == "initial":
            start = v.copy()
            ctx.close(sim.get_wavefunction(c, start).amplitudes, psi, "state in a history", atol=1e-7, detail=d)
            start[:] = 0
            if ctx.chance(0.5):
                v = ref.random_state(ctx.np, n)
        elif call == "exact":
            if ctx.chance(0.5):
                t = ctx.pick(list(op.terms)) if op.terms and ctx.chance(0.7) else ((ctx.ri(0, n - 1), "Z"),)
                op.terms[t] = ctx.pick([1.0, -2.0, 0.5])
            ev = sim.get_exact_expectation_values(c, op)
            want = [co * (psi.conj() @ ref.pauli_term_matrix(t, n) @ psi).real for t, co in op.terms.items()]
            ctx.close(ev.values, np.array(want), "expectations in a history", atol=1e-7, detail=d)
            if len(ev.values):
                ev.values[:] = 9.0
        elif call == "distribution":
            p = np.abs(psi) ** 2
            ex = sim.get_measurement_outcome_distribution(c).distribution_dict
            ctx.close([ex.get(ref.bits_of(i, n), 0.0) for i in range(2**n)], p, "distribution in a history", atol=1e-7, detail=d)
            ex.clear()
        else:
            m = sim.run_circuit_and_measure(c, 20)
            p = np.abs(psi) ** 2
            ctx.check(len(m.bitstrings) == 20 and all(p[ref.index_of(b)] > 1e-12 for b in m.bitstrings), "distribution in a history", d)
        runs += 1
        ctx.equal((sim.number_of_circuits_run, sim.number_of_jobs_run), (runs, runs), "runs counted in a history", done)
    ctx.case((n, own, done, [str(e[0]) for e in pool]))
    ctx.sample(done)
