"""Estimators: one correct list of expectation values per task, in task order."""
import numpy as np
import sympy

from checks.C14 import coeff, expect, frozen, lib_state, pauli_op, ref_state
from vlib.alias import current, separate
from vlib import gen, ref
from vlib.harness import Check

CHECK = Check(
    "C15",
    "a case is one list of estimation tasks estimated with one backend (or one list of parameterised tasks with symbol maps); "
    "empty lists are trivial",
    ["samples are observed at the backend's public measurement method; simulators are the library's, devices are stand-ins"],
)


def diag_op(ctx, n, kmax=5, cls=None):
    from zquantum.core.openfermion import IsingOperator, QubitOperator

    cls = cls or ctx.pick([IsingOperator, IsingOperator, QubitOperator])
    op = cls()
    for _ in range(ctx.ri(1, kmax)):
        t = tuple((q, "Z") for q in sorted(ctx.rng.sample(range(n), ctx.ri(0 if ctx.chance(0.4) else 1, n))))
        if t not in op.terms:
            op += cls(t, coeff(ctx))
    return op


def tasks_of(ctx, k, exact=False, nmax=4):
    from zquantum.core.interfaces.estimation import EstimationTask
    from zquantum.core.openfermion import IsingOperator, QubitOperator

    if k > 2 and ctx.chance(0.05):
        k = ctx.ri(15, 40)
        ctx.event("many tasks")
    tasks, recs = [], []
    for i in range(k):
        n = ctx.ri(1, nmax)
        ol = gen.ops(ctx, n, ctx.ri(0 if exact else 1, 6))
        kind = ctx.rng.random()
        if kind < 0.25:
            op = ctx.pick([IsingOperator, QubitOperator])((), coeff(ctx))
        elif exact and kind < 0.7:
            op, _ = pauli_op(ctx, n)
        else:
            op = diag_op(ctx, n)
        shots = ctx.pick([None, 0, 5, 20]) if exact else ctx.pick([0, 1, 2, 3, 7, 20, 50]) if kind > 0.25 else ctx.pick([None, 0, 1, 100])
        tasks.append(EstimationTask(op, gen.retyped(ctx, gen.build_circuit(ol, n)), shots))
        recs.append((ol, n))
    if k and ctx.chance(0.3):  # a task which agrees with another one in all but one respect
        j = ctx.ri(0, k - 1)
        t, (ol, n) = tasks[j], recs[j]
        how = ctx.ri(0, 2)
        if how == 0:
            op = type(t.operator)()
            for term in ctx.rng.sample(list(t.operator.terms), len(t.operator.terms)):
                op += type(t.operator)(term, coeff(ctx))
            tasks.append(EstimationTask(op, t.circuit, t.number_of_shots))
        elif how == 1 and t.number_of_shots:
            tasks.append(EstimationTask(t.operator, t.circuit, t.number_of_shots + ctx.ri(1, 5)))
        else:
            ol = gen.ops(ctx, n, ctx.ri(1, 6))
            tasks.append(EstimationTask(t.operator, gen.build_circuit(ol, n), t.number_of_shots))
        recs.append((ol, n))
    if k > 1 and ctx.chance(0.3):  # the same task again
        j = ctx.ri(0, k - 1)
        tasks.append(tasks[j])
        recs.append(recs[j])
    return tasks, recs


@CHECK.scenario(quick=250, thorough=6000, needs=("exact value per term",))
def exact(ctx):
    from zquantum.core.estimation import calculate_exact_expectation_values
    from zquantum.core.symbolic_simulator import SymbolicSimulator

    tasks, recs = tasks_of(ctx, ctx.ri(0, 5), exact=True)
    before = frozen(tasks)
    ctx.case(str(before), trivial=not tasks)
    ctx.sample(before)
    out = calculate_exact_expectation_values(SymbolicSimulator(seed=ctx.ri(0, 99)), tasks)
    ctx.equal(len(out), len(tasks), "one result per task (exact)")
    for e, t, (ol, n) in zip(out, tasks, recs):
        psi = ref_state(ol, n)
        ctx.close(e.values, [expect({k: c}, psi, n) for k, c in t.operator.terms.items()], "exact value per term", atol=1e-8)
        ctx.check(not np.iscomplexobj(e.values), "exact values are real")
    if ctx.chance(0.3):
        be = SymbolicSimulator()
        current(ctx, "exact results", lambda: calculate_exact_expectation_values(be, tasks), tasks)
    separate(ctx, "exact results", out)
    ctx.equal(frozen(tasks), before, "tasks unchanged (exact)")


def parity(term, b):
    return -1 if sum(b[q] for q, _ in term) % 2 else 1


def stand_in(ctx, calls):
    """A device with prepared samples; every measurement it hands out is recorded."""
    from zquantum.core.interfaces.backend import QuantumBackend
    from zquantum.core.measurement import Measurements

    class Device(QuantumBackend):
        supports_batching = ctx.chance(0.4)
        batch_size = 2 if supports_batching else None
        extra = ctx.pick([0, 0, 2])

        def _one(self, circuit, n):
            b = [tuple(ctx.ri(0, 1) for _ in range(circuit.n_qubits)) for _ in range(n + self.extra)]
            calls.append((circuit, n, list(b)))
            return Measurements(b)

        def run_circuit_and_measure(self, circuit, n_samples):
            super().run_circuit_and_measure(circuit, n_samples)
            return self._one(circuit, n_samples)

        def run_circuitset_and_measure(self, circuits, n_samples):
            if self.supports_batching:
                super().run_circuitset_and_measure(circuits, n_samples)
                return [self._one(c, n) for c, n in zip(circuits, n_samples)]
            return super().run_circuitset_and_measure(circuits, n_samples)

    return Device()


def watched(ctx, sim, calls):
    """Observes what a real simulator returns, at its public method."""

    def make(orig):
        def run(circuits, n_samples, *a, **k):
            r = orig(circuits, n_samples, *a, **k)
            for c, n, m in zip(circuits, n_samples, r):
                calls.append((c, n, list(m.bitstrings)))
            return r

        return run

    ctx.hook(sim, "run_circuitset_and_measure", make)
    return sim


@CHECK.scenario(quick=700, thorough=15000, needs=("average of the task's samples", "constant task value", "unmeasured task value", "simulated estimate"))
def averaging(ctx):
    from zquantum.core.estimation import estimate_expectation_values_by_averaging
    from zquantum.core.symbolic_simulator import SymbolicSimulator

    tasks, recs = tasks_of(ctx, ctx.ri(0, 6))
    before = frozen(tasks)
    ctx.case(str(before), trivial=not tasks)
    calls = []
    sim = ctx.chance(0.35)
    be = watched(ctx, SymbolicSimulator(seed=ctx.ri(0, 10**6)), calls) if sim else stand_in(ctx, calls)
    out = estimate_expectation_values_by_averaging(be, tasks)
    ctx.equal(len(out), len(tasks), "one result per task")
    i = 0
    for e, t, (ol, n) in zip(out, tasks, recs):
        terms = t.operator.terms
        ctx.check(not np.iscomplexobj(e.values), "values are real", str(e.values))
        if list(terms) == [()]:
            ctx.close(e.values, [terms[()]], "constant task value")
        elif t.number_of_shots == 0:
            ctx.close(e.values, [0.0], "unmeasured task value")
        else:
            ctx.check(i < len(calls), "a measurement for each measured task")
            c, shots, b = calls[i]
            i += 1
            ctx.equal((c, shots), (t.circuit, t.number_of_shots), "the task's circuit and shots were measured")
            val = [co * np.mean([parity(k, x) for x in b]) for k, co in terms.items()]
            ctx.close(e.values, val, "average of the task's samples", detail=f"{terms} {b}")
            ks = list(terms)
            corr = [[terms[a] * terms[d] * np.mean([parity(a, x) * parity(d, x) for x in b]) for d in ks] for a in ks]
            ctx.close(e.correlations[0], corr, "correlations of the task's samples")
            cov = [[(corr[p][q] - val[p] * val[q]) / len(b) for q in range(len(ks))] for p in range(len(ks))]
            ctx.close(e.estimator_covariances[0], cov, "covariances of the task's samples", atol=1e-7)
            if sim:
                ctx.equal(len(b), shots, "simulated estimate")
    ctx.equal(i, len(calls), "nothing else was measured")
    if ctx.chance(0.3) and len(tasks) < 5:
        current(ctx, "averaged results", lambda: estimate_expectation_values_by_averaging(SymbolicSimulator(seed=3), tasks), tasks)
    separate(ctx, "averaged results", out)
    ctx.equal(frozen(tasks), before, "tasks unchanged (averaging)")


@CHECK.scenario(quick=40, thorough=600, needs=("estimate within the error bound",))
def sampling(ctx):
    """Many shots on the real simulator: the estimate approaches the exact value (6.5 sigma bound)."""
    from zquantum.core.estimation import estimate_expectation_values_by_averaging
    from zquantum.core.interfaces.estimation import EstimationTask
    from zquantum.core.symbolic_simulator import SymbolicSimulator

    shots = 2000
    tasks, recs = [], []
    for _ in range(ctx.ri(1, 3)):
        n = ctx.ri(1, 3)
        ol = gen.ops(ctx, n, ctx.ri(1, 5))
        tasks.append(EstimationTask(diag_op(ctx, n), gen.build_circuit(ol, n), shots))
        recs.append((ol, n))
    ctx.case(str(frozen(tasks)))
    out = estimate_expectation_values_by_averaging(SymbolicSimulator(seed=ctx.ri(0, 10**6)), tasks)
    for e, t, (ol, n) in zip(out, tasks, recs):
        psi = ref_state(ol, n)
        ks = list(t.operator.terms.items())
        for (k, c), v in zip(ks, e.values):
            x = expect({k: 1.0}, psi, n).real
            ctx.check(abs(v - (c * x).real) <= abs(c) * (6.5 * np.sqrt(max(0, 1 - x * x) / shots) + 25 / shots), "estimate within the error bound", lambda: f"{k} {c} {v} {x}")


@CHECK.scenario(quick=350, thorough=7000, needs=("bound circuit is the substituted circuit", "one map for all tasks", "binding and estimating"))
def binding(ctx):
    from zquantum.core import estimation as E
    from zquantum.core.interfaces.estimation import EstimationTask
    from zquantum.core.symbolic_simulator import SymbolicSimulator

    syms = gen.symbols(ctx, ctx.ri(1, 4))
    tasks, recs = [], []
    for _ in range(ctx.ri(1, 4)):
        n = ctx.ri(1, 3)
        ol = gen.ops(ctx, n, ctx.ri(1, 4), syms=syms, p_sym=0.7, gates=["RX", "RY", "RZ", "PHASE", "H", "CNOT", "XX"])
        circuit = gen.build_circuit(ol, n)
        if tasks and ctx.chance(0.4):  # several operators estimated on one circuit object
            i = ctx.ri(0, len(tasks) - 1)
            circuit, (ol, n) = tasks[i].circuit, recs[i]
        op, _ = pauli_op(ctx, n, kmax=4)
        tasks.append(EstimationTask(op, circuit, ctx.pick([None, 0, 10])))
        recs.append((ol, n))
    one = ctx.chance(0.3)
    envs = [gen.env(ctx, syms) for _ in range(1 if one else len(tasks))]
    if not one and ctx.chance(0.4):  # the same values, given to other symbols
        values = [ctx.rng.uniform(-3, 3) for _ in syms]
        envs = []
        for _ in tasks:
            if len(syms) > 1 and envs and ctx.chance(0.5):
                items = list(zip(ctx.rng.sample(syms, len(syms)), values))
            else:
                items = list(zip(syms, ctx.rng.sample(values, len(values))))
            envs.append(dict(items))
    maps = [dict(e) for e in envs]
    ctx.case(str((frozen(tasks), maps)))
    before = frozen(tasks)
    arg = maps
    if one and ctx.chance(0.4):
        arg = maps[0]
    out = E.evaluate_estimation_circuits(tasks, arg)
    ctx.equal(len(out), len(tasks), "one map for all tasks" if one else "one map per task")
    ctx.equal(frozen(tasks), before, "tasks unchanged (binding)")
    ctx.equal(maps, [dict(e) for e in envs], "maps unchanged")
    if ctx.chance(0.3):
        current(ctx, "bound tasks", lambda: E.evaluate_estimation_circuits(tasks, arg), arg)
        current(ctx, "bound tasks", lambda: E.evaluate_estimation_circuits(tasks, arg), tasks)
    if one:
        envs = envs * len(tasks)
    for o, t, env, (ol, n) in zip(out, tasks, envs, recs):
        ctx.check(not o.circuit.free_symbols, "all symbols bound")
        ctx.check(o.operator is t.operator or o.operator == t.operator, "operator kept by binding")
        ctx.equal(o.number_of_shots, t.number_of_shots, "shots kept by binding")
        ctx.equal(o.circuit.n_qubits, n, "register kept by binding")
        v = np.eye(2**n)[0]
        for s, q in ol:
            v = ref.apply_matrix(ref.spec_matrix(s, env), q, v, n)
        ctx.close(lib_state(o.circuit, n), v, "bound circuit is the substituted circuit", atol=1e-7)
    if ctx.chance(0.25):
        res = E.calculate_exact_expectation_values(SymbolicSimulator(), out)
        for r, t, env, (ol, n) in zip(res, tasks, envs, recs):
            v = np.eye(2**n)[0]
            for s, q in ol:
                v = ref.apply_matrix(ref.spec_matrix(s, env), q, v, n)
            ctx.close(np.sum(r.values), expect(t.operator.terms, v, n), "binding and estimating", atol=1e-7)


@CHECK.scenario(quick=24, thorough=60, needs=("contract refuses a broken estimator",))
def contracts(ctx):
    """The published contract tests accept a correct estimator and refuse each kind of broken one."""
    from zquantum.core.estimation import calculate_exact_expectation_values
    from zquantum.core.interfaces.estimation import EstimationTask
    from zquantum.core.interfaces.estimator_contract import ESTIMATOR_CONTRACTS as K

    def drop(backend, estimation_tasks):
        return calculate_exact_expectation_values(backend, estimation_tasks)[: max(1, len(estimation_tasks) - 1)]

    def reverse(backend, estimation_tasks):
        return calculate_exact_expectation_values(backend, estimation_tasks)[::-1]

    def without(f):
        def est(backend, estimation_tasks):
            return calculate_exact_expectation_values(backend, [EstimationTask(f(t.operator), t.circuit, t.number_of_shots) for t in estimation_tasks])

        return est

    def no_coef(op):
        r = type(op)()
        for t in op.terms:
            r += type(op)(t, 1.0)
        return r

    def no_const(op):
        r = type(op)()
        for t, c in op.terms.items():
            if t:
                r += type(op)(t, c)
        return r

    broken = ctx.idx % 4
    ctx.case(broken)
    good = [bool(k(calculate_exact_expectation_values)) for k in K]
    ctx.check(all(good), "contracts accept the exact estimator", str(good))
    est = [drop, reverse, without(no_coef), without(no_const)][broken]
    ctx.check(not all(bool(k(est)) for k in K), "contract refuses a broken estimator", ["drops a task", "reversed", "no coefficients", "no constants"][broken])
