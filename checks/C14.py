"""Preparing estimation tasks: conservation of operators, circuits and shots."""
import copy
import io
import math
from contextlib import redirect_stdout

import numpy as np

from vlib.alias import current, separate
from vlib import gen, ref
from vlib.harness import Check

CHECK = Check(
    "C14",
    "a case is one list of estimation tasks (operators with circuits and shots) run through one preparation step or a chain "
    "of them; lists without any term are trivial",
    ["coefficients are real numbers (also complex-typed); proportional shots need at least one non-constant term with variance"],
)


def coeff(ctx):
    r = ctx.rng.random()
    if r < 0.35:
        return ctx.pick([1.0, -1.0, 0.5, 2, -3, 1, 1e-3, 7.25, 1 + 0j, -0.5 + 0j])
    c = ctx.rng.uniform(-2, 2)
    return complex(c) if ctx.chance(0.1) else c


def pauli_op(ctx, n, kmax=8, const=0.4, letters="XYZ"):
    """QubitOperator and its plain {term: coefficient} record in the operator's own order."""
    from zquantum.core.openfermion import QubitOperator

    op, rec = QubitOperator(), {}
    for _ in range(ctx.ri(1, kmax)):
        if ctx.chance(const / kmax):
            t = ()
        else:
            qs = sorted(ctx.rng.sample(range(n), ctx.ri(1, min(n, 4))))
            t = tuple((q, ctx.pick(letters)) for q in qs)
        if t in rec:
            continue
        rec[t] = coeff(ctx)
        op += QubitOperator(t, rec[t])
    if ctx.chance(0.4) and () not in rec:
        rec[()] = coeff(ctx)
        op += QubitOperator((), rec[()])
    return op, rec


def make_tasks(ctx, k=None, nmax=4, **kw):
    """Tasks with pairwise different circuits, so that every output task can be traced to its input."""
    from zquantum.core.interfaces.estimation import EstimationTask

    tasks, recs = [], []
    for i in range((ctx.ri(1, 4) if ctx.chance(0.98) else ctx.ri(12, 40)) if k is None else k):
        n = ctx.ri(1, nmax)
        m = n if ctx.chance(0.8) else ctx.ri(1, n)  # the circuit may be narrower than the operator
        ol = [(("b", "RY", (0.1 + 0.37 * i + ctx.rng.random() * 0.2,)), (ctx.ri(0, m - 1),))]
        ol += gen.ops(ctx, m, ctx.ri(0, 5))
        op, rec = pauli_op(ctx, n, **kw)
        c = gen.retyped(ctx, gen.build_circuit(ol, m))
        shots = ctx.pick([None, 0, 1, 10, 1000])
        tasks.append(EstimationTask(op, c, shots))
        recs.append((rec, ol, m, n, shots))
    return tasks, recs


def frozen(tasks):
    return [(copy.deepcopy(t.operator.terms), list(t.operator.terms), str(t.circuit), t.circuit.n_qubits, t.number_of_shots) for t in tasks]


def state(circuit_ops, n):
    s = np.zeros(2**n, dtype=complex)
    s[0] = 1
    for m, q in circuit_ops:
        s = ref.apply_matrix(m, q, s, n)
    return s


def lib_state(circuit, n):
    """State prepared by a library circuit, from its gate matrices (C01/C02 decide those)."""
    return state([(np.array(o.gate.matrix, dtype=complex), o.qubit_indices) for o in circuit.operations], n)


def ref_state(ol, n):
    return state([(ref.spec_matrix(s), q) for s, q in ol], n)


def expect(terms, psi, n):
    return sum(c * np.vdot(psi, pauli_apply(t, psi, n)) for t, c in terms.items())


def pauli_apply(term, psi, n):
    for q, p in term:
        psi = ref.apply_matrix({"X": np.array([[0, 1], [1, 0]]), "Y": np.array([[0, -1j], [1j, 0]]), "Z": np.diag([1, -1])}[p].astype(complex), (q,), psi, n)
    return psi


def comeasurable(terms):
    on = {}
    for t in terms:
        for q, p in t:
            if on.setdefault(q, p) != p:
                return False
    return True


def clean(rec):
    return {t: c for t, c in rec.items()}


def same_terms(ctx, got, exp, what, detail=""):
    keys = {t for t, c in got.items() if abs(c) > 1e-7} ^ {t for t, c in exp.items() if abs(c) > 1e-7}
    ctx.check(not keys, what, lambda: f"terms {keys}; {detail}")
    ctx.check(all(abs(got.get(t, 0) - c) < 1e-9 for t, c in exp.items()), what, lambda: f"{got} vs {exp}; {detail}")


def quiet(f, *a, **k):
    with redirect_stdout(io.StringIO()):
        return f(*a, **k)


@CHECK.scenario(quick=900, thorough=20000, needs=("groups sum to the operator", "groups are co-measurable", "every term is its own task"))
def grouping(ctx):
    from zquantum.core import estimation as E

    tasks, recs = make_tasks(ctx)
    before = frozen(tasks)
    ctx.case(str(before))
    ctx.sample(before)
    which = ctx.ri(0, 2)
    if which == 0:
        out = E.group_individually(tasks)
    elif which == 1:
        out = quiet(E.group_greedily, tasks)
    else:
        out = quiet(E.group_greedily, tasks, sort_terms=True)
    ctx.equal(frozen(tasks), before, "input tasks unchanged")
    i = 0
    for t, (rec, ol, m, n, shots) in zip(tasks, recs):
        mine = []
        while i < len(out) and out[i].circuit == t.circuit:
            mine.append(out[i])
            i += 1
        total = {}
        for o in mine:
            for term, c in o.operator.terms.items():
                ctx.check(term not in total, "no term twice", f"{term}")
                total[term] = c
            ctx.equal(o.number_of_shots, shots, "shots kept by grouping")
            ctx.equal(o.circuit.n_qubits, m, "register kept by grouping")
        same_terms(ctx, total, rec, "groups sum to the operator", f"mode {which}")
        if which == 0:
            ctx.check(all(len(o.operator.terms) == 1 for o in mine), "every term is its own task")
            ctx.equal([list(o.operator.terms)[0] for o in mine], list(t.operator.terms), "terms in operator order")
        else:
            for o in mine:
                ctx.check(comeasurable(o.operator.terms), "groups are co-measurable", lambda: str(o.operator))
                if len(o.operator.terms) > 1:
                    ctx.event("group with several terms")
            consts = [o for o in mine if () in o.operator.terms]
            ctx.check(len(consts) == (1 if () in rec else 0), "constant once")
            ctx.check(all(len(o.operator.terms) == 1 for o in consts), "constant is a separate group")
    ctx.equal(i, len(out), "every output task belongs to an input task, in order")
    if ctx.chance(0.3):
        current(ctx, "grouping", lambda: quiet(E.group_greedily, tasks, which == 2) if which else E.group_individually(tasks), tasks)
    separate(ctx, "group operators", [o.operator for o in out])
    out.clear()
    ctx.equal(frozen(tasks), before, "input tasks independent of the groups")


@CHECK.scenario(quick=600, thorough=20000, needs=("operator is diagonal", "expectation unchanged", "rejects not co-measurable"))
def context(ctx):
    from zquantum.core import estimation as E
    from zquantum.core.interfaces.estimation import EstimationTask
    from zquantum.core.openfermion import QubitOperator

    if ctx.chance(0.15):
        op, rec = pauli_op(ctx, ctx.ri(1, 4))
        if ctx.chance(0.4):  # wide: one disagreement among many agreeing bases
            n = ctx.ri(2, 12)
            basis = [ctx.pick("XYZ") for _ in range(n)]
            ts = [tuple((q, basis[q]) for q in sorted(ctx.rng.sample(range(n), ctx.ri(1, n)))) for _ in range(ctx.ri(1, 5))]
            k = ctx.ri(0, len(ts) - 1)
            q = ctx.pick([q for q, _ in ts[k]])
            ts.insert(ctx.ri(k, len(ts)), ((q, ctx.pick([a for a in "XYZ" if a != basis[q]])),))
            rec = {t: coeff(ctx) for t in ts}
            op = QubitOperator()
            for t, c in rec.items():
                op += QubitOperator(t, c)
        ctx.case(str(rec), trivial=True)
        if not comeasurable(rec):
            ctx.raises(ValueError, lambda: E.get_context_selection_circuit_for_group(op), "rejects not co-measurable", str(op))
        return
    tasks, recs = [], []
    for _ in range(ctx.ri(1, 4)):
        n = ctx.ri(1, 5)
        m = n if ctx.chance(0.8) else ctx.ri(1, n)
        basis = {q: ctx.pick("XYZ") for q in range(n)}
        op, rec = QubitOperator(), {}
        for _ in range(ctx.ri(1, 6)):
            t = tuple((q, basis[q]) for q in sorted(ctx.rng.sample(range(n), ctx.ri(0, n))))
            if t not in rec:
                rec[t] = coeff(ctx)
                op += QubitOperator(t, rec[t])
        ol = gen.ops(ctx, m, ctx.ri(1, 6))
        shots = ctx.pick([None, 0, 5])
        tasks.append(EstimationTask(op, gen.build_circuit(ol, m), shots))
        recs.append((rec, ol, n, shots))
        if ctx.chance(0.2):  # the same Pauli terms again: other coefficients, another order
            twin = {t: coeff(ctx) for t in ctx.rng.sample(list(rec), len(rec))}
            op = QubitOperator()
            for t, c in twin.items():
                op += QubitOperator(t, c)
            tasks.append(EstimationTask(op, gen.build_circuit(ol, m), shots))
            recs.append((twin, ol, n, shots))
    ctx.case(str([(r[0], gen.show(r[1])) for r in recs]))
    before = frozen(tasks)
    out = E.perform_context_selection(tasks)
    ctx.equal(frozen(tasks), before, "input tasks unchanged by basis change")
    ctx.equal(len(out), len(tasks), "one task per task")
    for o, t, (rec, ol, n, shots) in zip(out, tasks, recs):
        ctx.check(all(p == "Z" for term in o.operator.terms for _, p in term), "operator is diagonal", str(o.operator))
        from zquantum.core.openfermion import IsingOperator

        ctx.check(isinstance(o.operator, IsingOperator), "operator is an Ising operator")
        ctx.equal(o.number_of_shots, shots, "shots kept by basis change")
        ctx.equal(o.circuit.operations[: len(ol)], t.circuit.operations, "the prepared state's circuit comes first")
        w = max(n, o.circuit.n_qubits)
        e0 = expect(rec, ref_state(ol, w), w)
        psi = lib_state(o.circuit, w)
        ctx.close(expect(o.operator.terms, psi, w), e0, "expectation unchanged", atol=1e-8, detail=str(rec))
        # term by term: the i-th term of the group becomes the i-th of the frame operator
        ctx.check(len(o.operator.terms) == len(t.operator.terms), "one diagonal term per term")
        for (ta, ca), (tb, cb) in zip(t.operator.terms.items(), o.operator.terms.items()):
            ctx.close(expect({tb: cb}, psi, w), expect({ta: ca}, ref_state(ol, w), w), "each term keeps its expectation and place")
    if ctx.chance(0.3):
        current(ctx, "basis changes", lambda: E.perform_context_selection(tasks), tasks)
        one = tasks[0].operator
        current(ctx, "basis changes", lambda: E.get_context_selection_circuit_for_group(one), one)
    separate(ctx, "diagonal operators", [o.operator for o in out])
    out.clear()
    ctx.equal(frozen(tasks), before, "input tasks independent of the rotated ones")


def variance(rec, ev=None, skip_const=True):
    tot = 0.0
    for i, (t, c) in enumerate(rec.items()):
        if ev is None:
            tot += 0.0 if t == () else abs(c) ** 2
        else:
            tot += abs(c) ** 2 * (1 - ev[i] ** 2)
    return tot


@CHECK.scenario(quick=1200, thorough=25000, needs=("shots are integers", "total distributed", "shares proportional", "uniform shots"))
def shots(ctx):
    from zquantum.core import estimation as E
    from zquantum.core.measurement import ExpectationValues

    tasks, recs = make_tasks(ctx, k=ctx.ri(1, 9), nmax=3, kmax=ctx.pick([1, 3, 6]))
    before = frozen(tasks)
    total = ctx.pick([1, 2, 3, 7, 10, 100, 1000, 12345, 10**6, 10**9, 10**12]) if ctx.chance(0.5) else ctx.ri(1, 5000)
    ctx.case(str((before, total)))
    if ctx.chance(0.25):
        out = E.allocate_shots_uniformly(tasks, total)
        ctx.check(all(o.number_of_shots == total for o in out), "uniform shots")
        ctx.raises(ValueError, lambda: E.allocate_shots_uniformly(tasks, ctx.pick([0, -1, -100])), "bad number of shots rejected")
    else:
        ev = None
        prior = None
        if ctx.chance(0.5):
            ev = []
            for t in tasks:
                for term in t.operator.terms:
                    ev.append(1.0 if term == () else float(ctx.pick([1, -1, 0])) if ctx.chance(0.3) else ctx.rng.uniform(-1, 1))
            arr = np.array(ev, dtype=complex if ctx.chance(0.3) else float)
            prior = ExpectationValues(arr)
        v, j = [], 0
        for t in tasks:
            k = len(t.operator.terms)
            v.append(math.sqrt(variance(t.operator.terms, None if ev is None else ev[j : j + k])))
            j += k
        if sum(v) < 1e-9:
            ctx.event("no variance at all (undefined shares)")
            return
        pb = None if prior is None else prior.values.copy()
        if ctx.chance(0.3):
            current(ctx, "allocation", lambda: E.allocate_shots_proportionally(tasks, total, prior), tasks)
            if prior is not None:
                current(ctx, "allocation", lambda: E.allocate_shots_proportionally(tasks, total, prior), prior)
        out = E.allocate_shots_proportionally(tasks, total, prior)
        if prior is not None:
            ctx.check(prior.values.dtype == pb.dtype and np.array_equal(prior.values, pb), "prior unchanged", str(prior.values))
            ctx.raises(ValueError, lambda: E.allocate_shots_proportionally(tasks, total, ExpectationValues(np.append(pb, 0.5))), "wrong number of priors rejected")
            if len(pb):
                bad = pb.copy()
                bad[ctx.ri(0, len(bad) - 1)] = ctx.pick([1.5, -1.01])
                ctx.raises(ValueError, lambda: E.allocate_shots_proportionally(tasks, total, ExpectationValues(bad)), "impossible priors rejected")
        ctx.check(all(isinstance(o.number_of_shots, (int, np.integer)) for o in out), "shots are integers")
        ctx.check(all(o.number_of_shots >= 0 for o in out), "shots are not negative")
        ctx.equal(sum(o.number_of_shots for o in out), total, "total distributed")
        for o, x in zip(out, v):
            ctx.check(abs(o.number_of_shots - total * x / sum(v)) < 1 + 1e-6 * max(1, total * 1e-6), "shares proportional", lambda: f"{[o.number_of_shots for o in out]} for {v}, total {total}")
        ctx.raises(ValueError, lambda: E.allocate_shots_proportionally(tasks, ctx.pick([0, -3])), "bad number of shots rejected")
    ctx.equal(len(out), len(tasks), "one task per task")
    for o, t in zip(out, tasks):
        ctx.check(o.circuit == t.circuit and o.operator.terms == t.operator.terms and list(o.operator.terms) == list(t.operator.terms), "operator and circuit kept")
    out.clear()
    ctx.equal(frozen(tasks), before, "input tasks unchanged by allocation")


@CHECK.scenario(quick=600, thorough=15000, needs=("each task on exactly one side",))
def split(ctx):
    from zquantum.core import estimation as E
    from zquantum.core.interfaces.estimation import EstimationTask
    from zquantum.core.openfermion import IsingOperator, QubitOperator

    tasks, _ = make_tasks(ctx, k=ctx.ri(0, 8), nmax=3, kmax=3)
    for i in range(len(tasks)):
        if ctx.chance(0.4):
            cls = ctx.pick([IsingOperator, QubitOperator])
            tasks[i] = EstimationTask(cls((), ctx.pick([2.5, -1.0, 3, 0.0])), tasks[i].circuit, tasks[i].number_of_shots)
    ctx.case(str(frozen(tasks)), trivial=not tasks)
    before = frozen(tasks)
    a, b, ia, ib = E.split_estimation_tasks_to_measure(tasks)
    ctx.equal(sorted(list(ia) + list(ib)), list(range(len(tasks))), "each task on exactly one side")
    ctx.check(list(ia) == sorted(ia) and list(ib) == sorted(ib), "positions ascending")
    ctx.check(len(a) == len(ia) and len(b) == len(ib), "as many tasks as positions")
    ctx.check(all(x is tasks[i] or x == tasks[i] for x, i in zip(a, ia)) and all(x == tasks[i] for x, i in zip(b, ib)), "positions point to the tasks")
    for i, t in enumerate(tasks):
        skip = t.number_of_shots == 0 or list(t.operator.terms) == [()]
        ctx.check((i in ib) == skip, "constants and zero shots need no measurement", lambda: f"{t}")
    ctx.equal(frozen(tasks), before, "input tasks unchanged by splitting")
    ev = E.evaluate_non_measured_estimation_tasks(b)
    if ctx.chance(0.3):
        current(ctx, "splitting", lambda: E.split_estimation_tasks_to_measure(tasks), tasks)
        current(ctx, "values of unmeasured tasks", lambda: E.evaluate_non_measured_estimation_tasks(b), b)
    ctx.equal(len(ev), len(b), "one value list per unmeasured task")
    for e, t in zip(ev, b):
        c = t.operator.terms[()] if list(t.operator.terms) == [()] else 0.0
        ctx.close(e.values, [c], "constant task is its coefficient, unmeasured task is zero")
        ctx.check(not np.iscomplexobj(e.values), "values of constant tasks are real", str(e.values))
        ctx.close(e.correlations[0], [[0.0]], "no correlation")
        ctx.close(e.estimator_covariances[0], [[0.0]], "no covariance")
    separate(ctx, "values of unmeasured tasks", ev)
    ctx.equal(frozen(tasks), before, "tasks independent of their values")
    must = [t for t in a if t.number_of_shots]
    if must:
        ctx.raises(RuntimeError, lambda: E.evaluate_non_measured_estimation_tasks(b + [ctx.pick(must)]), "measured task rejected as unmeasured")


@CHECK.scenario(quick=320, thorough=12000, needs=("chain keeps the expectation", "chain distributes the total"))
def chain(ctx):
    """Random compositions of the preprocessing steps, as users compose them."""
    from zquantum.core import estimation as E

    tasks, recs = make_tasks(ctx, k=ctx.ri(1, 3))
    before = frozen(tasks)
    steps = [ctx.pick(["ind", "greedy", "sorted"])]
    if ctx.chance(0.4):
        steps.append(ctx.pick(["ind", "greedy"]))
    steps.insert(ctx.ri(0, len(steps)), ctx.pick(["uni", "prop"]))
    if ctx.chance(0.7):
        steps.append("ctx")
        if ctx.chance(0.3):
            steps.append(ctx.pick(["uni", "prop"]))
    ctx.case(str((before, steps)))
    cur, last = tasks, None
    for s in steps:
        prev, snap = cur, frozen(cur)
        if s == "ind":
            cur = E.group_individually(cur)
        elif s in ("greedy", "sorted"):
            cur = quiet(E.group_greedily, cur, s == "sorted")
        elif s == "ctx":
            cur = E.perform_context_selection(cur)
        elif s == "uni":
            last = ("uni", ctx.ri(1, 500))
            cur = E.allocate_shots_uniformly(cur, last[1])
        else:
            if sum(variance(t.operator.terms) for t in cur) < 1e-12:
                continue
            last = ("prop", ctx.ri(1, 5000))
            cur = E.allocate_shots_proportionally(cur, last[1])
            ctx.equal(sum(t.number_of_shots for t in cur), last[1], "chain distributes the total")
        ctx.equal(frozen(prev), snap, "each step leaves its input unchanged", s)
    w = max([max(n, m) for _, _, m, n, _ in recs])
    tot0 = sum(expect(rec, ref_state(ol, w), w) for rec, ol, m, n, _ in recs)
    w = max([w] + [t.circuit.n_qubits for t in cur])
    tot1 = sum(expect(t.operator.terms, lib_state(t.circuit, w), w) for t in cur)
    ctx.close(tot1, tot0, "chain keeps the expectation", atol=1e-7, detail=str(steps))
