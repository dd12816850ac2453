"""Grouping of Hamiltonian terms, shot planning, expectation values from RDMs, mode reordering."""
import itertools

import numpy as np

from checks.C21 import number_state, rdms
from vlib import gen, ref
from vlib.alias import independent
from vlib.harness import Check

CHECK = Check(
    "C22",
    "a case is one operator or list of groups with the expectation values, RDM or ordering applied; "
    "operators without non-constant terms are trivial",
    ["RDM states have a definite particle number and at most 4 modes; grouped operators have up to 60 terms on up to 40 qubits"],
)


def comeasurable(s, t):
    d = dict(s)
    return all(d.get(q, p) == p for q, p in t)


def operator(ctx, dense=None):
    n = ctx.pick([1, 2, 3, 4, 6, 12, 40])
    count = ctx.pick([1, 2, 5, 12, 30, 60])
    return gen.qubit_operator(gen.pauli_terms(ctx, n, count, real=ctx.chance(0.6), const=ctx.pick([0, 0.8]), max_w=ctx.pick([1, 2, 4, None]), letters=ctx.pick(["XYZ", "XYZ", "XZ", "Z"])))


@CHECK.scenario(quick=420, thorough=9000, needs=("groups are co-measurable", "groups partition the operator", "co-measurability", "greedy assignment"))
def grouping(ctx):
    from zquantum.core.hamiltonian import get_decomposition_function, group_comeasureable_terms_greedy, is_comeasureable
    from zquantum.core.openfermion import QubitOperator

    op = operator(ctx)
    if ctx.chance(0.2):  # equal magnitudes
        for t in op.terms:
            op.terms[t] = ctx.pick([1.0, -1.0, 1j])
    before = list(op.terms.items())
    ctx.case(tuple(before), trivial=not any(op.terms))
    ctx.sample(len(before))
    sort = ctx.chance(0.5)
    how = ctx.ri(0, 2)
    if how == 0:
        groups = group_comeasureable_terms_greedy(op, sort)
    elif how == 1:
        groups = group_comeasureable_terms_greedy(op, sort_terms=sort) if sort else group_comeasureable_terms_greedy(op)
    else:
        groups = get_decomposition_function("greedy-sorted" if sort else "greedy")(op)
    ctx.event(f"groups:{min(len(groups), 10)}:{'sorted' if sort else 'plain'}")
    det = lambda: (sort, op, groups)
    where = {}
    for k, g in enumerate(groups):
        ctx.check(isinstance(g, QubitOperator) and g.terms, "groups are operators with terms", det)
        for s, t in itertools.combinations(g.terms, 2):
            ctx.check(comeasurable(s, t), "groups are co-measurable", lambda: (s, t, sort, op, groups))
        for t, c in g.terms.items():
            ctx.check(t not in where, "groups partition the operator", lambda: (t, sort, op, groups))
            where[t] = k
            ctx.check(t in op.terms and op.terms[t] == c, "groups partition the operator", lambda: (t, c, sort, op, groups))
    ctx.equal(set(where), {t for t, c in before}, "groups partition the operator", detail=det)
    total = QubitOperator()
    for g in groups:
        total += g
    ctx.check(total == op, "groups add up to the operator", det)
    if () in op.terms:
        ctx.equal(list(groups[where[()]].terms), [()], "constant is a group of its own", detail=det)
    # greedy: a term goes to the first group it fits in, in order of appearance or of decreasing magnitude
    if sort:
        mags = [abs(c) for _, c in before]
        ctx.check(all(abs(a) >= abs(b) for g in groups for a, b in zip(list(g.terms.values()), list(g.terms.values())[1:])), "order within sorted groups", det)
        order = None if len(set(mags)) < len(mags) else sorted([t for t, _ in before if t], key=lambda t: -abs(op.terms[t]))
    else:
        order = [t for t, _ in before if t]
    if order is not None:
        mine = []
        for t in order:
            for g in mine:
                if all(comeasurable(t, s) for s in g):
                    g.append(t)
                    break
            else:
                mine.append([t])
        ctx.equal([list(g.terms) for g in groups if () not in g.terms], mine, "greedy assignment", detail=det)
    ctx.check(list(op.terms.items()) == before, "grouped operator untouched", det)
    independent(ctx, "grouping", lambda: group_comeasureable_terms_greedy(op, sort), op)
    ts = [t for t, _ in before]
    for _ in range(10):
        s, t = ctx.pick(ts), ctx.pick(ts)
        ctx.equal(bool(is_comeasureable(s, t)), comeasurable(s, t), "co-measurability", detail=(s, t))
    ctx.raises(ValueError, lambda: get_decomposition_function(ctx.pick(["", "greedy_sorted", "Greedy", "none"])), "unknown decomposition refused")


@CHECK.scenario(quick=420, thorough=9000, needs=("variance of a group", "worst-case variance", "shots per group", "total shots", "number of terms"))
def planning(ctx):
    from zquantum.core.hamiltonian import compute_group_variances, estimate_nmeas_for_frames, group_comeasureable_terms_greedy
    from zquantum.core.measurement import ExpectationValues

    if ctx.chance(0.5):
        groups = group_comeasureable_terms_greedy(operator(ctx), ctx.chance(0.5))
    else:
        groups = [operator(ctx) for _ in range(ctx.ri(1, 4))]
    if ctx.chance(0.2):
        from zquantum.core.openfermion import QubitOperator

        groups.insert(ctx.ri(0, len(groups)), ctx.pick([QubitOperator(), QubitOperator("", 0), QubitOperator("Z0", 0.0)]))
    terms = [list(g.terms.items()) for g in groups]
    ctx.case(repr(terms), trivial=not any(t for g in terms for t, _ in g))
    ctx.sample([len(t) for t in terms])
    count = sum(map(len, terms))
    det = lambda: groups

    def check(vals, got, what):
        var, k2, nterms, meas = got
        want = []
        i = 0
        for g in terms:
            v = 0.0
            for t, c in g:
                v += abs(c) ** 2 * ((0 if t == () else 1) if vals is None else 1 - vals[i].real ** 2)
                i += 1
            want.append(v)
        want = np.array(want)
        tol = 1e-9 * (1 + want.sum())
        ctx.close(var, want, what, atol=tol, detail=det)
        root = np.sqrt(np.maximum(want, 0))
        ctx.close(meas, root * root.sum(), "shots per group", atol=tol * 10, rtol=1e-6, detail=det)
        ctx.close(k2, root.sum() ** 2, "total shots", atol=tol * 10, rtol=1e-6, detail=det)
        ctx.equal(int(nterms), count, "number of terms", detail=det)

    check(None, (compute_group_variances(groups), *estimate_nmeas_for_frames(groups)), "worst-case variance")
    e = ctx.np.uniform(-1, 1, size=count)
    for k in range(count):
        if ctx.chance(0.15):
            e[k] = ctx.pick([0, 1, -1])
    if ctx.chance(0.3):
        e = e + 0j
    ev = ExpectationValues(e.copy())
    check(e, (compute_group_variances(groups, ev), *estimate_nmeas_for_frames(groups, ev)), "variance of a group")
    ctx.check(np.array_equal(ev.values, e) and ev.values.dtype == e.dtype, "expectation values untouched", det)
    ctx.check([list(g.terms.items()) for g in groups] == terms, "groups untouched", det)
    independent(ctx, "variances", lambda: compute_group_variances(groups, ev), groups, ev)
    independent(ctx, "variances", lambda: compute_group_variances(groups), groups)
    independent(ctx, "shots", lambda: estimate_nmeas_for_frames(groups, ev), groups, ev)
    bad = ctx.pick([e[:-1], np.concatenate([e, [0.5]])])
    ctx.raises(ValueError, lambda: compute_group_variances(groups, ExpectationValues(bad)), "wrong number of expectation values refused")
    if count:
        bad = e.copy()
        bad[ctx.ri(0, count - 1)] = ctx.pick([1.01, -1.5, 3])
        ctx.raises(ValueError, lambda: compute_group_variances(groups, ExpectationValues(bad)), "expectation values beyond 1 refused")


@CHECK.scenario(quick=90, thorough=1500, needs=("expectation values from RDMs", "expectation values for a list"))
def from_rdms(ctx):
    from zquantum.core.hamiltonian import (
        get_expectation_values_from_rdms, get_expectation_values_from_rdms_for_qubitoperator_list, group_comeasureable_terms_greedy,
    )
    from zquantum.core.openfermion import InteractionOperator, InteractionRDM, jordan_wigner

    n = ctx.ri(1, 4)
    v = number_state(ctx, n, ctx.ri(0, n))
    one, two = rdms(v, n)
    rdm = InteractionRDM(one.copy(), two.copy())
    c, h, g = gen.hermitian_tensors(ctx, n, sparse=ctx.chance(0.5))
    op = jordan_wigner(InteractionOperator(c, h, g))
    for t in list(op.terms):
        op.terms[t] = op.terms[t].real
        if ctx.chance(0.1):
            op.terms[t] = ctx.pick([0.0, 1e-10, 1.0, -1.0])
    keys = list(op.terms)
    ctx.rng.shuffle(keys)
    op.terms = {t: op.terms[t] for t in keys}
    before = list(op.terms.items())
    ctx.case((n, v.tobytes(), tuple(before)), trivial=not any(op.terms))
    ctx.sample((n, len(before)))
    sort = ctx.chance(0.5)

    def order(o):
        return sorted(o.terms, key=lambda t: abs(o.terms[t]), reverse=True) if sort else list(o.terms)

    def want(o):
        return [(v.conj() @ ref.pauli_term_matrix(t, n) @ v).real for t in order(o)]

    e = get_expectation_values_from_rdms(rdm, op, sort_terms=sort)
    ctx.close(e.values, want(op), "expectation values from RDMs", atol=1e-6, detail=lambda: (sort, op, v))
    ctx.check(np.isrealobj(e.values) and np.all(np.abs(e.values) <= 1), "expectation values are real and within bounds")
    lst = group_comeasureable_terms_greedy(op, ctx.chance(0.5)) if ctx.chance(0.6) else [op, op]
    e = get_expectation_values_from_rdms_for_qubitoperator_list(rdm, lst, sort_terms=sort)
    ctx.close(e.values, [x for o in lst for x in want(o)], "expectation values for a list", atol=1e-6, detail=lambda: (sort, lst, v))
    ctx.check(list(op.terms.items()) == before, "operator untouched", lambda: op)
    independent(ctx, "expectation values from RDMs", lambda: get_expectation_values_from_rdms(rdm, op, sort_terms=sort), rdm, op)
    ctx.check(np.array_equal(rdm.one_body_tensor, one) and np.array_equal(rdm.two_body_tensor, two), "RDM untouched")


@CHECK.scenario(quick=90, thorough=1500, needs=("reordered modes", "spectrum after reordering"))
def reordering(ctx):
    from zquantum.core.hamiltonian import reorder_fermionic_modes
    from zquantum.core.openfermion import InteractionOperator

    n = ctx.ri(1, 4) if ctx.chance(0.8) else 5
    c, h, g = gen.hermitian_tensors(ctx, n, sparse=n == 5)
    perm = ctx.rng.sample(range(n), n)
    ctx.case((n, tuple(perm), h.tobytes(), g.tobytes()), trivial=perm == list(range(n)))
    ctx.sample(perm)
    iop = InteractionOperator(c, h.copy(), g.copy())
    r = reorder_fermionic_modes(iop, list(perm))
    det = lambda: (perm, c, h, g)
    ctx.close(r.one_body_tensor, np.array([[h[a, b] for b in perm] for a in perm]), "reordered modes", detail=det)
    w = np.zeros_like(g)
    for i in itertools.product(range(n), repeat=4):
        w[i] = g[tuple(perm[k] for k in i)]
    ctx.close(r.two_body_tensor, w, "reordered modes", detail=det)
    ctx.close(r.constant, c, "constant after reordering")
    m, m2 = ref.tensor_matrix(c, h, g), ref.tensor_matrix(r.constant, r.one_body_tensor, r.two_body_tensor)
    ctx.close(np.linalg.eigvalsh(m2), np.linalg.eigvalsh(m), "spectrum after reordering", atol=1e-6 * (1 + np.abs(m).max()), detail=det)
    inv = [perm.index(k) for k in range(n)]
    independent(ctx, "reordering", lambda: reorder_fermionic_modes(iop, list(perm)), iop)
    independent(ctx, "trivial reordering", lambda: reorder_fermionic_modes(iop, list(range(n))), iop)
    b = reorder_fermionic_modes(r, inv)
    ctx.check(b == iop, "reordering back", det)
    r.one_body_tensor[0, 0] += 1
    r.two_body_tensor[...] += 1
    ctx.check(np.array_equal(iop.one_body_tensor, h) and np.array_equal(iop.two_body_tensor, g), "operator untouched", det)
