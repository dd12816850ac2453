"""Qubit-operator utilities and sparse linear algebra against dense matrices."""
import itertools

import numpy as np

from checks.C20 import act_paulis
from checks.C21 import copyt, rand_tensors, tmat
from vlib import gen, ref
from vlib.alias import independent
from vlib.harness import Check

CHECK = Check(
    "C23",
    "a case is one matrix, operator or state with the utilities applied; constants are trivial",
    ["dense matrices up to 5 qubits (7 for single-operator sparse matrices, 11 for columns of them); ground states only of Hermitian operators"],
)


def qmat(op, n):
    return ref.qubit_terms_matrix(op.terms, n)


def fmat(op, n):
    return ref.fermion_terms_matrix(op.terms, n)


def reversal(n):
    p = np.zeros((2**n, 2**n))
    for b in range(2**n):
        p[int("0" + format(b, f"0{n}b")[::-1] if n else "0", 2), b] = 1
    return p


def rand_matrix(ctx, d):
    style = ctx.pick(["dense", "hermitian", "sparse", "diagonal", "permutation", "int", "real", "single"])
    m = ctx.np.normal(size=(d, d)) + 1j * ctx.np.normal(size=(d, d))
    if style == "hermitian":
        m = m + m.conj().T
    elif style == "sparse":
        m = m * (ctx.np.random((d, d)) < 0.2)
    elif style == "diagonal":
        m = np.diag(np.diag(m))
    elif style == "permutation":
        m = np.eye(d)[ctx.np.permutation(d)]
    elif style == "int":
        m = np.round(3 * m.real).astype(int)
    elif style == "real":
        m = m.real
    elif style == "single":
        i, j = ctx.ri(0, d - 1), ctx.ri(0, d - 1)
        m = np.zeros((d, d), dtype=complex)
        m[i, j] = 1
    ctx.event("matrix:" + style)
    return m


@CHECK.scenario(quick=110, thorough=2500, needs=("matrix expanded in Pauli products", "expansion inverts the matrix"))
def matrices(ctx):
    from zquantum.core.openfermion import get_sparse_operator
    from zquantum.core.openfermion.zapata_utils import get_qubitop_from_coeffs_and_labels, get_qubitop_from_matrix

    n = ctx.pick([1, 2, 2, 3]) if ctx.chance(0.97) else 4
    m = rand_matrix(ctx, 2**n)
    ctx.case((n, m.tobytes()), trivial=n == 0)
    given = m if ctx.chance(0.4) else m.tolist()
    op = get_qubitop_from_matrix(given)
    ctx.close(qmat(op, n), m, "matrix expanded in Pauli products", atol=1e-7, detail=lambda: m)
    for t in ref.all_pauli_terms(n):
        ctx.close(op.terms.get(t, 0), np.trace(ref.pauli_term_matrix(t, n) @ m) / 2**n, "coefficient of a Pauli product", atol=1e-7, detail=lambda: (t, m))
    q = gen.qubit_operator(gen.pauli_terms(ctx, max(n, 1), ctx.ri(1, 5), real=ctx.chance(0.5)))
    k = max(n, 1)
    back = get_qubitop_from_matrix(get_sparse_operator(q, k).toarray().tolist())
    ctx.check(back == q, "expansion inverts the matrix", lambda: (q, back))
    labels, coeffs, want = [], [], {}
    for _ in range(ctx.ri(0, 5)):
        lab = [ctx.ri(0, 3) for _ in range(ctx.ri(1, 6))]
        c = gen.coeff(ctx)
        labels.append(lab)
        coeffs.append(c)
        t = tuple((i, "IXYZ"[x]) for i, x in enumerate(lab) if x)
        want[t] = want.get(t, 0) + c
    got = get_qubitop_from_coeffs_and_labels(coeffs, labels)
    ctx.check(got == gen.qubit_operator(want), "operator from labels", lambda: (coeffs, labels, got))
    bad = ctx.pick([[[1, 2]], [[1, 0, 0], [0, 1, 0], [0, 0, 1]], [[1, 2], [3, 4], [5, 6]], [[0] * 6 for _ in range(6)]])
    ctx.raises(Exception, lambda: get_qubitop_from_matrix(bad), "not a qubit matrix refused")


@CHECK.scenario(quick=180, thorough=4000, needs=("reversed qubit order", "operator cast to another kind", "value from expectation values", "circuits of Pauli products", "expectation value of a state"))
def operators(ctx):
    from zquantum.core.measurement import ExpectationValues
    from zquantum.core.openfermion import IsingOperator, QubitOperator, count_qubits
    from zquantum.core.openfermion.zapata_utils import (
        change_operator_type, create_circuits_from_qubit_operator, evaluate_qubit_operator, evaluate_qubit_operator_list, get_expectation_value, get_pauli_strings,
        reverse_qubit_order,
    )
    from zquantum.core.wavefunction import Wavefunction

    n = ctx.ri(1, 4)
    op = gen.qubit_operator(gen.pauli_terms(ctx, n, ctx.ri(1, 6), real=ctx.chance(0.5)))
    if ctx.chance(0.2):
        op.terms[((0, "Z"),)] = ctx.pick([0.0, 1e-10])
    before = list(op.terms.items())
    ctx.case((tuple(before), n), trivial=not any(op.terms))
    ctx.sample(op)
    cq = count_qubits(op)
    m = qmat(op, n)
    size = ctx.pick([None, n, n + 1])
    r = reverse_qubit_order(op, size) if size else reverse_qubit_order(op)
    w = size or cq
    p = reversal(w)
    ctx.close(qmat(r, w), p @ qmat(op, w) @ p.T, "reversed qubit order", atol=1e-7, detail=lambda: (op, size, r))
    ctx.check(reverse_qubit_order(r, w) == op, "reversed twice", lambda: (op, size))
    if cq:
        ctx.raises(ValueError, lambda: reverse_qubit_order(op, cq - 1), "too few qubits refused")
    # casting
    isg = gen.ising_operator(gen.pauli_terms(ctx, n, ctx.ri(1, 4), letters="Z"))
    c = change_operator_type(isg, QubitOperator)
    ctx.check(isinstance(c, QubitOperator) and not isinstance(c, IsingOperator) or type(c) is QubitOperator, "operator cast to another kind", type(c))
    ctx.equal(c.terms, isg.terms, "operator cast to another kind", detail=lambda: (isg, c))
    c = change_operator_type(c, IsingOperator)
    ctx.check(type(c) is IsingOperator and c == isg, "operator cast to another kind", lambda: (isg, c))
    if any(k != "Z" for t in op.terms for _, k in t):
        ctx.raises(Exception, lambda: change_operator_type(op, IsingOperator), "lossy cast refused")
    # weighted sums
    e = ctx.np.uniform(-1, 1, size=len(op.terms))
    want = sum((c * x).real for c, x in zip(op.terms.values(), e))
    got = evaluate_qubit_operator(op, ExpectationValues(e.copy()))
    ctx.close(got.value, want, "value from expectation values", detail=lambda: (op, e))
    op2 = gen.qubit_operator(gen.pauli_terms(ctx, n, ctx.ri(1, 4)))
    e2 = ctx.np.uniform(-1, 1, size=len(op2.terms))
    got = evaluate_qubit_operator_list([op, op2], ExpectationValues(np.concatenate([e, e2])))
    ctx.close(got.value, want + sum((c * x).real for c, x in zip(op2.terms.values(), e2)), "value from expectation values", detail=lambda: (op, op2, e, e2))
    # circuits and strings, in term order
    cs = create_circuits_from_qubit_operator(op)
    ctx.equal(len(cs), len(op.terms), "circuits of Pauli products")
    for t, c in zip(op.terms, cs):
        k = max([q + 1 for q, _ in t], default=0)
        ctx.equal(c.n_qubits, k, "circuits of Pauli products")
        got = np.array(c.to_unitary(), dtype=complex) if k else np.eye(1)
        ctx.close(got, ref.pauli_term_matrix(t, k), "circuits of Pauli products", detail=t)
    ctx.equal(get_pauli_strings(op), ["".join(f"{a}{q}" for q, a in t) for t in op.terms], "Pauli strings")
    # expectation values
    v = ref.random_state(ctx.np, n)
    if ctx.chance(0.3):
        v = np.eye(2**n, dtype=complex)[ctx.ri(0, 2**n - 1)]
    wf = Wavefunction(v)
    rev = ctx.chance(0.5)
    p = reversal(n)
    mm = p @ m @ p.T if rev else m
    got = get_expectation_value(op, wf, rev) if ctx.chance(0.5) else get_expectation_value(op, wf, reverse_operator=rev)
    ctx.close(got, v.conj() @ mm @ v, "expectation value of a state", atol=1e-7, detail=lambda: (op, v, rev))
    ctx.check(list(op.terms.items()) == before, "operator untouched", lambda: op)
    independent(ctx, "reversed operators", lambda: reverse_qubit_order(op, n), op)
    independent(ctx, "circuits of Pauli products", lambda: create_circuits_from_qubit_operator(op), op)
    independent(ctx, "Pauli strings", lambda: get_pauli_strings(op), op)
    ev2 = ExpectationValues(np.concatenate([e, e2]))
    independent(ctx, "weighted sums", lambda: evaluate_qubit_operator_list([op, op2], ev2), op, op2, ev2)
    independent(ctx, "cast operators", lambda: change_operator_type(isg, QubitOperator), isg)
    independent(ctx, "cast operators", lambda: change_operator_type(op, QubitOperator), op)
    ev = ExpectationValues(e.copy())
    independent(ctx, "weighted sums", lambda: evaluate_qubit_operator(op, ev), op, ev)
    independent(ctx, "expectation value", lambda: get_expectation_value(op, wf, rev), op, wf)


PAULIS = {"I": np.eye(2), "X": np.array([[0, 1], [1, 0]]), "Y": np.array([[0, -1j], [1j, 0]]), "Z": np.diag([1, -1])}


def product_of(circuit, n):
    """One 2x2 matrix per qubit, if the circuit is made of single-qubit gates."""
    out = [np.eye(2, dtype=complex) for _ in range(n)]
    for op in circuit.operations:
        if len(op.qubit_indices) != 1:
            return None
        i = op.qubit_indices[0]
        out[i] = np.array(op.gate.matrix, dtype=complex) @ out[i]
    return out


@CHECK.scenario(quick=60, thorough=1200, needs=("reversed qubit order", "circuits of Pauli products", "value from expectation values", "sparse matrix of a qubit operator", "states with a particle number"))
def wide(ctx):
    """Long terms, many terms and larger registers, followed on basis states instead of whole matrices."""
    from zquantum.core.measurement import ExpectationValues
    from zquantum.core.openfermion import IsingOperator, QubitOperator, get_sparse_operator
    from zquantum.core.openfermion.linalg import jw_configuration_state, jw_hartree_fock_state, jw_number_indices
    from zquantum.core.openfermion.zapata_utils import (
        change_operator_type, create_circuits_from_qubit_operator, evaluate_qubit_operator, evaluate_qubit_operator_list, get_expectation_value, get_pauli_strings,
        get_qubitop_from_coeffs_and_labels, reverse_qubit_order,
    )
    from zquantum.core.wavefunction import Wavefunction

    n = ctx.ri(6, 11)
    ts = {}
    for _ in range(ctx.pick([1, 4, 9, 14])):
        on = sorted(ctx.rng.sample(range(n), ctx.pick([1, 2, n - 1, n])))
        ts[tuple((i, ctx.pick("XYZ")) for i in on)] = ctx.ri(1, 9) / 4
    op = QubitOperator()
    for t, c in ts.items():
        op += QubitOperator(t, c)
    ctx.case((n, tuple(op.terms.items())))
    ctx.sample((n, len(ts)))
    size = n + ctx.ri(0, 3)
    r = reverse_qubit_order(op, size)
    ctx.check(r.terms == {tuple(sorted((size - 1 - i, p) for i, p in t)): c for t, c in op.terms.items()}, "reversed qubit order", lambda: (op, size, r))
    ctx.equal(get_pauli_strings(op), ["".join(f"{a}{q}" for q, a in t) for t in op.terms], "Pauli strings")
    cs = create_circuits_from_qubit_operator(op)
    ctx.equal(len(cs), len(op.terms), "circuits of Pauli products")
    for t, c in zip(op.terms, cs):
        k = t[-1][0] + 1
        ctx.equal(c.n_qubits, k, "circuits of Pauli products")
        got = product_of(c, k)
        if got is not None:
            for i, p in enumerate("".join(dict(t).get(i, "I") for i in range(k))):
                ctx.close(got[i], PAULIS[p], "circuits of Pauli products", detail=lambda: (t, i))
    e = ctx.np.uniform(-1, 1, size=len(op.terms))
    want = sum((c * x).real for c, x in zip(op.terms.values(), e))
    ctx.close(evaluate_qubit_operator(op, ExpectationValues(e)).value, want, "value from expectation values", detail=lambda: (op, e))
    many = [QubitOperator(t, c) for t, c in op.terms.items()]
    ctx.close(evaluate_qubit_operator_list(many, ExpectationValues(e)).value, want, "value from expectation values", detail=lambda: (op, e))
    labels = [[dict(t).get(i, "I") for i in range(n)] for t in op.terms]
    got = get_qubitop_from_coeffs_and_labels(list(op.terms.values()), [["IXYZ".index(x) for x in lab] for lab in labels])
    ctx.check(got == op, "operator from labels", lambda: (op, got))
    zs = QubitOperator()
    for t, c in op.terms.items():
        zs += QubitOperator(tuple((i, "Z") for i, _ in t), c)
    cast = change_operator_type(zs, IsingOperator)
    ctx.check(type(cast) is IsingOperator and cast.terms == zs.terms, "operator cast to another kind", lambda: zs)
    # columns of the sparse matrix, and the values on basis states
    m = get_sparse_operator(op, n).tocsc() if n < 10 or ctx.chance(0.3) else None
    for _ in range(3):
        f = ctx.rng.getrandbits(n)
        at = lambda x: ref.index_of([x >> i & 1 for i in range(n)])
        image = {at(x): v for x, v in act_paulis(op.terms, f).items()}
        v = np.zeros(2**n, dtype=complex)
        v[at(f)] = 1
        if m is not None:
            w = np.zeros(2**n, dtype=complex)
            for x, a in image.items():
                w[x] = a
            ctx.close((m @ v), w, "sparse matrix of a qubit operator", atol=1e-9, detail=lambda: (op, f))
            ctx.close(get_expectation_value(op, Wavefunction(v)), image.get(at(f), 0), "expectation value of a state", atol=1e-7, detail=lambda: (op, f))
            ctx.close(get_expectation_value(zs, Wavefunction(v)), act_paulis(zs.terms, f).get(f, 0), "expectation value of a state", atol=1e-7, detail=lambda: (zs, f))
    k = ctx.ri(0, n)
    ctx.equal(sorted(jw_number_indices(k, n)), [b for b in range(2**n) if bin(b).count("1") == k], "states with a particle number", detail=(k, n))
    occ = ctx.rng.sample(range(n), k)
    ctx.equal(np.nonzero(jw_configuration_state(occ, n))[0].tolist(), [ref.index_of([int(i in occ) for i in range(n)])], "configuration state", detail=(occ, n))
    ctx.equal(np.nonzero(jw_hartree_fock_state(k, n))[0].tolist(), [ref.index_of([int(i < k) for i in range(n)])], "Hartree-Fock state", detail=(k, n))


@CHECK.scenario(quick=120, thorough=2500, needs=("diagonal part", "parts add up"))
def diagonal(ctx):
    from zquantum.core.openfermion import InteractionOperator, PolynomialTensor
    from zquantum.core.openfermion.zapata_utils import get_diagonal_component, get_fermion_number_operator

    n = ctx.ri(1, 3) if ctx.chance(0.7) else 4
    if ctx.chance(0.5):
        c, h, g = gen.hermitian_tensors(ctx, n)
        if ctx.chance(0.5):  # any operator
            h = h + ctx.np.normal(size=h.shape)
            g = g + ctx.np.normal(size=g.shape) * (ctx.np.random(g.shape) < 0.3)
        t = {(): c, (1, 0): h, (1, 1, 0, 0): g}
        op = InteractionOperator(c, h.copy(), g.copy())
    else:
        t = rand_tensors(ctx, n)
        op = PolynomialTensor(copyt(t))
    ctx.case(repr([(k, np.asarray(v).tobytes()) for k, v in t.items()]))
    ctx.sample((type(op).__name__, n, list(t)))
    independent(ctx, "diagonal part", lambda: get_diagonal_component(op), op)
    d, r = get_diagonal_component(op)
    det = lambda: t
    m = tmat(t, n)
    tol = 1e-7 * (1 + np.abs(m).max())
    ctx.close(tmat(d.n_body_tensors, n), np.diag(np.diag(m)), "diagonal part", atol=tol, detail=det)
    ctx.close(tmat(r.n_body_tensors, n), m - np.diag(np.diag(m)), "remaining part", atol=tol, detail=det)
    s = d + r
    ctx.check(s == op, "parts add up", det)
    ctx.check(isinstance(d, type(op)) and isinstance(r, type(op)), "parts keep the kind", det)
    for k, v in t.items():
        ctx.check(np.array_equal(op.n_body_tensors[k], v), "operator untouched", det)
    for x in d.n_body_tensors.values():
        if isinstance(x, np.ndarray):
            x += 1
    for k, v in t.items():
        ctx.check(np.array_equal(op.n_body_tensors[k], v), "parts are independent of the operator", det)
    ctx.raises(TypeError, lambda: get_diagonal_component(ctx.pick([3, None, "Z0"])), "other inputs refused")
    k = ctx.ri(1, 5)
    target = ctx.pick([None, ctx.ri(0, k), 0.5])
    no = get_fermion_number_operator(k, target) if target is not None or ctx.chance(0.5) else get_fermion_number_operator(k)
    want = np.diag([bin(b).count("1") - (target or 0.0) for b in range(2**k)])
    ctx.close(tmat(no.n_body_tensors, k), want, "number operator", detail=(k, target))


@CHECK.scenario(quick=60, thorough=900, needs=("random operator as requested",))
def random_operators(ctx):
    import random

    from zquantum.core.openfermion.zapata_utils import generate_random_qubitop

    n = ctx.ri(1, 7) if ctx.chance(0.6) else ctx.ri(8, 16)
    loc = ctx.ri(1, n)
    from math import comb

    count = ctx.ri(1, min(14, max(1, comb(n, loc) * 3**loc // 2)))
    mx = ctx.pick([1.0, 0.5, 3])
    fixed = ctx.chance(0.4)
    ctx.case((n, loc, count, mx, fixed, ctx.idx))
    state = random.getstate()
    random.seed(ctx.idx)
    a = generate_random_qubitop(n, count, loc, mx, fixed)
    random.seed(ctx.idx)
    b = generate_random_qubitop(n, count, loc, mx, fixed_coeff=fixed)
    random.setstate(state)
    ctx.check(a == b, "random operator reproducible", (n, loc, count))
    ctx.check(
        (len(a.terms) == count or not fixed and any(abs(c) < 1e-7 for c in a.terms.values()))
        and all(len(t) == loc and all(0 <= q < n for q, _ in t) for t in a.terms)
        and all(abs(c) <= mx + 1e-12 and (not fixed or c == mx) for c in a.terms.values()),
        "random operator as requested",
        lambda: (n, count, loc, mx, fixed, a),
    )


# ---------------------------------------------------------------- sparse linear algebra
@CHECK.scenario(quick=220, thorough=5000, needs=("sparse matrix of a qubit operator", "sparse matrix of a fermion operator", "sparse matrix of a tensor operator", "eigenspectrum"))
def sparse(ctx):
    from zquantum.core.openfermion import PolynomialTensor, count_qubits, eigenspectrum, get_sparse_operator
    from zquantum.core.openfermion.linalg import jordan_wigner_sparse, qubit_operator_sparse

    n = ctx.ri(1, 4) if ctx.chance(0.85) else ctx.ri(5, 7)
    q = gen.qubit_operator(gen.pauli_terms(ctx, n, ctx.ri(0, 5), real=ctx.chance(0.5), const=0.8))
    f = gen.fermion_operator(gen.fermion_terms(ctx, n, ctx.ri(0, 4)))
    if ctx.chance(0.2):
        q.terms[((n - 1, "Y"),)] = ctx.pick([0, 0.0, 0j])
        f.terms[((n - 1, 1),)] = ctx.pick([0, 0.0, 0j])
    ctx.case((tuple(q.terms.items()), tuple(f.terms.items()), n), trivial=not any(q.terms) and not any(f.terms))
    ctx.sample((q, f))
    for op, mat, direct, name in ((q, qmat, qubit_operator_sparse, "qubit"), (f, fmat, jordan_wigner_sparse, "fermion")):
        size = ctx.pick([None, n, n + 1]) if n < 6 else ctx.pick([None, n])
        c = count_qubits(op)
        for build in (get_sparse_operator, direct):
            m = build(op, size) if size is not None else build(op)
            ctx.close(m.toarray(), mat(op, c if size is None else size), f"sparse matrix of a {name} operator", atol=1e-9, detail=lambda: (op, size))
        if c and name == "qubit":
            ctx.raises(ValueError, lambda: get_sparse_operator(op, c - 1), "too few qubits refused")
    k = ctx.ri(1, 3)
    t = rand_tensors(ctx, k)
    p = PolynomialTensor(copyt(t))
    size = ctx.pick([None, k, k + 1])
    m = get_sparse_operator(p, size) if size else get_sparse_operator(p)
    want = tmat(t, k)
    if size and size > k:
        want = tmat({}, size)
        for key, v in t.items():
            if key == ():
                want = want + v * np.eye(2**size)
            else:
                big = np.zeros((size,) * len(key), dtype=complex)
                big[tuple(slice(0, k) for _ in key)] = v
                want = want + tmat({key: big}, size)
    ctx.close(m.toarray(), want, "sparse matrix of a tensor operator", atol=1e-9, detail=lambda: (t, size))
    ctx.raises(TypeError, lambda: get_sparse_operator(ctx.pick([3, None, "X0"])), "other inputs refused")
    if n < 5:
        for op in (q, f, p):
            independent(ctx, "sparse matrices", lambda: get_sparse_operator(op), op)
    # spectra: of a Hermitian combination and of a normal (diagonal) one
    from zquantum.core.openfermion import hermitian_conjugated

    if n <= 4:
        for op, mat in ((q + hermitian_conjugated(q), qmat), (f + hermitian_conjugated(f), fmat)):
            size = ctx.pick([n, n + 1])
            got = eigenspectrum(op, size)
            ctx.close(got, np.linalg.eigvalsh(mat(op, size)), "eigenspectrum", atol=1e-6, detail=lambda: op)
        d = gen.qubit_operator(gen.pauli_terms(ctx, n, 3, real=False, letters="Z"))
        got = list(eigenspectrum(d, n))
        for x in np.diag(qmat(d, n)):
            j = int(np.argmin([abs(x - y) for y in got]))
            ctx.close(got.pop(j), x, "eigenspectrum", atol=1e-6, detail=lambda: d)
        ctx.equal(len(got), 0, "eigenspectrum")


def number_conserving(ctx, n, spin=False):
    from zquantum.core.openfermion import FermionOperator

    op = FermionOperator()
    for _ in range(ctx.ri(1, 7)):
        k = ctx.pick([0, 1, 1, 1, 2, 2])
        up = [ctx.ri(0, n - 1) for _ in range(k)]
        if spin:
            dn = []
            for i in up:
                dn.append(ctx.pick([j for j in range(n) if j % 2 == i % 2]))
        else:
            dn = [ctx.ri(0, n - 1) for _ in range(k)]
        t = [(i, 1) for i in up] + [(i, 0) for i in dn]
        if ctx.chance(0.3):
            ctx.rng.shuffle(t)
        op += FermionOperator(tuple(t), gen.coeff(ctx, real=ctx.chance(0.5)))
    return op


@CHECK.scenario(quick=150, thorough=3000, needs=("ground state with a particle number", "operator restricted to a particle number", "expectation value", "density matrix", "ground state"))
def linear(ctx):
    import scipy.sparse
    import scipy.sparse.linalg
    from zquantum.core.openfermion import expectation, get_sparse_operator, hermitian_conjugated
    from zquantum.core.openfermion.linalg import (
        get_density_matrix, get_ground_state, inner_product, jw_configuration_state, jw_get_ground_state_at_particle_number, jw_hartree_fock_state,
        jw_number_indices, jw_number_restrict_operator,
    )

    n = ctx.ri(1, 5)
    f = number_conserving(ctx, n)
    f = f + hermitian_conjugated(f)
    m = fmat(f, n)
    tol = 1e-6 * (1 + np.abs(m).max())
    k = ctx.ri(0, n)
    ctx.case((tuple(f.terms.items()), n, k), trivial=not any(f.terms))
    ctx.sample((f, n, k))
    sel = [b for b in range(2**n) if bin(b).count("1") == k]
    idx = jw_number_indices(k, n)
    ctx.check(sorted(idx) == sel, "states with a particle number", lambda: (k, n, idx))
    sp = get_sparse_operator(f, n)
    sub = m[np.ix_(idx, idx)]
    for given in (sp, m):
        r = jw_number_restrict_operator(given, k, n) if ctx.chance(0.5) else jw_number_restrict_operator(given, k)
        r = r.toarray() if scipy.sparse.issparse(r) else r
        ctx.close(r, sub, "operator restricted to a particle number", atol=tol, detail=lambda: (f, n, k))
    e, v = jw_get_ground_state_at_particle_number(sp, k)
    det = lambda: (f, n, k, e, v)
    ctx.close(e, np.linalg.eigvalsh(sub)[0], "ground state with a particle number", atol=tol, detail=det)
    ctx.close(np.linalg.norm(v), 1, "ground state with a particle number", atol=1e-6, detail=det)
    ctx.close(m @ v, e * v, "ground state with a particle number", atol=tol, detail=det)
    ctx.check(all(abs(v[b]) < 1e-9 for b in range(2**n) if b not in sel), "ground state has the particle number", det)
    q = gen.qubit_operator(gen.pauli_terms(ctx, n, ctx.ri(1, 4)))
    h = qmat(q, n)
    hs = get_sparse_operator(q, n)
    e, v = get_ground_state(hs) if ctx.chance(0.6) else get_ground_state(hs, initial_guess=ctx.np.normal(size=2**n) + 1j * ctx.np.normal(size=2**n))
    det = lambda: (q, n, e, v)
    ctx.close(e, np.linalg.eigvalsh(h)[0], "ground state", atol=1e-6 * (1 + np.abs(h).max()), detail=det)
    ctx.close(h @ v, e * v, "ground state", atol=1e-5 * (1 + np.abs(h).max()), detail=det)
    # expectation values of any operator
    a = gen.qubit_operator(gen.pauli_terms(ctx, n, ctx.ri(1, 4), real=False))
    am, asp = qmat(a, n), get_sparse_operator(a, n)
    s, u = ref.random_state(ctx.np, n), ref.random_state(ctx.np, n)
    want = s.conj() @ am @ s
    ctx.close(expectation(asp, s), want, "expectation value", atol=1e-7, detail=lambda: (a, s))
    ctx.close(expectation(asp, s.reshape(-1, 1)), want, "expectation value", atol=1e-7, detail=lambda: (a, s))
    ctx.close(expectation(scipy.sparse.linalg.aslinearoperator(asp), s), want, "expectation value", atol=1e-7)
    ctx.close(inner_product(s, u), np.vdot(s, u), "inner product", atol=1e-9)
    pr = ctx.np.random(2)
    pr = pr / pr.sum()
    rho = get_density_matrix([s, u], list(pr))
    ctx.close(rho.toarray(), pr[0] * np.outer(s, s.conj()) + pr[1] * np.outer(u, u.conj()), "density matrix", atol=1e-8)
    ctx.close(expectation(asp, rho), np.trace(rho.toarray() @ am), "expectation value", atol=1e-7)
    ctx.raises(ValueError, lambda: expectation(asp, [0, 1]), "other states refused")
    ctx.raises(ValueError, lambda: expectation(scipy.sparse.linalg.aslinearoperator(asp), rho), "density matrix of a linear operator refused")
    # adjoints and Hermiticity of matrices
    from zquantum.core.openfermion import is_hermitian

    x = am * ctx.pick([1, 1e-7, 1e3])
    if ctx.chance(0.4):
        x = x + x.conj().T
    if ctx.chance(0.3) and n:
        x = x.copy()
        x[ctx.ri(0, 2**n - 1), ctx.ri(0, 2**n - 1)] += ctx.pick([1, 1j, 1e-3j, -0.5])
    gap = np.abs(x - x.conj().T).max()
    kept = x.copy()
    for y in (x, scipy.sparse.csc_matrix(x), scipy.sparse.coo_matrix(x), scipy.sparse.csr_matrix(x)):
        z = hermitian_conjugated(y)
        ctx.close(z.toarray() if scipy.sparse.issparse(z) else z, x.conj().T, "adjoint of a matrix", atol=1e-12)
        if gap < 1e-9 or gap > 1e-7:
            ctx.equal(bool(is_hermitian(y)), gap < 1e-9, "Hermitian matrix recognised", detail=lambda: x)
    ctx.check((x == kept).all(), "matrices untouched")
    for fn in (hermitian_conjugated, is_hermitian):
        ctx.raises(TypeError, lambda: fn(ctx.pick([[[1, 0], [0, 1]], 3, "X0", None])), "other inputs refused")
    occ = ctx.rng.sample(range(n), ctx.ri(0, n))
    w = np.zeros(2**n)
    w[ref.index_of([1 if i in occ else 0 for i in range(n)])] = 1
    ctx.close(jw_configuration_state(occ, n), w, "configuration state", detail=(occ, n))
    w = np.zeros(2**n)
    w[ref.index_of([1 if i < k else 0 for i in range(n)])] = 1
    ctx.close(jw_hartree_fock_state(k, n), w, "Hartree-Fock state", detail=(k, n))


@CHECK.scenario(quick=300, thorough=5000, needs=("number-preserving matrix",))
def restricted(ctx):
    from zquantum.core.openfermion.linalg import get_number_preserving_sparse_operator

    n = ctx.ri(1, 6)
    spin = ctx.chance(0.4) and n % 2 == 0
    f = number_conserving(ctx, n, spin)
    k = ctx.ri(0, n)
    refdet = [i < k for i in range(n)]
    given = None
    if ctx.chance(0.5):
        ctx.rng.shuffle(refdet)
        given = list(refdet) if ctx.chance(0.5) else np.array(refdet)
    level = ctx.pick([None, ctx.ri(0, k), ctx.ri(0, min(1, k))])
    ctx.case((tuple(f.terms.items()), n, k, tuple(refdet), level, spin), trivial=not any(f.terms))
    ctx.sample((f, n, k, refdet, level, spin))
    ctx.event(f"restriction:{'spin' if spin else 'number'}:{'level' if level is not None else 'all'}")
    got = get_number_preserving_sparse_operator(f, n, k, spin, given, level).toarray()
    det = lambda: (f, n, k, refdet, level, spin)
    # states of the space, by excitation rank from the reference
    space = []
    for bits in itertools.product((0, 1), repeat=n):
        if sum(bits) != k or (spin and sum(bits[::2]) != sum(refdet[::2])):
            continue
        rank = sum(1 for a, b in zip(refdet, bits) if a and not b)
        if level is None or rank <= level:
            space.append((rank, bits))
    ctx.equal(got.shape, (len(space), len(space)), "number-preserving space", detail=det)
    if got.shape != (len(space), len(space)):
        return
    m = fmat(f, n)
    sel = [ref.index_of(b) for _, b in space]
    want = m[np.ix_(sel, sel)]
    # the order of the other states is unspecified: the reference comes first, spectra and diagonal must agree
    i0 = ref.index_of(refdet)
    ctx.close(got[0, 0], m[i0, i0], "reference comes first", atol=1e-7, detail=det)
    ctx.close(np.sort_complex(np.diag(got)), np.sort_complex(np.diag(want)), "number-preserving matrix", atol=1e-6, detail=det)
    tol = 1e-6 * (1 + np.abs(want).max()) ** 3 * max(1, len(space))
    for x, y in ((got, want), (got @ got, want @ want), (got.conj().T @ got, want.conj().T @ want)):
        ctx.close(np.trace(x), np.trace(y), "number-preserving matrix", atol=tol, detail=det)
        ctx.close(np.linalg.norm(x), np.linalg.norm(y), "number-preserving matrix", atol=tol, detail=det)
    hg, hw = got + got.conj().T, want + want.conj().T
    ctx.close(np.linalg.eigvalsh(hg), np.linalg.eigvalsh(hw), "number-preserving matrix", atol=tol, detail=det)
    hg, hw = 1j * (got - got.conj().T), 1j * (want - want.conj().T)
    ctx.close(np.linalg.eigvalsh(hg), np.linalg.eigvalsh(hw), "number-preserving matrix", atol=tol, detail=det)
    from zquantum.core.openfermion import FermionOperator

    if n > 1:
        bad = f + FermionOperator(ctx.pick([((n - 1, 1),), ((0, 0),), ((1, 1), (0, 1))]), 1.0)
        ctx.raises(ValueError, lambda: get_number_preserving_sparse_operator(bad, n, k), "particle number must be preserved")
