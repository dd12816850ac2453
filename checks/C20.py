"""Fermion-to-qubit transforms and orderings against defining matrices."""
import numpy as np

from vlib import gen, ref
from vlib.alias import independent
from vlib.harness import Check

CHECK = Check(
    "C20",
    "a case is one operator (or pair of operators) with the transforms, register size and relabeling applied; "
    "constants are trivial",
    ["at most 6 modes with dense matrices, 9 modes for single terms compared as operators (14 in interaction operators), 1100 modes acting on occupation states; interaction operators are Hermitian "
     "(documented requirement of the direct transforms)"],
)


def terms(ctx, n, count=3, longest=5):
    return gen.fermion_terms(ctx, n, ctx.ri(1, count), max_len=longest)


def qmat(op, n):
    return ref.qubit_terms_matrix(op.terms, n)


def fmat(op, n):
    return ref.fermion_terms_matrix(op.terms, n)


def fenwick(n):
    """Permutation matrix from occupation to Bravyi-Kitaev basis: bit i holds the parity of its Fenwick range."""
    p = np.zeros((2**n, 2**n))
    for b in range(2**n):
        f = [(b >> (n - 1 - k)) & 1 for k in range(n)]
        out = []
        for i in range(n):
            low = (i + 1) & -(i + 1)
            out.append(sum(f[i + 1 - low: i + 1]) % 2)
        p[int("0" + "".join(map(str, out)), 2), b] = 1
    return p


def frozen(op):
    return [(t, c, type(c)) for t, c in op.terms.items()]


@CHECK.scenario(quick=260, thorough=6000, needs=("Jordan-Wigner=defining matrices", "Bravyi-Kitaev=encoded matrices"))
def forward(ctx):
    from zquantum.core.openfermion import bravyi_kitaev, hermitian_conjugated, jordan_wigner

    n = ctx.ri(1, 5)
    a = gen.fermion_operator(terms(ctx, n))
    b = gen.fermion_operator(terms(ctx, n, 2, 3))
    ka, kb = frozen(a), frozen(b)
    ctx.case((ka, kb, n), trivial=all(not t for t in a.terms))
    ctx.sample((a, b))
    ma, mb = fmat(a, n), fmat(b, n)
    tol = 1e-6 * (1 + np.abs(ma).max() + np.abs(mb).max()) ** 2
    ja, jb = jordan_wigner(a), jordan_wigner(b)
    ctx.close(qmat(ja, n), ma, "Jordan-Wigner=defining matrices", atol=tol, detail=lambda: (a, ja))
    ctx.close(qmat(jordan_wigner(a * b), n), ma @ mb, "Jordan-Wigner of a product", atol=tol, detail=lambda: (a, b))
    ctx.close(qmat(jordan_wigner(hermitian_conjugated(a)), n), ma.conj().T, "Jordan-Wigner of the adjoint", atol=tol)
    ctx.check(jordan_wigner(a + b) == ja + jb, "Jordan-Wigner of a sum", lambda: (a, b))
    ctx.check(jordan_wigner(a * b) == ja * jb, "Jordan-Wigner of a product", lambda: (a, b))
    m = n + (ctx.ri(0, 2) if n < 5 else 0)
    p = fenwick(m)
    w = bravyi_kitaev(a, n_qubits=m) if m != n or ctx.chance(0.5) else None
    from zquantum.core.openfermion import count_qubits

    if w is None:
        w = bravyi_kitaev(a)
        m = count_qubits(a)
        p = fenwick(m)
    full = fmat(a, m)
    ctx.close(qmat(w, m), p @ full @ p.T, "Bravyi-Kitaev=encoded matrices", atol=tol, detail=lambda: (a, m, w))
    m = max(n, 1)
    ctx.check(bravyi_kitaev(a * b, m) == bravyi_kitaev(a, m) * bravyi_kitaev(b, m), "Bravyi-Kitaev of a product", lambda: (a, b))
    ctx.check(bravyi_kitaev(a + b, m) == bravyi_kitaev(a, m) + bravyi_kitaev(b, m), "Bravyi-Kitaev of a sum", lambda: (a, b))
    ctx.check(
        bravyi_kitaev(hermitian_conjugated(a), m) == hermitian_conjugated(bravyi_kitaev(a, m)), "Bravyi-Kitaev of the adjoint", lambda: a
    )
    ctx.check(frozen(a) == ka and frozen(b) == kb, "transformed operators untouched", lambda: (a, b))
    if count_qubits(a) > 0:
        ctx.raises(ValueError, lambda: bravyi_kitaev(a, count_qubits(a) - 1), "too few qubits refused")
    for f in (jordan_wigner, bravyi_kitaev):
        ctx.raises(TypeError, lambda: f(ctx.pick([ja, 5, None, "0^"])), "other inputs refused")


@CHECK.scenario(quick=120, thorough=3000, needs=("anticommutation relations",))
def relations(ctx):
    """Ladder operators of large registers: canonical relations checked algebraically."""
    from zquantum.core.openfermion import FermionOperator, QubitOperator, anticommutator, bravyi_kitaev, jordan_wigner

    n = ctx.ri(2, 17)
    p, q = ctx.ri(0, n - 1), ctx.ri(0, n - 1)
    ctx.case((n, p, q))
    for tr in (jordan_wigner, lambda f: bravyi_kitaev(f, n)):
        a = {(i, d): tr(FermionOperator(((i, d),))) for i in (p, q) for d in (0, 1)}
        same = QubitOperator(()) if p == q else QubitOperator()
        ctx.check(anticommutator(a[p, 0], a[q, 1]) == same, "anticommutation relations", (n, p, q))
        ctx.check(anticommutator(a[p, 0], a[q, 0]) == QubitOperator(), "anticommutation relations", (n, p, q))
        ctx.check(anticommutator(a[p, 1], a[q, 1]) == QubitOperator(), "anticommutation relations", (n, p, q))
        ctx.check(all(i < n for x in a.values() for t in x.terms for i, _ in t), "image stays in the register", (n, p, q))
        # the vacuum of all modes is the all-zero state: a_p |0> = 0
        z = a[p, 1] * a[p, 0]
        ctx.close(sum(complex(c) for t, c in z.terms.items() if all(k == "Z" for _, k in t)), 0, "vacuum is the zero state")


@CHECK.scenario(quick=200, thorough=5000, needs=("reverse inverts forward", "forward inverts reverse"))
def reverse(ctx):
    from zquantum.core.openfermion import count_qubits, jordan_wigner, normal_ordered, reverse_jordan_wigner

    n = ctx.ri(1, 5)
    q = gen.qubit_operator(gen.pauli_terms(ctx, n, ctx.ri(1, 4), real=ctx.chance(0.5)))
    k = frozen(q)
    ctx.case((k, n), trivial=all(not t for t in q.terms))
    ctx.sample(q)
    size = ctx.pick([None, None, n, n + 1])
    f = reverse_jordan_wigner(q, size) if size is not None else reverse_jordan_wigner(q)
    ctx.close(fmat(f, n), qmat(q, n), "reverse Jordan-Wigner=defining matrices", atol=1e-6, detail=lambda: (q, f))
    ctx.check(jordan_wigner(f) == q, "forward inverts reverse", lambda: (q, f))
    a = gen.fermion_operator(terms(ctx, n, 2, 4))
    ctx.check(normal_ordered(reverse_jordan_wigner(jordan_wigner(a))) == normal_ordered(a), "reverse inverts forward", lambda: a)
    ctx.check(frozen(q) == k, "transformed operators untouched", q)
    independent(ctx, "reverse transforms", lambda: reverse_jordan_wigner(q, n), q)
    c = count_qubits(q)
    if c:
        ctx.raises(ValueError, lambda: reverse_jordan_wigner(q, c - 1), "too few qubits refused")
    ctx.raises(TypeError, lambda: reverse_jordan_wigner(a), "other inputs refused")


@CHECK.scenario(quick=110, thorough=2500, needs=("interaction operator transformed directly (JW)", "interaction operator transformed directly (BK)", "interaction operator normal ordered"))
def interaction(ctx):
    from zquantum.core.openfermion import InteractionOperator, bravyi_kitaev, get_fermion_operator, is_hermitian, jordan_wigner, normal_ordered

    n = ctx.ri(1, 4) if ctx.chance(0.85) else 5
    c, h, g = gen.hermitian_tensors(ctx, n, sparse=n == 5)
    ctx.case((n, c, h.tobytes(), g.tobytes()), trivial=not h.any() and not g.any())
    iop = InteractionOperator(c, h.copy(), g.copy())
    m = ref.tensor_matrix(c, h, g)
    tol = 1e-6 * (1 + np.abs(m).max())
    ctx.sample((n, c, h.dtype, g.dtype, int((g != 0).sum())))
    ctx.close(qmat(jordan_wigner(iop), n), m, "interaction operator transformed directly (JW)", atol=tol, detail=lambda: (n, c, h, g))
    p = fenwick(n)
    ctx.close(qmat(bravyi_kitaev(iop), n), p @ m @ p.T, "interaction operator transformed directly (BK)", atol=tol, detail=lambda: (n, c, h, g))
    if n < 5:
        k = n + ctx.ri(0, 1)
        p = fenwick(k)
        big = np.kron(m, np.eye(2)) if k > n else m
        ctx.close(qmat(bravyi_kitaev(iop, k), k), p @ big @ p.T, "interaction operator on a larger register (BK)", atol=tol, detail=lambda: (n, k, c, h, g))
    ctx.raises(ValueError, lambda: bravyi_kitaev(iop, n - 1), "too few qubits refused")
    f = get_fermion_operator(iop)
    ctx.close(fmat(f, n), m, "expansion of the interaction operator", atol=tol)
    no = normal_ordered(iop)
    ctx.check(isinstance(no, InteractionOperator), "normal ordering keeps the kind", type(no))
    nf = get_fermion_operator(no)
    nf.compress()
    ctx.close(fmat(nf, n), m, "interaction operator normal ordered", atol=tol)
    ctx.check(all(is_normal(t) for t in nf.terms), "normal ordered form", lambda: nf)
    ctx.check(is_hermitian(iop), "Hermitian operator recognised", lambda: (c, h, g))
    ctx.check(
        iop.constant == c and (iop.one_body_tensor == h).all() and (iop.two_body_tensor == g).all(), "interaction operator untouched"
    )
    for f in (normal_ordered, get_fermion_operator, jordan_wigner, bravyi_kitaev):
        independent(ctx, "transforms of an interaction operator", lambda: f(iop), iop)


def act_fermion(terms, state):
    """The operator applied to the occupation state, a bit mask; amplitudes by resulting mask."""
    out = {}
    for t, c in terms.items():
        amp, f = complex(c), state
        for i, up in reversed(t):
            if bool(f >> i & 1) == bool(up):
                amp = 0
                break
            amp *= -1 if bin(f & ((1 << i) - 1)).count("1") % 2 else 1
            f ^= 1 << i
        if amp:
            out[f] = out.get(f, 0) + amp
    return out


def act_paulis(terms, state):
    out = {}
    for t, c in terms.items():
        amp, f = complex(c), state
        for i, p in t:
            if p != "X" and f >> i & 1:
                amp = -amp
            if p == "Y":
                amp *= 1j
            if p != "Z":
                f ^= 1 << i
        out[f] = out.get(f, 0) + amp
    return out


def encoded(f, n):
    """Bit i of the Bravyi-Kitaev basis state: the parity of the Fenwick range ending at mode i."""
    out = 0
    for i in range(n):
        low = (i + 1) & -(i + 1)
        out |= (bin(f >> (i + 1 - low) & ((1 << low) - 1)).count("1") % 2) << i
    return out


def agree(got, want, tol=1e-6):
    return all(abs(got.get(k, 0) - want.get(k, 0)) <= tol for k in set(got) | set(want))


@CHECK.scenario(quick=70, thorough=1500, needs=("Jordan-Wigner acts on occupations", "Bravyi-Kitaev acts on encoded occupations", "reverse Jordan-Wigner acts on occupations"))
def wide(ctx):
    """Registers, terms and operators too large for matrices: the action on occupation states, one at a time."""
    from zquantum.core.openfermion import (
        FermionOperator, InteractionOperator, QubitOperator, bravyi_kitaev, get_fermion_operator, jordan_wigner, reorder, reverse_jordan_wigner,
    )
    from zquantum.core.openfermion.transforms.opconversions.jordan_wigner import jordan_wigner_one_body, jordan_wigner_two_body

    n = ctx.ri(7, 40) if ctx.chance(0.8) else ctx.ri(300, 1100)
    ts = {}
    for _ in range(ctx.pick([1, 3, 9, 14])):
        ts[tuple((ctx.ri(0, n - 1), ctx.ri(0, 1)) for _ in range(ctx.ri(0, 4)))] = complex(ctx.ri(1, 9), ctx.ri(-3, 3)) / 4
    if ctx.chance(0.3) and n < 300:
        # one long term: distinct modes, so that it does not vanish
        n = ctx.ri(10, 14)
        ts = {tuple((i, ctx.ri(0, 1)) for i in ctx.rng.sample(range(n), ctx.ri(7, 9))): 1.5}
    a = FermionOperator()
    for t, c in ts.items():
        a += FermionOperator(t, c)
    m = n + ctx.ri(0, 2)
    ctx.case((n, m, frozen(a)))
    ctx.sample((n, len(ts)))
    j, w = jordan_wigner(a), bravyi_kitaev(a, m)
    seen = 0
    for k in range(6):
        f = ctx.rng.getrandbits(n) if n < 300 or k else 0
        t = ctx.pick(list(a.terms))
        for i, up in t:
            f = f & ~(1 << i) if up else f | 1 << i
        want = act_fermion(a.terms, f)
        seen += bool(want)
        ctx.check(agree(act_paulis(j.terms, f), want), "Jordan-Wigner acts on occupations", lambda: (a, f))
        got = act_paulis(w.terms, encoded(f, m))
        ctx.check(agree(got, {encoded(x, m): v for x, v in want.items()}), "Bravyi-Kitaev acts on encoded occupations", lambda: (a, m, f))
    ctx.event("occupation states with an image", seen)
    total = max([i + 1 for t in a.terms for i, _ in t], default=0)
    perm = list(range(total))
    ctx.rng.shuffle(perm)
    fn = lambda i, num: perm[i]
    r = reorder(a, fn)
    ctx.check(r.terms == {tuple((perm[i], x) for i, x in t): c for t, c in a.terms.items()}, "relabeled", lambda: (a, perm, r))
    ctx.check(reorder(r, fn, total, reverse=True).terms == a.terms, "reverse relabeling", lambda: (a, perm))
    # single terms with their adjoints, far apart
    k = ctx.ri(10, 40)
    i, j, u, v = (ctx.ri(0, k - 1) for _ in range(4))
    c = complex(ctx.ri(1, 9), ctx.ri(-4, 4)) / 4
    for modes, build in (((i, j), jordan_wigner_one_body), ((i, j, u, v), jordan_wigner_two_body)):
        half = len(modes) // 2
        t = tuple((x, 1) for x in modes[:half]) + tuple((x, 0) for x in modes[half:])
        own = set(modes[:half]) == set(modes[half:])
        cc = c.real if own else c
        want = {t: cc}
        if not own:
            back = tuple((x, 1 - d) for x, d in reversed(t))
            want[back] = want.get(back, 0) + cc.conjugate()
        got = build(*modes, cc)
        for _ in range(4):
            f = ctx.rng.getrandbits(k)
            for x in modes[half:]:
                f |= 1 << x
            for x in modes[:half]:
                if x not in modes[half:]:
                    f &= ~(1 << x)
            ctx.check(agree(act_paulis(got.terms, f), act_fermion(want, f)), "distant single terms act on occupations", lambda: (modes, cc, f))
    if n >= 300 or ctx.chance(0.1):
        c0, h, g = gen.hermitian_tensors(ctx, ctx.ri(1, 4), sparse=True)
        iop = InteractionOperator(c0, h, g)
        x = get_fermion_operator(iop)
        far = max(n, 20)
        ctx.check(bravyi_kitaev(iop, far) == bravyi_kitaev(x, far), "interaction operator on a wide register (BK)", lambda: (far, c0, h, g))
    size = ctx.ri(7, 12)
    q = QubitOperator()
    for _ in range(ctx.pick([1, 2, 10])):
        on = sorted(ctx.rng.sample(range(size), ctx.ri(size - 2, size) if len(q.terms) < 2 else 2))
        q += QubitOperator(tuple((i, ctx.pick("XYZ")) for i in on), ctx.ri(1, 9) / 4)
    b = reverse_jordan_wigner(q)
    for _ in range(3):
        f = ctx.rng.getrandbits(size)
        ctx.check(agree(act_fermion(b.terms, f), act_paulis(q.terms, f)), "reverse Jordan-Wigner acts on occupations", lambda: (q, f))
    perm = list(range(size))
    ctx.rng.shuffle(perm)
    moved = reorder(q, fn, size)
    ctx.check(moved.terms == {tuple(sorted((perm[i], x) for i, x in t)): c for t, c in q.terms.items()}, "relabeled", lambda: (q, perm, moved))


@CHECK.scenario(quick=60, thorough=1500, needs=("large interaction operator",))
def large_interaction(ctx):
    """Few terms on many modes, where update, parity and occupation sets are large."""
    from zquantum.core.openfermion import InteractionOperator, bravyi_kitaev, get_fermion_operator, jordan_wigner

    n = ctx.ri(5, 9) if ctx.chance(0.7) else ctx.ri(10, 14)
    h = np.zeros((n, n), dtype=complex)
    g = np.zeros((n,) * 4, dtype=complex)
    what = []
    for _ in range(ctx.ri(1, 3)):
        c = complex(ctx.rng.uniform(-2, 2), ctx.pick([0, ctx.rng.uniform(-1, 1)]))
        if ctx.chance(0.2):
            c = 1j * c.real
        if ctx.chance(0.4):
            p, q = ctx.ri(0, n - 1), ctx.ri(0, n - 1)
            h[p, q] += c
            h[q, p] += c.conjugate()
            what.append((p, q, c))
        else:
            p, q, r, s = (ctx.ri(0, n - 1) for _ in range(4))
            g[p, q, r, s] += c
            g[s, r, q, p] += c.conjugate()
            what.append((p, q, r, s, c))
    ctx.case((n, what))
    ctx.sample((n, what))
    iop = InteractionOperator(0.5, h, g)
    f = get_fermion_operator(iop)
    for name, tr in (("JW", jordan_wigner), ("BK", bravyi_kitaev)):
        x = tr(iop)
        y = tr(f) if name == "JW" else tr(f, n)
        ctx.check(x == y, "large interaction operator", lambda: (name, n, what, x - y))


def is_normal(t):
    """Creation operators first, indices strictly descending within each kind."""
    ups = [i for i, a in t if a]
    downs = [i for i, a in t if not a]
    return (
        list(t) == [(i, 1) for i in ups] + [(i, 0) for i in downs]
        and all(x > y for x, y in zip(ups, ups[1:]))
        and all(x > y for x, y in zip(downs, downs[1:]))
    )


def rewritten(ctx, ts, steps):
    """The same operator in another form: random applications of the anticommutation relations."""
    out = dict(ts)
    for _ in range(steps):
        t = ctx.pick(list(out))
        if len(t) < 2:
            continue
        j = ctx.ri(0, len(t) - 2)
        (p, a), (q, b) = t[j], t[j + 1]
        c = out.pop(t)
        s = t[:j] + (t[j + 1], t[j]) + t[j + 2:]
        out[s] = out.get(s, 0) - c
        if p == q and a != b:
            u = t[:j] + t[j + 2:]
            out[u] = out.get(u, 0) + c
    return out


@CHECK.scenario(quick=350, thorough=9000, needs=("normal ordering keeps the operator", "normal form is unique", "normal order recognised"))
def ordering(ctx):
    from zquantum.core.openfermion import FermionOperator, normal_ordered

    n = ctx.ri(1, 4)
    ts = terms(ctx, n, 3, 6)
    a = gen.fermion_operator(ts)
    k = frozen(a)
    ctx.case((k, n), trivial=all(not t for t in a.terms))
    ctx.sample(a)
    no = normal_ordered(a)
    ctx.close(fmat(no, n), fmat(a, n), "normal ordering keeps the operator", atol=1e-6, detail=lambda: (a, no))
    ctx.check(all(is_normal(t) for t in no.terms), "normal ordered form", lambda: (a, no))
    ctx.check(no.is_normal_ordered(), "normal order recognised", lambda: no)
    ctx.equal(a.is_normal_ordered(), all(is_normal(t) for t in a.terms), "normal order recognised", a)
    ctx.check(normal_ordered(no) == no, "normal ordering is idempotent", lambda: no)
    b = gen.fermion_operator(rewritten(ctx, dict(a.terms), ctx.ri(1, 8)))
    ctx.check(normal_ordered(b) == no, "normal form is unique", lambda: (a, b, no))
    ctx.check(frozen(a) == k, "ordered operators untouched", a)
    c = gen.fermion_operator(terms(ctx, n, 2, 4))
    differ = np.abs(fmat(c, n) - fmat(a, n)).max()
    if differ > 1e-5:
        ctx.check(normal_ordered(c) != no, "distinct operators, distinct forms", lambda: (a, c))
    ctx.raises(TypeError, lambda: normal_ordered(ctx.pick([5, "0^ 1", None])), "other inputs refused")
    # the same modes under other numbers: order-preserving relabeling commutes with normal ordering
    far = sorted(ctx.rng.sample(ctx.pick([range(12), range(9, 13), range(98, 103), range(300), [0, 1, 9, 10, 11, 99, 100, 101, 256, 257, 1000]]), n)) if n < 5 else list(range(n))
    moved = lambda op: FermionOperator.accumulate(FermionOperator(tuple((far[i], d) for i, d in t), v) for t, v in op.terms.items())
    ctx.check(normal_ordered(moved(a)) == moved(no), "normal ordering of distant modes", lambda: (a, far, normal_ordered(moved(a)), no))
    ctx.equal(moved(a).is_normal_ordered(), a.is_normal_ordered(), "normal order of distant modes", lambda: (a, far))
    from zquantum.core.openfermion import bravyi_kitaev, jordan_wigner

    for f in (normal_ordered, jordan_wigner, bravyi_kitaev):
        independent(ctx, "transforms of a fermion operator", lambda: f(a), a)
        independent(ctx, "transforms of a normal ordered operator", lambda: f(no), no)


@CHECK.scenario(quick=200, thorough=5000, needs=("chemist ordering keeps the operator", "number conservation recognised"))
def chemist(ctx):
    from zquantum.core.openfermion import FermionOperator
    from zquantum.core.openfermion.transforms import chemist_ordered

    n = ctx.ri(1, 5)
    ts = {}
    for _ in range(ctx.ri(1, 4)):
        L = ctx.pick([0, 1, 1, 2, 2, 2])
        acts = [1] * L + [0] * L
        ctx.rng.shuffle(acts)
        ts[tuple((ctx.ri(0, n - 1), x) for x in acts)] = gen.coeff(ctx)
    a = gen.fermion_operator(ts)
    k = frozen(a)
    ctx.case((k, n), trivial=all(not t for t in a.terms))
    ctx.check(a.is_two_body_number_conserving(), "number conservation recognised", a)
    o = chemist_ordered(a)
    ctx.close(fmat(o, n), fmat(a, n), "chemist ordering keeps the operator", atol=1e-6, detail=lambda: (a, o))
    ctx.check(
        all(len(t) in (0, 2, 4) and [x for _, x in t] == [1, 0] * (len(t) // 2) for t in o.terms), "chemist ordered form", lambda: (a, o)
    )
    ctx.check(frozen(a) == k, "ordered operators untouched", a)
    spin = all(sum((1 if x else -1) for i, x in t if i % 2 == 0) == 0 for t in a.terms)
    ctx.equal(a.is_two_body_number_conserving(check_spin_symmetry=True), spin, "spin conservation recognised", a)
    bad = a + FermionOperator(ctx.pick(["0^", "1 0", "0^ 1^ 0", "3^ 2^ 1^ 0 1 2", "0^ 1^ 2^ 3"]), 1.5)
    ctx.check(not bad.is_two_body_number_conserving(), "number conservation recognised", bad)
    ctx.raises(TypeError, lambda: chemist_ordered(bad), "other operators refused")


@CHECK.scenario(quick=250, thorough=6000, needs=("relabeled", "reverse relabeling"))
def relabeling(ctx):
    from zquantum.core.openfermion import FermionOperator, QubitOperator, count_qubits, down_index, reorder, up_index, up_then_down

    n = ctx.ri(1, 7)
    if ctx.chance(0.6):
        a = gen.fermion_operator(gen.fermion_terms(ctx, n, ctx.ri(1, 4)))
    else:
        a = gen.qubit_operator(gen.pauli_terms(ctx, n, ctx.ri(1, 4), real=False))
    k = frozen(a)
    modes = max([i + 1 for t in a.terms for i, _ in t], default=0)
    given = ctx.chance(0.6)
    total = n if given else modes
    perm = list(range(total))
    ctx.rng.shuffle(perm)
    if ctx.chance(0.4):
        fn = up_then_down
        evens = [i for i in range(total) if i % 2 == 0] + [i for i in range(total) if i % 2]
        perm = [evens.index(i) for i in range(total)]
    else:
        fn = lambda i, m: perm[i]
    ctx.case((k, n, given, perm), trivial=not modes)
    ctx.sample((a, perm))
    r = reorder(a, fn, n) if given else reorder(a, fn)
    want = {}
    for t, c in a.terms.items():
        u = [(perm[i], x) for i, x in t]
        if isinstance(a, QubitOperator):
            u = sorted(u)
        want[tuple(u)] = c
    ctx.check(type(r) is type(a) and r.terms == want, "relabeled", lambda: (a, perm, r, want))
    back = reorder(r, fn, total, reverse=True)
    ctx.check(back.terms == a.terms, "reverse relabeling", lambda: (a, perm, r, back))
    ctx.check(frozen(a) == k, "relabeled operators untouched", a)
    i = ctx.ri(0, 50)
    ctx.equal((up_index(i), down_index(i)), (2 * i, 2 * i + 1), "spin orbitals of an orbital")
    independent(ctx, "relabeling", lambda: reorder(a, fn, total), a)
    same = lambda i, m: i
    independent(ctx, "relabeling", lambda: reorder(a, same), a)
    ctx.check(reorder(a, same).terms == a.terms, "relabeled", a)


@CHECK.scenario(quick=150, thorough=4000, needs=("one-body term with its adjoint", "two-body term with its adjoint"))
def single_terms(ctx):
    from zquantum.core.openfermion.transforms.opconversions.jordan_wigner import jordan_wigner_one_body, jordan_wigner_two_body

    n = ctx.ri(2, 5)
    c = complex(ctx.rng.uniform(-2, 2), ctx.rng.uniform(-2, 2))
    p, q, r, s = (ctx.ri(0, n - 1) for _ in range(4))
    ctx.case((n, p, q, r, s, c))
    up = lambda j: ref.ladder(n, j, 1)
    dn = lambda j: ref.ladder(n, j, 0)
    m = up(p) @ dn(q)
    if p == q:
        want = c.real * m
        got = jordan_wigner_one_body(p, q, c.real)
    else:
        want = c * m + c.conjugate() * m.conj().T
        got = jordan_wigner_one_body(p, q, c)
    ctx.close(qmat(got, n), want, "one-body term with its adjoint", detail=lambda: (p, q, c))
    independent(ctx, "single terms", lambda: jordan_wigner_one_body(p, q, c.real))
    independent(ctx, "single terms", lambda: jordan_wigner_two_body(p, q, r, s, c.real))
    m = up(p) @ up(q) @ dn(r) @ dn(s)
    if {p, q} == {r, s}:
        want = c.real * m
        got = jordan_wigner_two_body(p, q, r, s, c.real)
    else:
        want = c * m + c.conjugate() * m.conj().T
        got = jordan_wigner_two_body(p, q, r, s, c)
    ctx.close(qmat(got, n), want, "two-body term with its adjoint", detail=lambda: (p, q, r, s, c))
