"""Tensor forms of fermionic operators against the matrices of the operators they stand for."""
import itertools

import numpy as np

from vlib import gen, ref
from vlib.alias import independent
from vlib.harness import Check

CHECK = Check(
    "C21",
    "a case is one tensor operator, RDM or fermion operator with the operation, rotation or orbital sets applied; "
    "zero tensors are trivial",
    ["at most 5 modes (8 for active spaces, compared block-wise); rotations are unitary (real for RDMs, as documented)"],
)

KEYS = [(1, 0), (1, 1, 0, 0), (0, 1), (1,), (0,), (1, 1), (0, 0), (1, 0, 0, 1), (1, 0, 1, 0), (0, 1, 0)]


def fmat(op, n):
    return ref.fermion_terms_matrix(op.terms, n)


def tmat(tensors, n, lad=None):
    """Matrix of sum over keys of T[indices] * product of ladder operators; lad(key bit, index) gives the ladder matrices."""
    lad = lad or (lambda d, i: ref.ladder(n, i, d))
    out = np.zeros((2**n, 2**n), dtype=complex)
    for key, t in tensors.items():
        if key == ():
            out += t * np.eye(2**n)
            continue
        for idx in itertools.product(range(n), repeat=len(key)):
            if t[idx]:
                m = np.eye(2**n, dtype=complex)
                for d, i in zip(key, idx):
                    m = m @ lad(d, i)
                out += t[idx] * m
    return out


def rand_tensor(ctx, shape, sparse=0.5, kind=None):
    kind = kind or ctx.pick(["real", "complex", "complex"])
    t = ctx.np.normal(size=shape)
    if kind == "complex":
        t = t + 1j * ctx.np.normal(size=shape)
    if kind == "int":
        t = np.round(2 * t).astype(int)
    return t * (ctx.np.random(shape) < sparse)


def rand_tensors(ctx, n, kinds=("real", "complex"), count=3, keys=KEYS):
    ks = ctx.rng.sample(keys, ctx.ri(1, min(count, len(keys))))
    out = {k: rand_tensor(ctx, (n,) * len(k), ctx.pick([0.1, 0.4, 1.0]) if len(k) < 4 else ctx.pick([0.05, 0.2]), ctx.pick(kinds)) for k in ks}
    if ctx.chance(0.6):
        c = gen.coeff(ctx, real="complex" not in kinds)
        items = list(out.items())
        items.insert(ctx.ri(0, len(items)), ((), c))
        out = dict(items)
    return out


def copyt(t):
    return {k: (v.copy() if isinstance(v, np.ndarray) else v) for k, v in t.items()}


def same(ctx, tensor, model, what, detail=None):
    got = tensor.n_body_tensors
    keys = set(got) | set(model)
    bad = []
    for k in keys:
        a, b = got.get(k, 0), model.get(k, 0)
        if not np.allclose(a, b, atol=1e-7, rtol=1e-9):
            bad.append(k)
    ctx.check(not bad, what, detail or (lambda: (bad, got, model)))


# ---------------------------------------------------------------- conversions
def two_body_terms(ctx, n, count):
    out = {}
    for _ in range(count):
        pat = ctx.pick([(), (1, 0), (0, 1), (1, 1, 0, 0), (1, 0, 1, 0), (0, 1, 1, 0), (0, 0, 1, 1), (1, 0, 0, 1)])
        out[tuple((ctx.ri(0, n - 1), d) for d in pat)] = gen.coeff(ctx)
    return out


@CHECK.scenario(quick=220, thorough=5000, needs=("interaction operator of a fermion operator", "polynomial tensor of a fermion operator", "expansion of a tensor"))
def conversion(ctx):
    from zquantum.core.openfermion import (
        FermionOperator, InteractionOperatorError, PolynomialTensor, count_qubits, get_fermion_operator, get_interaction_operator, normal_ordered,
    )
    from zquantum.core.openfermion.zapata_utils import get_polynomial_tensor

    n = ctx.ri(1, 4)
    op = gen.fermion_operator(two_body_terms(ctx, n, ctx.ri(1, 5)))
    before = dict(op.terms)
    cq = count_qubits(op)
    size = ctx.pick([None, n, n + 1])
    ctx.case((tuple(before.items()), size), trivial=not any(op.terms))
    ctx.sample((op, size))
    ctx.event("size:" + ("given" if size else "inferred"))
    m = fmat(op, n)
    iop = get_interaction_operator(op, size) if size else get_interaction_operator(op)
    ctx.equal(iop.one_body_tensor.shape[0], size or cq, "number of modes of the interaction operator")
    back = get_fermion_operator(iop)
    ctx.close(fmat(back, n), m, "interaction operator of a fermion operator", atol=1e-6, detail=lambda: (op, back))
    ctx.check(normal_ordered(back) == normal_ordered(op), "interaction operator of a fermion operator", lambda: (op, back))
    g = gen.fermion_operator(gen.fermion_terms(ctx, n, ctx.ri(1, 4), max_len=5))
    pt = get_polynomial_tensor(g, n) if ctx.chance(0.5) else get_polynomial_tensor(g)
    back = get_fermion_operator(pt)
    ctx.close(fmat(back, n), fmat(g, n), "polynomial tensor of a fermion operator", atol=1e-6, detail=lambda: (g, back))
    t = rand_tensors(ctx, n)
    p = PolynomialTensor(copyt(t))
    ctx.equal(p.n_qubits, n, "number of modes of a tensor")
    ctx.close(fmat(get_fermion_operator(p), n), tmat(t, n), "expansion of a tensor", atol=1e-6, detail=lambda: t)
    same(ctx, p, t, "expanding leaves the tensor untouched")
    ctx.check(op.terms == before, "converted operators untouched", op)
    bad = FermionOperator(ctx.pick([((0, 1),), ((0, 0),), ((2, 1), (0, 1), (0, 0)), ((2, 1), (1, 1)), ((1, 0), (0, 0)), ((3, 1), (2, 1), (1, 1), (0, 0)), tuple((k, 1) for k in range(3)) + tuple((k, 0) for k in range(3))]))
    ctx.raises(InteractionOperatorError, lambda: get_interaction_operator(op + bad), "not representable refused")
    if cq:
        ctx.raises(ValueError, lambda: get_interaction_operator(op, cq - 1), "too few modes refused")
    if count_qubits(g):
        ctx.raises(ValueError, lambda: get_polynomial_tensor(g, count_qubits(g) - 1), "too few modes refused")
    x = ctx.pick([p, 3, None, "0^"])
    ctx.raises(TypeError, lambda: get_interaction_operator(x), "other inputs refused")
    ctx.raises(TypeError, lambda: get_polynomial_tensor(x), "other inputs refused")
    independent(ctx, "expansions", lambda: get_fermion_operator(p), p)
    independent(ctx, "tensor forms", lambda: get_interaction_operator(op), op)
    independent(ctx, "tensor forms", lambda: get_polynomial_tensor(g), g)


# ---------------------------------------------------------------- arithmetic
def model_of(kind, t):
    return copyt(t)


def make(ctx, n, numeric):
    """(object, model dict) for a random tensor operator of a random kind."""
    from zquantum.core.openfermion import InteractionOperator, InteractionRDM, PolynomialTensor

    kind = ctx.pick(["poly", "poly", "inter", "rdm"])
    if kind == "poly":
        t = rand_tensors(ctx, n, numeric, 3 if ctx.chance(0.9) else 10)
        return kind, PolynomialTensor(copyt(t)), t
    k = ctx.pick(numeric)
    h, g = rand_tensor(ctx, (n,) * 2, 0.7, k), rand_tensor(ctx, (n,) * 4, 0.2, ctx.pick(numeric))
    if kind == "inter":
        c = gen.coeff(ctx, real="complex" not in numeric)
        return kind, InteractionOperator(c, h.copy(), g.copy()), {(): c, (1, 0): h, (1, 1, 0, 0): g}
    return kind, InteractionRDM(h.copy(), g.copy()), {(1, 0): h, (1, 1, 0, 0): g}


def madd(a, b, sign=1):
    out = copyt(a)
    for k, v in b.items():
        out[k] = out[k] + sign * v if k in out else sign * v
    return out


def msub(ctx, r, ma, mb, det):
    """Model of a - b; keys missing in a are a known finding (their sign is not flipped)."""
    out = madd(ma, mb, -1)
    for k, v in mb.items():
        if k not in ma and np.any(v):
            got = np.asarray(r.n_body_tensors[k])
            kept = got.shape == np.shape(v) and np.allclose(got, v, atol=1e-9)
            ctx.finding("tensor-subtract-missing-key", not kept, "difference of tensors", det() if kept else "")
            if kept:
                out[k] = np.array(v)
    return out


@CHECK.scenario(quick=260, thorough=6000, needs=("sum of tensors", "difference of tensors", "tensor times number", "in-place operation", "operands untouched"))
def arithmetic(ctx):
    n = ctx.ri(1, 3)
    numeric = ctx.pick([("real",), ("real", "complex"), ("complex",), ("int",), ("int", "real")])
    objs = [make(ctx, n, numeric) for _ in range(3)]
    models = [copyt(m) for _, _, m in objs]
    live = [o for _, o, _ in objs]
    ctx.case(repr([(k, [(kk, np.asarray(v).tobytes()) for kk, v in m.items()]) for k, _, m in objs]), trivial=not any(np.any(v) for m in models for v in m.values()))
    ctx.sample([k for k, _, _ in objs])
    trace = []
    for step in range(ctx.ri(2, 7)):
        i, j = ctx.ri(0, 2), ctx.ri(0, 2)
        a, b, ma, mb = live[i], live[j], models[i], models[j]
        s = ctx.pick([2, -1, 0.5, 0, 1.25, 3])
        if "complex" in numeric or ctx.chance(0.3):
            s = ctx.pick([s, 1j, 0.5 - 2j])
        what = ctx.pick(["add", "sub", "iadd", "isub", "smul", "rmul", "ismul", "div", "idiv", "sadd", "radd", "ssub", "rsub", "isadd", "neg", "mul", "set", "eq"])
        trace.append((what, i, j, s))
        det = lambda: (trace, [k for k, _, _ in objs], models)
        ctx.event("op:" + what)
        if what in ("add", "sub"):
            sg = 1 if what == "add" else -1
            r = a + b if sg == 1 else a - b
            m = madd(ma, mb, sg) if sg == 1 else msub(ctx, r, ma, mb, det)
            same(ctx, r, m, "sum of tensors" if sg == 1 else "difference of tensors", det)
            if type(r).__name__ == "PolynomialTensor" or set(m) <= {(), (1, 0), (1, 1, 0, 0)}:
                x = ctx.ri(0, 2)
                live[x], models[x] = r, m
        elif what in ("iadd", "isub"):
            if i == j or (type(a).__name__ != "PolynomialTensor" and not set(mb) <= {(), (1, 0), (1, 1, 0, 0)}):
                continue
            sg = 1 if what == "iadd" else -1
            r = a
            if sg == 1:
                r += b
            else:
                r -= b
            ctx.check(r is a, "in-place operation keeps the object", det)
            models[i] = madd(ma, mb, sg) if sg == 1 else msub(ctx, r, ma, mb, det)
            same(ctx, r, models[i], "in-place operation", det)
        elif what in ("smul", "rmul", "div", "ismul", "idiv"):
            if "div" in what and s == 0:
                continue
            f = 1 / s if "div" in what else s
            m = {k: v * f for k, v in ma.items()}
            if what == "smul":
                r = a * s
            elif what == "rmul":
                r = s * a
            elif what == "div":
                r = a / s
            elif what == "ismul":
                r = a
                r *= s
            else:
                r = a
                r /= s
            same(ctx, r, m, "in-place operation" if what[0] == "i" else "tensor times number", det)
            if what[0] == "i":
                models[i] = m
        elif what in ("sadd", "radd", "ssub", "rsub", "isadd"):
            m = copyt(ma)
            if what == "rsub":
                m = {k: -v for k, v in m.items()}
            m[()] = m.get((), 0) + (-s if what == "ssub" else s)
            if what == "sadd":
                r = a + s
            elif what == "radd":
                r = s + a
            elif what == "ssub":
                r = a - s
            elif what == "rsub":
                r = s - a
            else:
                r = a
                r += s
                models[i] = m
            same(ctx, r, m, "tensor plus number", det)
        elif what == "neg":
            r = -a
            ctx.check(type(r).__name__ in (type(a).__name__, "PolynomialTensor"), "negation", det)
            same(ctx, r, {k: -v for k, v in ma.items()}, "negation", det)
        elif what == "mul":
            m = {k: v * mb[k] if k in mb else 0 * v for k, v in ma.items()}
            same(ctx, a * b, m, "elementwise product", det)
        elif what == "set":
            k = ctx.pick([k for k in ma if k != ()])
            idx = tuple(ctx.ri(0, n - 1) for _ in k)
            if not np.iscomplexobj(s) and np.asarray(ma[k]).dtype.kind != "i":
                a[tuple(zip(idx, k))] = s
                ma[k] = np.array(ma[k])
                ma[k][idx] = s
            ctx.close(a[tuple(zip(idx, k))], ma[k][idx], "element looked up", detail=det)
            if () in ma:
                ctx.close(a[()], ma[()], "constant looked up", detail=det)
            ctx.close(a.constant, ma.get((), 0), "constant looked up", detail=det)
        else:
            d = madd(ma, mb, -1)
            diff = max(np.max(np.abs(v)) for v in d.values())
            if diff < 1e-9 or diff > 1e-6:
                ctx.equal(a == b, diff < 1e-8, "comparison of tensors", detail=det)
                ctx.equal(a != b, not diff < 1e-8, "comparison of tensors", detail=det)
            import copy

            e = copy.deepcopy(a)
            ctx.check(e == a, "comparison of tensors", det)
            k = ctx.pick(list(ma))
            if k != () and np.asarray(e.n_body_tensors[k]).dtype.kind != "i":
                idx = tuple(ctx.ri(0, n - 1) for _ in k)
                e.n_body_tensors[k][idx] += ctx.pick([0.1, -2, 1e-5])
                ctx.check(e != a and not e == a, "comparison of tensors", det)
        for o, m in zip(live, models):
            same(ctx, o, m, "operands untouched", det)
    other = make(ctx, n + 1, numeric)[1]
    a, b = live[0], live[1]
    f = ctx.pick([lambda: a + b, lambda: a * 1.0, lambda: 1 * a, lambda: -a, lambda: a / 1, lambda: a * b, lambda: a + 0, lambda: 0 + a, lambda: a - 0])
    independent(ctx, "arithmetic", f, a, b)
    for f in (lambda: a + other, lambda: a - other, lambda: a * other):
        ctx.raises(TypeError, f, "shape mismatch refused")
    for f in (lambda: a + "x", lambda: a - None, lambda: a * "x", lambda: a / other):
        ctx.raises(TypeError, f, "other operands refused")
    ctx.check(a != other, "comparison of tensors")


@CHECK.scenario(quick=160, thorough=4000, needs=("iteration=non-zero elements", "projection", "unique iteration"))
def elements(ctx):
    from zquantum.core.openfermion import InteractionOperator, PolynomialTensor

    n = ctx.ri(1, 4)
    t = rand_tensors(ctx, n, ("real", "complex", "int"))
    p = PolynomialTensor(copyt(t))
    ctx.case(repr([(k, np.asarray(v).tobytes()) for k, v in t.items()]), trivial=not any(np.any(v) for v in t.values()))
    got = list(p)
    want = set()
    for k, v in t.items():
        if k == ():
            want.add(())
        else:
            for idx in itertools.product(range(n), repeat=len(k)):
                if v[idx]:
                    want.add(tuple(zip(idx, k)))
    ctx.check(len(got) == len(set(got)) and set(got) == want, "iteration=non-zero elements", lambda: (t, got))
    for e in got[:5]:
        k, idx = tuple(d for _, d in e), tuple(i for i, _ in e)
        ctx.close(p[e], t[k] if e == () else t[k][idx], "element looked up")
    order = [(len(e), int("0" + "".join(str(d) for _, d in e)), tuple(i for i, _ in e)) for e in got]
    ctx.check(order == sorted(order), "iteration in order of keys and indices", lambda: (t, got))
    lines = [f"{e} {t[()] if e == () else t[tuple(d for _, d in e)][tuple(i for i, _ in e)]}" for e in got]
    ctx.equal(str(p), "".join(x + "\n" for x in lines) or "0", "printed elements")
    ctx.equal(repr(p), str(p), "printed elements")
    modulus = ctx.pick([1, 2.5, 3])
    if not any(np.iscomplexobj(v) for v in t.values()):
        same(ctx, p % modulus, {k: v % modulus for k, v in t.items()}, "remainder of a tensor")
    cap = lambda v: np.minimum(np.abs(v), 1)
    same(ctx, p.with_function_applied_elementwise(cap), {k: cap(v) for k, v in t.items()}, "function of the elements")
    ctx.raises(TypeError, lambda: hash(p), "tensors are not hashable")
    if ctx.chance(0.1):  # tensors of many indices
        long_key = tuple(ctx.ri(0, 1) for _ in range(ctx.ri(9, 10)))
        w = ctx.np.normal(size=(2,) * len(long_key))
        x = PolynomialTensor({long_key: w.copy()})
        at = tuple(ctx.ri(0, 1) for _ in long_key)
        ctx.close(x[tuple(zip(at, long_key))], w[at], "element looked up")
        x[tuple(zip(at, long_key))] = w[at] = 3.25
        same(ctx, x, {long_key: w}, "parts replaced", long_key)
    # parts replaced
    kind, o, model = make(ctx, n, ("real", "complex"))
    q = make(ctx, n, ("real", "complex"))[1]
    keptq = copyt(q.n_body_tensors)
    r = o + q
    for k, v in r.n_body_tensors.items():
        if k != ():
            v[(0,) * len(k)] += 1
        elif () in model:
            r.constant = r.constant + 1
    same(ctx, o, model, "sums are independent of their operands", lambda: (kind, model))
    same(ctx, q, keptq, "sums are independent of their operands", lambda: (kind, model))
    c0 = gen.coeff(ctx)
    if kind != "rdm":
        o.constant = c0
        model = {**model, (): c0}
    if kind != "poly":
        h0, g0 = rand_tensor(ctx, (n,) * 2, 0.7), rand_tensor(ctx, (n,) * 4, 0.2)
        if ctx.chance(0.5):
            o.one_body_tensor = h0.copy()
            model[1, 0] = h0
        if ctx.chance(0.5):
            o.two_body_tensor = g0.copy()
            model[1, 1, 0, 0] = g0
        ctx.close(o.one_body_tensor, model[1, 0], "parts replaced")
        ctx.close(o.two_body_tensor, model[1, 1, 0, 0], "parts replaced")
    elif ctx.chance(0.5):
        model = rand_tensors(ctx, n)
        o.n_body_tensors = copyt(model)
    ctx.close(o.constant, model.get((), 0), "parts replaced")
    same(ctx, o, model, "parts replaced", lambda: (kind, model))
    exact = ctx.chance(0.5)
    sel = ctx.ri(0, n) if ctx.chance(0.5) else sorted(ctx.rng.sample(range(n), ctx.ri(0, n)))
    kind = ctx.pick([list, tuple, set])
    pr = p.projected_n_body_tensors(sel if isinstance(sel, int) else kind(sel), exact)
    ctx.equal(set(pr), set(t), "projection keeps the keys")
    for k, v in t.items():
        if k == ():
            ok = not exact or (sel == 0 if isinstance(sel, int) else not sel)
            ctx.close(pr[k], v if ok else 0, "projection", detail=lambda: (sel, exact, t))
            continue
        w = np.zeros_like(v)
        for idx in itertools.product(range(n), repeat=len(k)):
            u = set(idx)
            if isinstance(sel, int):
                ok = len(u) == sel if exact else len(u) <= sel
            else:
                ok = u == set(sel) if exact else u <= set(sel)
            if ok:
                w[idx] = v[idx]
        ctx.close(pr[k], w, "projection", detail=lambda: (k, sel, exact, t))
    same(ctx, p, t, "projection leaves the tensor untouched")
    # representatives of symmetry classes
    cplx = ctx.chance(0.5)
    h = rand_tensor(ctx, (n, n), 0.6, "complex" if cplx else "real")
    h = h + h.conj().T
    g = rand_tensor(ctx, (n,) * 4, ctx.pick([0.03, 0.2]), "complex" if cplx else "real")
    g = g + g.transpose(3, 2, 1, 0).conj()
    g = g + g.transpose(1, 0, 3, 2)
    if not cplx:
        g = g + g.transpose(0, 3, 2, 1)
        g = g + g.transpose(2, 1, 0, 3)
    c = ctx.pick([0, 1.5])
    iop = InteractionOperator(c, h.copy(), g.copy())
    reps = list(iop.unique_iter(complex_valued=cplx))
    seen = {}
    for e in reps:
        k, idx = tuple(d for _, d in e), tuple(i for i, _ in e)
        if not k:
            orbit = {()}
        elif len(k) == 2:
            orbit = {idx, idx[::-1]}
        else:
            a, b, r, s = idx
            orbit = {(a, b, r, s), (b, a, s, r), (s, r, b, a), (r, s, a, b)}
            if not cplx:
                orbit |= {(a, s, r, b), (b, r, s, a), (s, a, b, r), (r, b, a, s)}
        for o in orbit:
            seen[k, o] = seen.get((k, o), 0) + 1
    want = {((), ())} if c else set()
    want |= {((1, 0), i) for i in itertools.product(range(n), repeat=2) if h[i]}
    want |= {((1, 1, 0, 0), i) for i in itertools.product(range(n), repeat=4) if g[i]}
    ctx.check(set(seen) == want and set(seen.values()) <= {1}, "unique iteration", lambda: (cplx, h, g, reps))
    q = iop.projected(sel if isinstance(sel, int) else kind(sel), exact)
    ctx.check(isinstance(q, InteractionOperator) and (q.one_body_tensor.shape, q.two_body_tensor.shape) == (h.shape, g.shape), "projection keeps the kind")
    for s in (sel if isinstance(sel, int) else kind(sel), 4, list(range(n))):
        independent(ctx, "projections", lambda: p.projected_n_body_tensors(s, exact), p)
        independent(ctx, "projections", lambda: iop.projected(s, exact), iop)
    independent(ctx, "zero operator", lambda: InteractionOperator.zero(n))
    z = InteractionOperator.zero(n)
    ctx.check(z.constant == 0 and not z.one_body_tensor.any() and not z.two_body_tensor.any() and z.n_qubits == n, "zero operator")


@CHECK.scenario(quick=90, thorough=2000, needs=("rotated operator",))
def rotation(ctx):
    from zquantum.core.openfermion import InteractionOperator, PolynomialTensor, general_basis_change

    n = ctx.ri(1, 4) if ctx.chance(0.7) else 2
    if ctx.chance(0.5):
        t = rand_tensors(ctx, n, keys=[k for k in KEYS if len(k) < 4 or n < 4])
        p = PolynomialTensor(copyt(t))
    else:
        c, h, g = gen.hermitian_tensors(ctx, n)
        t = {(): c, (1, 0): h, (1, 1, 0, 0): g}
        p = InteractionOperator(c, h.copy(), g.copy())
    spin = n % 2 == 0 and ctx.chance(0.4)
    d = n // 2 if spin else n
    style = ctx.pick(["unitary", "orthogonal", "permutation", "phase", "identity"])
    r = ref.random_unitary(ctx.np, d)
    if style == "orthogonal":
        r = np.linalg.qr(ctx.np.normal(size=(d, d)))[0]
    elif style == "permutation":
        r = np.eye(d)[ctx.np.permutation(d)]
    elif style == "phase":
        r = np.diag(np.exp(1j * ctx.np.uniform(0, 6, size=d)))
    elif style == "identity":
        r = np.eye(d)
    ctx.case(repr((n, style, spin, r.tobytes(), [np.asarray(v).tobytes() for v in t.values()])), trivial=style == "identity")
    ctx.sample((n, style, spin, list(t)))
    ctx.event("rotation:" + style + ("+spin" if spin else ""))
    full = np.kron(r, np.eye(2)) if spin else r
    # a_b = sum_Q R[b, Q] c_Q, so c_Q = sum_b conj(R[b, Q]) a_b
    ann = [sum(full[b, q].conj() * ref.ladder(n, b, 0) for b in range(n)) for q in range(n)]
    for k, v in t.items():
        if k:
            w = general_basis_change(v, r, k)
            ctx.close(tmat({k: w}, n, lambda dag, i: ann[i].conj().T if dag else ann[i]), tmat({k: v}, n), "rotated tensor", atol=1e-6, detail=lambda: (style, spin, k, v, r))
    if ctx.chance(0.4):
        # higher orders and any mixture of raising and lowering, index by index
        k = tuple(ctx.ri(0, 1) for _ in range(ctx.pick([1, 2, 3, 5, 6, 7])))
        d2 = ctx.ri(1, 2) * (2 if spin else 1)
        if d2 ** len(k) <= 5000:
            v = rand_tensor(ctx, (d2,) * len(k), 0.7, ctx.pick(["real", "complex"]))
            r2 = ref.random_unitary(ctx.np, d2 // 2 if spin else d2)
            w = v.astype(complex)
            f2 = np.kron(r2, np.eye(2)) if spin else r2
            for i, dag in enumerate(k):
                w = np.moveaxis(np.tensordot(f2.conj() if dag else f2, w, axes=(0, i)), 0, i)
            keep = v.copy()
            ctx.close(general_basis_change(v, r2, k), w, "rotated tensor of any order", atol=1e-7, detail=lambda: (k, v, r2))
            ctx.check(np.array_equal(v, keep), "rotation leaves the tensor untouched")
            independent(ctx, "rotation", lambda: general_basis_change(v, r2, k), v, r2)
    p.rotate_basis(r)
    ctx.equal(p.n_qubits, n, "rotation keeps the number of modes")
    ctx.close(
        tmat(p.n_body_tensors, n, lambda dag, i: ann[i].conj().T if dag else ann[i]), tmat(t, n), "rotated operator", atol=1e-6, detail=lambda: (style, spin, t, r)
    )


# ---------------------------------------------------------------- reduced density matrices
def number_state(ctx, n, k, real=False):
    v = ctx.np.normal(size=2**n) + (0 if real else 1j * ctx.np.normal(size=2**n))
    v = np.array([x if bin(b).count("1") == k else 0 for b, x in enumerate(v)])
    if ctx.chance(0.35) and not real:
        # few occupations with phases 1, i, -1, -i: parts of the density matrices are purely imaginary
        v = v * (ctx.np.random(2**n) < ctx.pick([0.25, 0.6]))
        v = np.array([1j ** ctx.ri(0, 3) if x else 0 for x in v])
        if not v.any():
            v = np.array([1j if b == 2**k - 1 else 0 for b in range(2**n)])
    elif ctx.chance(0.3):
        keep = ctx.pick([b for b in range(2**n) if bin(b).count("1") == k])
        v = v * 0.0
        v[keep] = 1
    return v / np.linalg.norm(v)


def rdms(v, n):
    up = [ref.ladder(n, j, 1) for j in range(n)]
    dn = [ref.ladder(n, j, 0) for j in range(n)]
    one = np.array([[v.conj() @ up[p] @ (dn[q] @ v) for q in range(n)] for p in range(n)])
    low = {(r, s): dn[r] @ (dn[s] @ v) for r in range(n) for s in range(n)}
    two = np.zeros((n,) * 4, dtype=complex)
    for p, q, r, s in itertools.product(range(n), repeat=4):
        two[p, q, r, s] = np.vdot(low[q, p], low[r, s])
    return one, two


@CHECK.scenario(quick=200, thorough=3000, needs=("expectation of an interaction operator", "expectation of a qubit operator", "RDM from measured operators"))
def density(ctx):
    from zquantum.core.openfermion import InteractionOperator, InteractionRDM, InteractionRDMError, QubitOperator, jordan_wigner
    from zquantum.core.openfermion.measurements import get_interaction_rdm

    n, k = ctx.pick([(x, y) for x in range(1, 5) for y in range(x + 1)] + [(4, 2)] * 6)
    v = number_state(ctx, n, k)
    if (n, k) == (4, 2) and ctx.chance(0.5):
        # two pairs of orbitals: real one-body and complex two-body density matrices
        v = np.zeros(16, dtype=complex)
        b = ctx.pick([0b1100, 0b1010, 0b1001])
        v[b], v[15 - b] = 1, ctx.pick([1j, -1j, np.exp(0.7j)])
        v /= np.linalg.norm(v)
    one, two = rdms(v, n)
    ctx.case((n, k, v.tobytes()), trivial=k == 0)
    ctx.sample((n, k))
    rdm = InteractionRDM(one.copy(), two.copy())
    c, h, g = gen.hermitian_tensors(ctx, n)
    m = ref.tensor_matrix(c, h, g)
    want = v.conj() @ m @ v
    iop = InteractionOperator(c, h.copy(), g.copy())
    tol = 1e-7 * (1 + np.abs(m).max())
    ctx.close(rdm.expectation(iop), want, "expectation of an interaction operator", atol=tol, detail=lambda: (c, h, g, v))
    q = jordan_wigner(iop)
    ctx.close(rdm.expectation(q), want, "expectation of a qubit operator", atol=tol, detail=lambda: (q, v))
    # per-term expectations; number operators, two-body terms
    terms = {}
    for _ in range(4):
        w = ctx.ri(0, min(2, n))
        qs = sorted(ctx.rng.sample(range(n), w))
        terms[tuple((i, "Z") for i in qs)] = gen.coeff(ctx)
    if n >= 2:
        i, j = sorted(ctx.rng.sample(range(n), 2))
        mid = tuple((x, "Z") for x in range(i + 1, j))
        for a, b in (("X", "X"), ("Y", "Y"), ("X", "Y"), ("Y", "X")):
            if len(mid) <= 1:
                terms[((i, a),) + mid + ((j, b),)] = gen.coeff(ctx)
    z = gen.qubit_operator(terms)
    before = dict(z.terms)
    e = rdm.get_qubit_expectations(z)
    ctx.check(dict(z.terms) == before, "evaluated operator untouched", lambda: z)
    ctx.equal(list(e.terms), list(z.terms), "terms with expectation values")
    for t in z.terms:
        ctx.close(e.terms[t], v.conj() @ ref.pauli_term_matrix(t, n) @ v, "expectation of a Pauli product", atol=1e-7, detail=lambda: (t, v))
    ctx.close(rdm.expectation(z), v.conj() @ ref.qubit_terms_matrix(z.terms, n) @ v, "expectation of a qubit operator", atol=1e-6, detail=lambda: (z, v))
    if n > 2:
        t = tuple((x, "Z") for x in range(3))
        ctx.raises(InteractionRDMError, lambda: rdm.expectation(QubitOperator(t)), "three-body observable refused")
    ctx.raises(InteractionRDMError, lambda: rdm.expectation(ctx.pick([3, "Z0", None])), "other inputs refused")
    # RDM rebuilt from measured Pauli products of any state
    u = v if ctx.chance(0.5) else ref.random_state(ctx.np, n)
    meas = QubitOperator()
    for t in ref.all_pauli_terms(n):
        x = (u.conj() @ ref.pauli_term_matrix(t, n) @ u).real
        if x or ctx.chance(0.5):
            meas += QubitOperator(t, x)
    got = get_interaction_rdm(meas, n) if ctx.chance(0.6) else get_interaction_rdm(meas)
    o1, o2 = rdms(u, n)
    m2 = got.n_qubits
    ctx.check(m2 <= n, "size of the RDM")
    ctx.close(got.one_body_tensor, o1[:m2, :m2], "RDM from measured operators", atol=1e-7, detail=lambda: u)
    ctx.close(got.two_body_tensor, o2[:m2, :m2, :m2, :m2], "RDM from measured operators", atol=1e-7, detail=lambda: u)
    same(ctx, rdm, {(1, 0): one, (1, 1, 0, 0): two}, "RDM untouched")
    # a rotation applied to both leaves expectations unchanged
    r = np.linalg.qr(ctx.np.normal(size=(n, n)))[0]
    rdm.rotate_basis(r)
    iop.rotate_basis(r)
    ctx.close(rdm.expectation(iop), want, "expectation after rotating both", atol=tol * 10, detail=lambda: (r, c, h, g, v))


@CHECK.scenario(quick=50, thorough=900, needs=("ground state RDM gives the ground energy", "Hartree-Fock RDM"))
def states(ctx):
    from zquantum.core.openfermion import InteractionOperator, jordan_wigner
    from zquantum.core.openfermion.zapata_utils import get_ground_state_rdm_from_qubit_op, hf_rdm

    if ctx.chance(0.5):
        o = ctx.ri(1, 3) if ctx.chance(0.8) else ctx.ri(4, 6)
        na, nb = ctx.ri(0, o), ctx.ri(0, o)
        ctx.case(("hf", o, na, nb), trivial=na + nb == 0)
        r = hf_rdm(na, nb, o)
        bits = [0] * (2 * o)
        for i in range(na):
            bits[2 * i] = 1
        for i in range(nb):
            bits[2 * i + 1] = 1
        v = np.zeros(4**o)
        v[ref.index_of(bits)] = 1
        if o < 4:
            one, two = rdms(v, 2 * o)
        else:  # a determinant: the two-body tensor is antisymmetrised from the occupations
            one = np.diag(np.array(bits, dtype=float))
            two = np.einsum("ps,qr->pqrs", one, one) - np.einsum("pr,qs->pqrs", one, one)
        ctx.close(r.one_body_tensor, one, "Hartree-Fock RDM", detail=(o, na, nb))
        ctx.close(r.two_body_tensor, two, "Hartree-Fock RDM", detail=(o, na, nb))
        return
    n = ctx.ri(2, 3) if ctx.chance(0.7) else 4
    k = ctx.ri(1, n)
    c, h, g = gen.hermitian_tensors(ctx, n)
    h = h + np.diag(ctx.np.normal(size=n))  # every mode is used
    ctx.case(("ground", n, k, h.tobytes(), g.tobytes()))
    ctx.event("ground")
    m = ref.tensor_matrix(c, h, g)
    sel = [b for b in range(2**n) if bin(b).count("1") == k]
    e = np.linalg.eigvalsh(m[np.ix_(sel, sel)])[0]
    iop = InteractionOperator(c, h, g)
    q = jordan_wigner(iop)
    rdm = get_ground_state_rdm_from_qubit_op(q, k)
    tol = 1e-6 * (1 + np.abs(m).max())
    det = lambda: (n, k, c, h, g)
    ctx.close(rdm.expectation(iop), e, "ground state RDM gives the ground energy", atol=tol, detail=det)
    one, two = rdm.one_body_tensor, rdm.two_body_tensor
    ctx.close(np.trace(one), k, "trace of the RDM", atol=1e-6, detail=det)
    ctx.close(one, one.conj().T, "Hermitian RDM", atol=1e-6, detail=det)
    ctx.close(np.einsum("pqqs->ps", two), (k - 1) * one, "contraction of the RDM", atol=1e-6, detail=det)
    ctx.close(two, -two.transpose(1, 0, 2, 3), "antisymmetric RDM", atol=1e-6, detail=det)
    ctx.close(two, -two.transpose(0, 1, 3, 2), "antisymmetric RDM", atol=1e-6, detail=det)
    ctx.close(two, two.transpose(3, 2, 1, 0).conj(), "Hermitian RDM", atol=1e-6, detail=det)


# ---------------------------------------------------------------- active spaces
def block(m, n, occupied, unoccupied):
    """Sub-matrix with the given modes filled and empty, on the other modes in order."""
    act = [i for i in range(n) if i not in occupied and i not in unoccupied]
    idx = []
    for bits in itertools.product((0, 1), repeat=len(act)):
        full = [1 if i in occupied else 0 for i in range(n)]
        for i, b in zip(act, bits):
            full[i] = b
        idx.append(ref.index_of(full))
    return m[np.ix_(idx, idx)]


def integrals(ctx, o, cplx=False):
    h = rand_tensor(ctx, (o, o), ctx.pick([0.5, 1.0]), "complex" if cplx else "real")
    h = h + h.conj().T
    g = rand_tensor(ctx, (o,) * 4, ctx.pick([0.1, 1.0]), "complex" if cplx else "real")
    g = g + g.transpose(1, 0, 3, 2)
    g = g + g.transpose(3, 2, 1, 0).conj()
    if not cplx and ctx.chance(0.5):
        g = g + g.transpose(0, 3, 2, 1)
        g = g + g.transpose(2, 1, 0, 3)
    return h, g


def spin_matrix(h, g):
    o = h.shape[0]
    n = 2 * o
    hh, gg = np.zeros((n, n), complex), np.zeros((n,) * 4, complex)
    for p, q in itertools.product(range(n), repeat=2):
        if p % 2 == q % 2:
            hh[p, q] = h[p // 2, q // 2]
    for p, q, r, s in itertools.product(range(n), repeat=4):
        if p % 2 == s % 2 and q % 2 == r % 2:
            gg[p, q, r, s] = g[p // 2, q // 2, r // 2, s // 2] / 2
    return hh, gg


@CHECK.scenario(quick=60, thorough=900, needs=("active-space integrals", "spin-orbital tensors", "integer one-body integrals"))
def active_space(ctx):
    from zquantum.core.openfermion.ops.representations import get_active_space_integrals, get_tensors_from_integrals

    o = ctx.ri(1, 3)
    h, g = integrals(ctx, o, ctx.chance(0.3))
    if ctx.chance(0.3):  # integrals of different number types
        h = np.rint(h.real * 3).astype(int)
        h = h + h.T
        ctx.event("integer one-body integrals")
    elif ctx.chance(0.2):
        h = h.real + h.real.T
        ctx.event("real one-body integrals")
    h0, g0 = h.copy(), g.copy()
    orbs = ctx.rng.sample(range(o), o)
    na = ctx.ri(1, o)
    active = orbs[:na]
    occ = orbs[na: na + ctx.ri(0, o - na)]
    ctx.case((o, tuple(active), tuple(occ), h.tobytes(), g.tobytes()))
    ctx.sample((o, active, occ))
    hh, gg = get_tensors_from_integrals(h, g)
    wh, wg = spin_matrix(h, g)
    ctx.close(hh, wh, "spin-orbital tensors", atol=1e-7, detail=lambda: (h, g))
    ctx.close(gg, wg, "spin-orbital tensors", atol=1e-7, detail=lambda: (h, g))
    if ctx.chance(0.1):
        h9, g9 = ctx.np.normal(size=(9, 9)), ctx.np.normal(size=(9,) * 4)
        for x, y in zip(get_tensors_from_integrals(h9, g9), spin_matrix(h9, g9)):
            ctx.close(x, y, "spin-orbital tensors", atol=1e-7, detail="nine orbitals")
    full = ref.tensor_matrix(0, wh, wg)
    args = (h, g, ctx.pick([list, tuple])(occ) if occ or ctx.chance(0.5) else None, active)
    core, h1, g1 = get_active_space_integrals(*args)
    ctx.check(h1.shape == (na, na) and g1.shape == (na,) * 4, "active-space integrals")
    red = ref.tensor_matrix(core, *spin_matrix(h1, g1))
    n = 2 * o
    # permute modes so that the active orbitals come in the requested order
    filled = [2 * i + s for i in occ for s in (0, 1)]
    empty = [2 * i + s for i in range(o) if i not in occ and i not in active for s in (0, 1)]
    rank = {a: k for k, a in enumerate(active)}
    srt = sorted(active)
    wh2 = h1[np.ix_([rank[a] for a in srt], [rank[a] for a in srt])]
    ix = [rank[a] for a in srt]
    red = ref.tensor_matrix(core, *spin_matrix(wh2, g1[np.ix_(ix, ix, ix, ix)]))
    ctx.close(red, block(full, n, filled, empty), "active-space integrals", atol=1e-6, detail=lambda: (h, g, active, occ))
    ctx.check(np.array_equal(h, h0) and np.array_equal(g, g0), "integrals untouched", lambda: (h0, g0, active, occ))
    independent(ctx, "spin-orbital tensors", lambda: get_tensors_from_integrals(h, g), h, g)
    independent(ctx, "active-space integrals", lambda: get_active_space_integrals(*args), h, g, active)
    independent(ctx, "active-space integrals", lambda: get_active_space_integrals(h, g, None, list(range(o))), h, g)
    ctx.raises(ValueError, lambda: get_active_space_integrals(h, g, occ, []), "empty active space refused")


@CHECK.scenario(quick=240, thorough=6000, needs=("frozen orbitals", "unused indices pruned"))
def freezing(ctx):
    from zquantum.core.openfermion import FermionOperator, freeze_orbitals, prune_unused_indices

    n = ctx.ri(1, 5)
    op = gen.fermion_operator(gen.fermion_terms(ctx, n, ctx.ri(1, 5), max_len=6))
    orbs = ctx.rng.sample(range(n), n)
    a = ctx.ri(0, n)
    occ = orbs[:a]
    un = orbs[a: a + ctx.ri(0, n - a)]
    act = sorted(set(range(n)) - set(occ) - set(un))
    for i in act:  # every remaining orbital appears, so that pruning renumbers exactly the frozen ones away
        op += FermionOperator(((i, 1), (i, 0)), ctx.rng.uniform(2.1, 5))
    before = list(op.terms.items())
    ctx.case((tuple(before), tuple(occ), tuple(un)), trivial=not occ and not un)
    ctx.sample((op, occ, un))
    ctx.event(f"frozen:{len(occ)}+{len(un)}")
    kind = ctx.pick([list, list, tuple, lambda x: np.array(x, dtype=int)])
    args = [op, kind(occ)]
    if un or ctx.chance(0.5):
        args.append(kind(un))
    if kind not in (list, tuple):
        ctx.event("orbitals in an array")
    r = freeze_orbitals(*args)
    if ctx.chance(0.3):  # the same operator on other orbitals, not renumbered afterwards
        far = ctx.pick([1, 7, 300])
        moved = FermionOperator()
        moved.terms = {tuple((i + far, d) for i, d in t): v for t, v in op.terms.items()}
        kept = freeze_orbitals(moved, kind([i + far for i in occ]), kind([i + far for i in un]), prune=False)
        ctx.check({i - far for t in kept.terms for i, _ in t} <= set(act), "frozen orbitals removed", lambda: (op, occ, un, far, kept))
        back = FermionOperator()
        back.terms = {tuple((act.index(i - far), d) for i, d in t): v for t, v in kept.terms.items()}
        if {i for t in back.terms for i, _ in t} == set(range(len(act))):
            ctx.close(fmat(back, len(act)), block(fmat(op, n), n, occ, un), "frozen orbitals, not renumbered", atol=1e-6, detail=lambda: (op, occ, un, far, kept))
    m = fmat(op, n)
    used = {i for t in r.terms for i, _ in t}
    ctx.check(used <= set(range(len(act))), "frozen orbitals renumbered", lambda: (op, occ, un, r))
    want = block(m, n, occ, un)
    if used == set(range(len(act))):
        ctx.close(fmat(r, len(act)), want, "frozen orbitals", atol=1e-6, detail=lambda: (op, occ, un, r))
    ctx.check(list(op.terms.items()) == before, "operator untouched by freezing", lambda: before)
    independent(ctx, "frozen operators", lambda: freeze_orbitals(op, occ, un), op, occ, un)
    # pruning alone
    g = gen.fermion_operator(gen.fermion_terms(ctx, n + 3, ctx.ri(1, 3), max_len=4))
    k = list(g.terms.items())
    idx = sorted({i for t, _ in k for i, _ in t})
    pos = {i: j for j, i in enumerate(idx)}
    p = prune_unused_indices(g)
    ctx.equal(dict(p.terms), {tuple((pos[i], d) for i, d in t): c for t, c in k}, "unused indices pruned", lambda: g)
    ctx.check(list(g.terms.items()) == k, "operator untouched by pruning", lambda: g)
    q = gen.qubit_operator(gen.pauli_terms(ctx, 7, 2, max_w=3))
    k = list(q.terms.items())
    idx = sorted({i for t, _ in k for i, _ in t})
    pos = {i: j for j, i in enumerate(idx)}
    ctx.equal(dict(prune_unused_indices(q).terms), {tuple((pos[i], d) for i, d in t): c for t, c in k}, "unused indices pruned", lambda: q)


@CHECK.scenario(quick=36, thorough=700, needs=("inactive orbitals removed",))
def inactive(ctx):
    from zquantum.core.openfermion import InteractionOperator
    from zquantum.core.openfermion.zapata_utils import remove_inactive_orbitals

    o = ctx.ri(1, 3)
    if ctx.chance(0.5):
        h, g = spin_matrix(*integrals(ctx, o, ctx.chance(0.3)))
        c = 0.5
    else:
        c, h, g = gen.hermitian_tensors(ctx, 2 * o, sparse=True)
    if ctx.chance(0.3):  # an orbital that takes no part
        i = ctx.ri(0, o - 1)
        ix = [2 * i, 2 * i + 1]
        h, g = h.copy(), g.copy()
        h[ix, :] = 0
        h[:, ix] = 0
        for ax in range(4):
            sl = [slice(None)] * 4
            sl[ax] = ix
            g[tuple(sl)] = 0
        ctx.event("idle orbital")
    core = ctx.ri(0, o - 1)
    active = ctx.pick([None, ctx.ri(1, o - core)])
    ctx.case((o, core, active, h.tobytes(), g.tobytes()), trivial=core == 0 and active in (None, o))
    ctx.sample((o, core, active))
    iop = InteractionOperator(c, h.copy(), g.copy())
    r = remove_inactive_orbitals(iop, active, core)
    k = 2 * (o - core if active is None else active)
    det = lambda: (o, core, active, c, h, g)
    ctx.equal(r.one_body_tensor.shape[0], k, "number of active orbitals", det)
    if r.one_body_tensor.shape[0] == k:
        n = 2 * o
        want = block(ref.tensor_matrix(c, h, g), n, list(range(2 * core)), list(range(2 * core + k, n)))
        ctx.close(ref.tensor_matrix(r.constant, r.one_body_tensor, r.two_body_tensor), want, "inactive orbitals removed", atol=1e-6, detail=det)
    same(ctx, iop, {(): c, (1, 0): h, (1, 1, 0, 0): g}, "operator untouched")
