"""Model Hamiltonians, cluster generators and molecular data against their definitions."""
import itertools
import os

import numpy as np

from vlib import gen, ref
from vlib.alias import independent
from vlib.harness import Check

CHECK = Check(
    "C27",
    "a case is one model, generator or molecule with its couplings, amplitudes or integrals; models without any term are trivial",
    ["cluster amplitudes are real (for complex ones only the defining sum is compared); reduced Hamiltonians need at least two "
     "electrons; texts stored with a molecule are ASCII; terms below 1e-8 may be dropped"],
)


def canon(terms):
    """Own normal ordering: creators first, larger index first; returns {term: coefficient}."""
    out = {}
    stack = [(tuple(t), complex(c)) for t, c in terms.items()]
    while stack:
        t, c = stack.pop()
        if c == 0:
            continue
        for i in range(len(t) - 1):
            (a, x), (b, y) = t[i], t[i + 1]
            if x == y and a == b:
                break
            if x < y:  # annihilator before creator
                stack.append((t[:i] + (t[i + 1], t[i]) + t[i + 2:], -c))
                if a == b:
                    stack.append((t[:i] + t[i + 2:], c))
                break
            if x == y and a < b:
                stack.append((t[:i] + (t[i + 1], t[i]) + t[i + 2:], -c))
                break
        else:
            out[t] = out.get(t, 0) + c
    return out


def add(d, t, c):
    d[t] = d.get(t, 0) + c


def compare(ctx, got, want, what, detail=""):
    """Both are {term: coefficient} in any order of factors."""
    a, b = canon(got), canon(want)
    for t in set(a) | set(b):
        ctx.check(abs(a.get(t, 0) - b.get(t, 0)) < 1e-8 * (1 + abs(b.get(t, 0))), what, lambda: (t, a.get(t, 0), b.get(t, 0), detail))


def product(ts, us, c=1):
    out = {}
    for t, x in ts.items():
        for u, y in us.items():
            add(out, t + u, c * x * y)
    return out


def coupling(ctx):
    return ctx.pick([0, 1, -1, 0.0, 2.5, ctx.rng.uniform(-3, 3), ctx.rng.uniform(-3, 3), 1e-3, np.float64(0.7), 4])


# ---------------------------------------------------------------- Hubbard models
@CHECK.scenario(quick=260, thorough=6000, needs=("spinful model", "spinless model", "number operator", "bonds of a two-wide periodic grid"))
def hubbard(ctx):
    from zquantum.core.openfermion.hamiltonians import fermi_hubbard

    x, y = ctx.pick([(1, 1), (2, 1), (1, 2), (2, 2), (3, 1), (1, 3), (3, 2), (2, 3), (3, 3), (4, 2), (2, 4), (1, 5), (5, 1), (4, 3), (ctx.ri(1, 6), ctx.ri(1, 5))])
    t, u = coupling(ctx), coupling(ctx)
    if ctx.chance(0.25):
        t = complex(ctx.rng.uniform(-1, 1), ctx.rng.uniform(-1, 1))
    mu, h = coupling(ctx), coupling(ctx)
    periodic, spinless, phs = ctx.chance(0.5), ctx.chance(0.5), ctx.chance(0.5)
    kw = {}
    if ctx.chance(0.8):
        kw["chemical_potential"] = mu
    else:
        mu = 0
    if ctx.chance(0.8):
        kw["magnetic_field"] = h
    else:
        h = 0
    if not periodic or ctx.chance(0.5):
        kw["periodic"] = periodic
    if spinless or ctx.chance(0.5):
        kw["spinless"] = spinless
    if phs or ctx.chance(0.5):
        kw["particle_hole_symmetry"] = phs
    det = (x, y, t, u, kw)
    ctx.case(repr(det), trivial=not (t or u or mu or h))
    ctx.sample(repr(det))
    op = fermi_hubbard(x, y, t, u, **kw)
    # bonds: every pair of neighbouring sites once, oriented from a site to the one on its right or below
    bonds = {}
    for r, c in itertools.product(range(y), range(x)):
        for dr, dc in ((0, 1), (1, 0)):
            r2, c2 = r + dr, c + dc
            if periodic:
                r2, c2 = r2 % y, c2 % x
            if r2 < y and c2 < x and (r2, c2) != (r, c):
                bonds.setdefault(frozenset([(r, c), (r2, c2)]), (r * x + c, r2 * x + c2))
    if periodic and 2 in (x, y):
        ctx.event("bonds of a two-wide periodic grid")
    want = {}

    def n(m):
        return {((m, 1), (m, 0)): 1.0, **({(): -0.5} if phs else {})}

    if spinless:
        for i, j in bonds.values():
            add(want, ((i, 1), (j, 0)), -t)
            add(want, ((j, 1), (i, 0)), -np.conj(t))
            for k, v in product(n(i), n(j), u).items():
                add(want, k, v)
        for i in range(x * y):
            add(want, ((i, 1), (i, 0)), -mu)
    else:
        for i, j in bonds.values():
            for s in range(2):
                add(want, ((2 * i + s, 1), (2 * j + s, 0)), -t)
                add(want, ((2 * j + s, 1), (2 * i + s, 0)), -np.conj(t))
        for i in range(x * y):
            for k, v in product(n(2 * i), n(2 * i + 1), u).items():
                add(want, k, v)
            add(want, ((2 * i, 1), (2 * i, 0)), -mu - h)
            add(want, ((2 * i + 1, 1), (2 * i + 1, 0)), -mu + h)
    ctx.event("spinless model" if spinless else "spinful model")
    compare(ctx, op.terms, want, "Hubbard model", det)
    m = x * y * (1 if spinless else 2)
    if m <= 6:
        H = ref.fermion_terms_matrix(op.terms, m)
        ctx.close(H, H.conj().T, "Hubbard model is Hermitian")
        N = sum(ref.ladder(m, j, 1) @ ref.ladder(m, j, 0) for j in range(m))
        ctx.close(H @ N, N @ H, "Hubbard model conserves particles")
    number(ctx)


def number(ctx):
    from zquantum.core.openfermion.hamiltonians.special_operators import number_operator
    from zquantum.core.openfermion.hamiltonians import general_hubbard as G

    n = ctx.ri(1, 6)
    c = ctx.pick([1, 0.5, -2.0, 1j, ctx.rng.uniform(-2, 2)])
    mode = ctx.pick([None, ctx.ri(0, n - 1), 0, n - 1])
    kw = {} if ctx.chance(0.3) else {"coefficient": c}
    cc = kw.get("coefficient", 1.0)
    a = (n,) if mode is None and ctx.chance(0.5) else (n, mode)
    op = number_operator(*a, **kw)
    compare(ctx, op.terms, {((m, 1), (m, 0)): cc for m in (range(n) if mode is None else [mode])}, "number operator", (a, kw))
    independent(ctx, "number operators", lambda: number_operator(*a, **kw))
    ctx.raises(ValueError, lambda: number_operator(n, mode, 1.0, ctx.pick([0, 2, -2, 1])), "parity of a number operator")
    i, j = ctx.ri(0, 5), ctx.ri(0, 5)
    phs = ctx.chance(0.5)
    one = lambda m: {((m, 1), (m, 0)): 1.0, **({(): -0.5} if phs else {})}
    compare(ctx, G.number_operator(i, cc, phs).terms, {t: cc * v for t, v in one(i).items()}, "lattice number operator", (i, cc, phs))
    compare(ctx, G.interaction_operator(i, j, cc, phs).terms, product(one(i), one(j), cc), "lattice interaction operator", (i, j, cc, phs))
    independent(ctx, "number operators", lambda: G.number_operator(i, cc, phs))
    independent(ctx, "interaction operators", lambda: G.interaction_operator(i, j, cc, phs))
    ctx.event("number operator")


# ---------------------------------------------------------------- unitary coupled cluster
def conserved(ctx, terms, what, det):
    for t in canon(terms):
        up = sum((1 if x else -1) for m, x in t if m % 2 == 0)
        dn = sum((1 if x else -1) for m, x in t if m % 2 == 1)
        ctx.check(up + dn == 0, what + " conserves particles", lambda: (t, det))
        ctx.check(up == 0 and dn == 0, what + " conserves spin projection", lambda: (t, det))


def dagger(terms):
    return {tuple((m, 1 - x) for m, x in reversed(t)): np.conj(c) for t, c in terms.items()}


@CHECK.scenario(quick=140, thorough=3000, needs=("generator from arrays", "generator from lists"))
def uccsd(ctx):
    from zquantum.core.openfermion.circuits import uccsd_generator
    from zquantum.core.openfermion.circuits.unitary_cc import uccsd_convert_amplitude_format

    n = ctx.ri(1, 5)
    real = ctx.chance(0.75)
    p1, p2 = ctx.pick([0.0, 0.3, 1.0]), ctx.pick([0.0, 0.02, 0.1])
    z = lambda s: ctx.np.normal(size=s) + (0 if real else 1j * ctx.np.normal(size=s))
    s = z((n, n)) * (ctx.np.random((n, n)) < p1)
    d = z((n,) * 4) * (ctx.np.random((n,) * 4) < p2)
    keep = s.copy(), d.copy()
    anti = ctx.pick([None, True, False])
    kw = {} if anti is None else {"anti_hermitian": anti}
    anti = anti is not False
    lists = ctx.chance(0.5)
    singles = [([i, j], s[i, j]) for i in range(n) for j in range(n) if s[i, j]]
    doubles = [(list(ix), d[ix]) for ix in itertools.product(range(n), repeat=4) if d[ix]]
    ctx.case((s.tobytes(), d.tobytes(), anti, lists), trivial=not singles and not doubles)
    ctx.sample((n, len(singles), len(doubles), real, anti, lists))
    if lists:
        la = [[list(i), v] for i, v in singles]
        lb = [[list(i), v] for i, v in doubles]
        ctx.rng.shuffle(la)
        if la and ctx.chance(0.3):  # a repeated excitation counts twice
            la.append([list(la[0][0]), 0.25])
            singles.append((list(la[0][0]), 0.25))
        before = repr((la, lb))
        op = uccsd_generator(la, lb, **kw)
        ctx.equal(repr((la, lb)), before, "amplitudes untouched")
        ctx.event("generator from lists")
    else:
        op = uccsd_generator(s, d, **kw)
        ctx.check(np.array_equal(s, keep[0]) and np.array_equal(d, keep[1]), "amplitudes untouched")
        ctx.event("generator from arrays")
        a, b = uccsd_convert_amplitude_format(s, d)
        key = lambda L: sorted((tuple(int(k) for k in i), complex(v).real, complex(v).imag) for i, v in L)
        ctx.equal(key(a), key(singles), "single amplitudes as a list")
        ctx.equal(key(b), key(doubles), "double amplitudes as a list")
    independent(ctx, "excitation generators", (lambda: uccsd_generator(la, lb, **kw)) if lists else (lambda: uccsd_generator(s, d, **kw)), s, d, *([la, lb] if lists else []))
    want = {}
    for (i, j), v in singles:
        add(want, ((i, 1), (j, 0)), v)
        if anti:
            add(want, ((j, 1), (i, 0)), -v)
    for (i, j, k, l), v in doubles:
        add(want, ((i, 1), (j, 0), (k, 1), (l, 0)), v)
        if anti:
            add(want, ((l, 1), (k, 0), (j, 1), (i, 0)), -v)
    compare(ctx, op.terms, want, "generator of the excitations", lambda: (n, singles, doubles))
    if anti and real:
        compare(ctx, dagger(op.terms), {t: -c for t, c in op.terms.items()}, "generator is anti-Hermitian")
    for t in canon(op.terms):
        ctx.equal(sum(1 if x else -1 for _, x in t), 0, "generator conserves particles")


@CHECK.scenario(quick=90, thorough=1500, needs=("singlet generator", "total spin conserved", "amplitudes packed"))
def singlet(ctx):
    from zquantum.core.openfermion.circuits import uccsd_generator, uccsd_singlet_generator, uccsd_singlet_paramsize
    from zquantum.core.openfermion.circuits.unitary_cc import uccsd_singlet_get_packed_amplitudes

    o = ctx.pick([1, 2, 2, 3, 3, 4])
    ne = ctx.ri(0, 2 * o)
    occ = (ne + 1) // 2
    vir = o - occ
    pairs = list(itertools.product(range(occ, o), range(occ)))
    k = len(pairs)
    size = 2 * k + k * (k - 1) // 2
    ctx.equal(uccsd_singlet_paramsize(2 * o, ne), size, "number of singlet amplitudes")
    ctx.raises(ValueError, lambda: uccsd_singlet_paramsize(2 * o + 1, ne), "odd number of spin orbitals refused")
    amps = ctx.np.normal(size=size)
    if ctx.chance(0.3):
        amps = amps * (ctx.np.random(size) < 0.3)
    arg = amps.tolist() if ctx.chance(0.5) else amps.copy()
    anti = ctx.pick([None, True, False])
    kw = {} if anti is None else {"anti_hermitian": anti}
    anti = anti is not False
    ctx.case((o, ne, amps.tobytes(), anti), trivial=not np.any(amps))
    ctx.sample((o, ne, size, anti))
    op = uccsd_singlet_generator(arg, 2 * o, ne, **kw)
    ctx.check(np.array_equal(np.asarray(arg), amps), "amplitudes untouched")
    ctx.raises(ValueError, lambda: uccsd_singlet_generator(arg, 2 * o + 1, ne), "odd number of spin orbitals refused")
    E = {(p, q): {((2 * p + s, 1), (2 * q + s, 0)): 1.0 for s in range(2)} for p, q in pairs}
    T = {}
    for i, pq in enumerate(pairs):
        for t, v in E[pq].items():
            add(T, t, amps[i] * v)
        for t, v in product(E[pq], E[pq], amps[k + i]).items():
            add(T, t, v)
    for i, (a, b) in enumerate(itertools.combinations(pairs, 2)):
        for t, v in product(E[a], E[b], amps[2 * k + i]).items():
            add(T, t, v)
    want = dict(T)
    if anti:
        for t, v in dagger(T).items():
            add(want, t, -v)
    compare(ctx, op.terms, want, "singlet generator", (o, ne))
    conserved(ctx, op.terms, "singlet generator", (o, ne))
    independent(ctx, "singlet generators", lambda: uccsd_singlet_generator(arg, 2 * o, ne, **kw), arg)
    ctx.event("singlet generator")
    if anti:
        compare(ctx, dagger(op.terms), {t: -c for t, c in op.terms.items()}, "singlet generator is anti-Hermitian")
    if o <= 3:
        n = 2 * o
        G = ref.fermion_terms_matrix(op.terms, n)
        up, dn = (lambda j: ref.ladder(n, j, 1)), (lambda j: ref.ladder(n, j, 0))
        Sp = sum(up(2 * j) @ dn(2 * j + 1) for j in range(o))
        Sz = sum(up(2 * j) @ dn(2 * j) - up(2 * j + 1) @ dn(2 * j + 1) for j in range(o)) / 2
        S2 = Sp.conj().T @ Sp + Sz @ (Sz + np.eye(2**n))
        ctx.close(G @ S2, S2 @ G, "singlet generator conserves total spin", atol=1e-7)
        ctx.event("total spin conserved")
    # packing picks the amplitudes of these excitations out of full arrays
    s, d = ctx.np.normal(size=(2 * o,) * 2), ctx.np.normal(size=(2 * o,) * 4)
    got = uccsd_singlet_get_packed_amplitudes(s, d, 2 * o, ne)
    w = [s[2 * p, 2 * q] for p, q in pairs] + [d[2 * p, 2 * q, 2 * p + 1, 2 * q + 1] for p, q in pairs]
    w += [d[2 * p, 2 * q, 2 * r, 2 * t] for (p, q), (r, t) in itertools.combinations(pairs, 2)]
    ctx.close(np.asarray(got, dtype=float), np.asarray(w, dtype=float), "packed amplitudes")
    # the same generator from full arrays
    s, d = np.zeros((2 * o,) * 2), np.zeros((2 * o,) * 4)
    for i, (p, q) in enumerate(pairs):
        for a in range(2):
            s[2 * p + a, 2 * q + a] = amps[i]
            d[2 * p + a, 2 * q + a, 2 * p + 1 - a, 2 * q + 1 - a] = amps[k + i]
    for i, ((p, q), (r, t)) in enumerate(itertools.combinations(pairs, 2)):
        for a, b in itertools.product(range(2), repeat=2):
            d[2 * p + a, 2 * q + a, 2 * r + b, 2 * t + b] = amps[2 * k + i]
    compare(ctx, uccsd_generator(s, d, anti_hermitian=anti).terms, want, "generator from full arrays", (o, ne))
    ctx.close(np.asarray(uccsd_singlet_get_packed_amplitudes(s, d, 2 * o, ne), dtype=float), amps, "packing inverts unpacking")
    ctx.event("amplitudes packed")


# ---------------------------------------------------------------- integrals, molecules
def integrals(ctx, o, real=True):
    z = lambda s: ctx.np.normal(size=s) + (0 if real else 1j * ctx.np.normal(size=s))
    h, g = z((o, o)), z((o,) * 4)
    style = ctx.ri(0, 3)
    if style:
        h = h + h.conj().T
        g = g + g.conj().transpose(3, 2, 1, 0)
        if style == 2:
            g = g + g.transpose(1, 0, 3, 2)
    if style == 3:
        h, g = np.round(3 * h), np.round(3 * g)
        if real and ctx.chance(0.5):
            h, g = h.astype(int), g.astype(int)
    return h, g


def spin(h, g):
    o = h.shape[0]
    H = np.zeros((2 * o,) * 2, dtype=complex)
    G = np.zeros((2 * o,) * 4, dtype=complex)
    for p, q in itertools.product(range(2 * o), repeat=2):
        if p % 2 == q % 2:
            H[p, q] = h[p // 2, q // 2]
    for p, q, r, s in itertools.product(range(2 * o), repeat=4):
        if p % 2 == s % 2 and q % 2 == r % 2:
            G[p, q, r, s] = g[p // 2, q // 2, r // 2, s // 2]
    return H, G


@CHECK.scenario(quick=120, thorough=2500, needs=("spin-orbital integrals", "reduced Hamiltonian"))
def chemistry(ctx):
    from zquantum.core.openfermion import InteractionOperator
    from zquantum.core.openfermion.chem import make_reduced_hamiltonian
    from zquantum.core.openfermion.chem import molecular_data as M

    o = ctx.pick([1, 2, 2, 3])
    real = ctx.chance(0.7)
    h, g = integrals(ctx, o, real)
    ctx.case((h.tobytes(), g.tobytes()))
    ctx.sample((o, h.dtype.str, g.dtype.str))
    kh, kg = h.copy(), g.copy()
    one, two = M.spinorb_from_spatial(h, g)
    H, G = spin(kh, kg)
    ctx.close(one, H, "spin-orbital one-body integrals")
    ctx.close(two, G, "spin-orbital two-body integrals")
    ctx.check(np.array_equal(h, kh) and np.array_equal(g, kg), "integrals untouched")
    ctx.close(M.antisymtei(g), np.einsum("ijlk->ijkl", kg) - kg, "antisymmetrised integrals")
    idx = range(o)
    ctx.close(M.j_mat(g), [[kg[p, q, q, p] for q in idx] for p in idx], "Coulomb matrix")
    ctx.close(M.k_mat(g), [[kg[p, q, p, q] for q in idx] for p in idx], "exchange matrix")
    ctx.check(np.array_equal(g, kg), "integrals untouched")
    ctx.event("spin-orbital integrals")
    if ctx.chance(0.08):
        h, g = ctx.np.normal(size=(9, 9)), ctx.np.normal(size=(9,) * 4)
        for x, y in zip(M.spinorb_from_spatial(h, g), spin(h, g)):
            ctx.close(x, y, "spin-orbital integrals of nine orbitals")
    x = ctx.rng.uniform(-10, 10)
    ctx.close(M.angstroms_to_bohr(M.bohr_to_angstroms(x)), x, "units invert each other", atol=1e-12, rtol=1e-12)
    ctx.close(M.bohr_to_angstroms(1.0), 0.529177, "Bohr radius", atol=1e-6)
    # reduced Hamiltonian: same action on states with the given number of electrons
    n = ctx.ri(2, 5)
    c, h, g = gen.hermitian_tensors(ctx, n, sparse=ctx.chance(0.5))
    kind = ctx.ri(0, 3)
    if kind == 1:
        h, g = np.round(h.real).astype(int), np.round(g.real).astype(int)
        h = h + h.T
        g = g + g.transpose(3, 2, 1, 0)
    elif kind == 2:
        g = np.round(g.real).astype(int)
        g = g + g.transpose(3, 2, 1, 0)
    k = ctx.ri(2, n)
    op = InteractionOperator(c, h.copy(), g.copy())
    red = make_reduced_hamiltonian(op, k)
    ctx.check(np.array_equal(op.one_body_tensor, h) and np.array_equal(op.two_body_tensor, g), "reduced: operator untouched")
    ctx.check(not np.any(red.one_body_tensor), "reduced Hamiltonian has no one-body part")
    sector = [b for b in range(2**n) if bin(b).count("1") == k]
    A, B = ref.tensor_matrix(c, h, g), ref.tensor_matrix(red.constant, red.one_body_tensor, red.two_body_tensor)
    ix = np.ix_(sector, sector)
    ctx.close(B[ix], A[ix], "reduced Hamiltonian", atol=1e-7, detail=lambda: (n, k, h.dtype, g.dtype))
    ctx.event("reduced Hamiltonian")


ATOMS = ["H", "He", "Li", "C", "N", "O", "Na", "Cl", "Fe", "U"]


def molecule(ctx, filename=None, o=None):
    from zquantum.core.openfermion.chem import MolecularData

    geo = [(ctx.pick(ATOMS), tuple(ctx.rng.uniform(-2, 2) for _ in range(3))) for _ in range(ctx.ri(1, 4) if ctx.chance(0.85) else ctx.ri(9, 14))]
    if ctx.chance(0.1):
        geo = ctx.pick(["hubbard", "my geometry", "x"])
    elif ctx.chance(0.2):
        geo = [(a, list(p)) for a, p in geo]
    mult, charge = ctx.ri(1, 12), ctx.ri(-3, 3)
    desc = ctx.pick(["", "0.7414", "a description", "x"])
    kw = {"filename": filename} if filename else {}
    m = MolecularData(geo, ctx.pick(["sto-3g", "cc-pvtz", "6-31g"]), mult, charge=charge, description=desc, **kw)
    return m, geo, mult, charge, desc


ENERGIES = ["hf_energy", "mp2_energy", "cisd_energy", "fci_energy", "ccsd_energy"]
ARRAYS = ["canonical_orbitals", "overlap_integrals", "one_body_integrals", "two_body_integrals", "cisd_one_rdm", "cisd_two_rdm",
          "fci_one_rdm", "fci_two_rdm", "ccsd_single_amps", "ccsd_double_amps"]


def fill(ctx, m, p=0.6):
    vals = {}
    o = ctx.ri(1, 3)
    for e in ENERGIES:
        if ctx.chance(p):
            vals[e] = ctx.pick([0.0, -7.5, ctx.rng.uniform(-50, 0)])
    for a in ARRAYS:
        if ctx.chance(p):
            vals[a] = ctx.np.normal(size=(o,) * (4 if "two" in a or "double" in a else 2))
    if ctx.chance(p):
        vals["orbital_energies"] = ctx.np.normal(size=o)
    if ctx.chance(p):
        vals.update(n_orbitals=o, n_qubits=2 * o)
    if ctx.chance(p):
        vals["nuclear_repulsion"] = ctx.pick([0.0, 1.25, ctx.rng.uniform(0, 9)])
    if ctx.chance(0.5):
        vals["general_calculations"] = {k: ctx.rng.uniform(-1, 1) for k in ctx.rng.sample(["a", "energy", "CASCI_1", "x y"] + [f"point {i}" for i in range(10)], ctx.ri(0, 3) if ctx.chance(0.8) else ctx.ri(9, 14))}
    for k, v in vals.items():
        setattr(m, k, v.copy() if isinstance(v, np.ndarray) else (dict(v) if isinstance(v, dict) else v))
    return vals


@CHECK.scenario(quick=90, thorough=2000, needs=("molecule loaded", "second generation", "failed save"))
def molecules(ctx):
    from zquantum.core.openfermion.chem import MolecularData

    path = ctx.path("")
    if ctx.chance(0.3):
        path = os.path.join(os.getcwd(), "a molecule.name")
    m, geo, mult, charge, desc = molecule(ctx, path + ctx.pick(["", ".hdf5"]))
    ctx.case(repr((geo, mult, charge, desc, ctx.idx)))
    ctx.sample((repr(geo)[:80], mult, charge))
    ctx.equal(m.filename, path, "file name of the molecule")
    text = isinstance(geo, str)
    Z = {"H": 1, "He": 2, "Li": 3, "C": 6, "N": 7, "O": 8, "Na": 11, "Cl": 17, "Fe": 26, "U": 92}
    if not text:
        atoms = sorted((a for a, _ in geo), key=Z.get)
        ctx.equal(list(m.atoms), atoms, "atoms of the molecule")
        ctx.equal([int(x) for x in m.protons], [Z[a] for a in atoms], "protons of the molecule")
        ctx.equal(m.n_electrons, sum(Z[a] for a in atoms) - charge, "electrons of the molecule")
        ctx.equal(m.n_atoms, len(atoms), "number of atoms")
        na, nb = m.get_n_alpha_electrons(), m.get_n_beta_electrons()
        if (m.n_electrons + mult - 1) % 2 == 0:
            ctx.equal((na + nb, na - nb), (m.n_electrons, mult - 1), "alpha and beta electrons")
        shuffled = list(geo)
        ctx.rng.shuffle(shuffled)
        other = MolecularData(shuffled, m.basis, mult, charge=charge, description=desc, filename=path)
        ctx.equal(other.name, m.name, "name doesn't depend on the order of atoms")
        auto = MolecularData(geo, m.basis, mult, charge=charge, description=desc, data_directory="/somewhere")
        ctx.equal(auto.filename, "/somewhere/" + m.name, "file name from the name")
        diff = MolecularData(geo, m.basis, mult % 12 + 1, charge=charge, description=desc, filename=path)
        ctx.check(diff.name != m.name, "name tells multiplicities apart")
        diff = MolecularData(geo, m.basis, mult, charge=charge + ctx.pick([1, -1, 7]), description=desc, filename=path)
        ctx.check(diff.name != m.name, "name tells charges apart")
        diff = MolecularData(geo + [("H", (9, 9, 9))], m.basis, mult, charge=charge, description=desc, filename=path)
        ctx.check(diff.name != m.name, "name tells compositions apart")
    vals = fill(ctx, m)

    def verify(l, name):
        if text:
            ctx.equal(l.geometry, geo, name + ": geometry")
        else:
            ctx.equal([(a, [float(x) for x in p]) for a, p in l.geometry], [(a, [float(x) for x in p]) for a, p in geo], name + ": geometry")
            ctx.equal([str(a) for a in l.atoms], [str(a) for a in m.atoms], name + ": atoms")
        ctx.equal(np.asarray(l.protons).tolist(), np.asarray(m.protons).tolist(), name + ": protons")
        for k in ("basis", "multiplicity", "charge", "description", "name", "n_atoms", "n_electrons"):
            ctx.equal(getattr(l, k), getattr(m, k), f"{name}: {k}")
        for k in ENERGIES + ["nuclear_repulsion", "n_orbitals", "n_qubits"]:
            v = getattr(l, k)
            if k in vals:
                ctx.check(v is not None and float(v) == float(vals[k]), f"{name}: {k}", lambda: (v, vals[k]))
            else:
                ctx.check(v is None, f"{name}: {k} absent", lambda: v)
        for k in ARRAYS + ["orbital_energies"]:
            v = getattr(l, k)
            if k in vals:
                ctx.check(v is not None and np.array_equal(v, vals[k]), f"{name}: {k}", lambda: (v, vals[k]))
            else:
                ctx.check(v is None, f"{name}: {k} absent", lambda: v)
        want = vals.get("general_calculations", {})
        got = l.general_calculations
        ctx.equal({k: float(v) for k, v in (got or {}).items()}, want, name + ": general calculations")

    m.save()
    verify(m, "saved molecule")
    l = MolecularData(filename=path + ctx.pick(["", ".hdf5"]))
    verify(l, "loaded molecule")
    ctx.event("molecule loaded")
    if ctx.chance(0.6):
        if ctx.chance(0.5):
            l = MolecularData(filename=path)  # nothing pulled from the file yet
        l.save()
        verify(MolecularData(filename=path), "molecule of the second generation")
        second = MolecularData(filename=path)
        for k in ctx.rng.sample(ARRAYS, ctx.ri(0, 3)) + ["orbital_energies"]:
            v = getattr(second, k)
            if isinstance(v, np.ndarray):
                v += 1
                ctx.event("loaded array changed in place")
        if isinstance(second.general_calculations, dict):
            second.general_calculations["mine"] = 2.0
        verify(MolecularData(filename=path), "molecule loaded after another was changed")
        verify(l, "molecule loaded before another was changed")
        ctx.event("second generation")
    # loading into an object restores what was changed meanwhile
    m.charge, m.description, m.hf_energy = 17, "changed", 3.25
    m.general_calculations = {"other": 1.0}
    for k in ctx.rng.sample(ARRAYS, ctx.ri(0, 3)):
        setattr(m, k, np.full((2, 2), 9.5))
        ctx.event("array replaced before loading")
    m.load()
    verify(m, "reloaded molecule")
    # a save that fails leaves the stored molecule alone
    if ctx.chance(0.5):
        bad = MolecularData(filename=path)
        what = ctx.pick(["description", "basis", "general"])
        if what == "general":
            bad.general_calculations = {"k": object()}
        else:
            setattr(bad, what, "\u00e4")
        bad.charge = 55
        with open(path + ".hdf5", "rb") as f:
            before = f.read()
        try:
            bad.save()
            failed = False
        except Exception:
            failed = True
        if failed:
            ctx.event("failed save")
            with open(path + ".hdf5", "rb") as f:
                ctx.check(f.read() == before, "failed save leaves the stored molecule")
            verify(MolecularData(filename=path), "molecule after a failed save")


@CHECK.scenario(quick=60, thorough=1500, needs=("molecular Hamiltonian", "active space", "density matrix of a molecule", "missing calculation refused"))
def hamiltonians(ctx):
    from zquantum.core.openfermion.chem import MolecularData
    from zquantum.core.openfermion.chem.molecular_data import MissingCalculationError, geometry_from_file

    path = ctx.path("")
    m, geo, mult, charge, desc = molecule(ctx, path)
    o = ctx.pick([1, 2, 3, 3])
    h, g = ctx.np.normal(size=(o, o)), ctx.np.normal(size=(o,) * 4)
    h = h + h.T
    g = g + g.transpose(3, 2, 1, 0)
    g = g + g.transpose(1, 0, 3, 2)
    if ctx.chance(0.6):
        g = g + g.transpose(3, 1, 2, 0)
        g = g + g.transpose(0, 2, 1, 3)
    nuc = ctx.pick([0.0, 0.7, 3.5])
    ctx.case((h.tobytes(), g.tobytes(), ctx.idx))
    fresh = MolecularData(geo, m.basis, mult, filename=ctx.path("") + "missing")
    for f in (fresh.get_integrals, fresh.get_molecular_hamiltonian, fresh.get_j, fresh.get_k, fresh.get_antisym, fresh.get_molecular_rdm, lambda: fresh.get_molecular_rdm(use_fci=True)):
        ctx.raises(MissingCalculationError, f, "missing calculation refused")
    ctx.event("missing calculation refused")
    m.one_body_integrals, m.two_body_integrals = h.copy(), g.copy()
    m.nuclear_repulsion, m.n_orbitals, m.n_qubits = nuc, o, 2 * o
    if ctx.chance(0.5):
        m.save()
        m = MolecularData(filename=path)
    H, G = spin(h, g)
    full = ref.tensor_matrix(nuc, H, 0.5 * G)
    op = m.get_molecular_hamiltonian()
    ctx.close(ref.tensor_matrix(op.constant, op.one_body_tensor, op.two_body_tensor), full, "molecular Hamiltonian", atol=1e-7)
    ctx.check(np.array_equal(m.one_body_integrals, h) and np.array_equal(m.two_body_integrals, g), "integrals untouched")
    a, b = m.get_integrals()
    ctx.check(np.array_equal(a, h) and np.array_equal(b, g), "integrals of the molecule")
    independent(ctx, "molecular Hamiltonian", m.get_molecular_hamiltonian, m)
    ctx.event("molecular Hamiltonian")
    occ = sorted(ctx.rng.sample(range(o), ctx.ri(0, o - 1)))
    rest = [i for i in range(o) if i not in occ]
    act = sorted(ctx.rng.sample(rest, ctx.ri(1, len(rest))))
    if ctx.chance(0.3):
        ctx.rng.shuffle(act)
    # full action with occ filled and the others empty
    n = 2 * o
    k = 2 * len(act)
    modes = [2 * i + s for i in act for s in range(2)]
    up = [ref.ladder(n, j, 1) for j in range(n)]
    vac = np.zeros(2**n, dtype=complex)
    vac[0] = 1
    core = vac
    for i in occ:
        core = up[2 * i] @ (up[2 * i + 1] @ core)
    cols = []
    for bits in range(2**k):
        v = core
        for q in reversed(range(k)):
            if (bits >> (k - 1 - q)) & 1:
                v = up[modes[q]] @ v
        cols.append(v)
    V = np.array(cols).T
    want = V.conj().T @ full @ V
    oc = None if not occ and ctx.chance(0.5) else list(occ)
    red = m.get_molecular_hamiltonian(occupied_indices=oc, active_indices=list(act))
    ctx.equal(red.one_body_tensor.shape[0], k, "modes of the active space")
    ctx.close(ref.tensor_matrix(red.constant, red.one_body_tensor, red.two_body_tensor), want, "active-space Hamiltonian", atol=1e-6, detail=(o, occ, act))
    independent(ctx, "active-space Hamiltonian", lambda: m.get_molecular_hamiltonian(oc, list(act)), m)
    independent(ctx, "active-space integrals", lambda: m.get_active_space_integrals(oc, list(act)), m)
    cc, ch, cg = m.get_active_space_integrals(oc, list(act))
    HH, GG = spin(np.asarray(ch), np.asarray(cg))
    ctx.close(ref.tensor_matrix(nuc + cc, HH, 0.5 * GG), want, "active-space integrals", atol=1e-6)
    ctx.check(np.array_equal(m.one_body_integrals, h) and np.array_equal(m.two_body_integrals, g), "integrals untouched")
    ctx.event("active space")
    ctx.close(m.get_j(), [[g[p, q, q, p] for q in range(o)] for p in range(o)], "Coulomb matrix")
    ctx.close(m.get_k(), [[g[p, q, p, q] for q in range(o)] for p in range(o)], "exchange matrix")
    ctx.close(m.get_antisym(), np.einsum("ijlk->ijkl", G) - G, "antisymmetrised integrals")
    # density matrices
    one, two = ctx.np.normal(size=(o, o)), ctx.np.normal(size=(o,) * 4)
    fci = ctx.chance(0.5)
    p = "fci" if fci else "cisd"
    setattr(m, p + "_energy", ctx.pick([0.0, -1.5]))
    setattr(m, p + "_one_rdm", one.copy())
    setattr(m, p + "_two_rdm", two.copy())
    r = m.get_molecular_rdm(use_fci=True) if fci else m.get_molecular_rdm()
    ctx.close(r.one_body_tensor, one, "density matrix of a molecule")
    ctx.close(r.two_body_tensor, two, "density matrix of a molecule")
    other = "cisd" if fci else "fci"
    if getattr(m, other + "_energy") is None:
        ctx.raises(MissingCalculationError, lambda: m.get_molecular_rdm(use_fci=not fci), "missing density matrix refused")
    ctx.event("density matrix of a molecule")
    # a molecule from an interaction operator
    from zquantum.core.openfermion import get_molecular_data
    from zquantum.core.openfermion.chem.molecular_data import MoleculeNameError

    reduce = ctx.pick([None, True, False])
    elec = ctx.ri(0, 2 * o)
    kw = {} if reduce is None else {"reduce_spin": reduce}
    kept = op.constant, op.one_body_tensor.copy(), op.two_body_tensor.copy()
    d = get_molecular_data(op, geo, "sto-3g", mult, elec, data_directory="/somewhere", **kw)
    e = slice(None, None, 1 if reduce is False else 2)
    ctx.close(d.nuclear_repulsion, nuc, "molecule of an operator")
    ctx.equal((d.n_orbitals, d.n_qubits, d.n_electrons, d.multiplicity), (2 * o if reduce is False else o, 2 * o, elec, mult), "molecule of an operator")
    ctx.close(d.one_body_integrals, op.one_body_tensor[e, e], "molecule of an operator")
    ctx.close(d.two_body_integrals, op.two_body_tensor[e, e, e, e], "molecule of an operator")
    ctx.close(d.overlap_integrals, np.eye(d.n_orbitals), "molecule of an operator")
    ctx.equal((d.basis, d.filename), ("sto-3g", "/somewhere/" + d.name), "molecule of an operator")
    ctx.check(kept[0] == op.constant and (kept[1] == op.one_body_tensor).all() and (kept[2] == op.two_body_tensor).all(), "operator untouched")
    # malformed molecules
    ctx.raises(MoleculeNameError, lambda: MolecularData(geo, "sto-3g", ctx.pick([0, 13, -1, 2.5, "1"])), "invalid multiplicity refused")
    ctx.raises(TypeError, lambda: MolecularData(geo, "sto-3g", 1, description=ctx.pick([0.7414, 1, ["x"], None])), "invalid description refused")
    missing = dict(geometry=geo, basis="sto-3g", multiplicity=1)
    missing[ctx.pick(list(missing))] = None
    ctx.raises(ValueError, lambda: MolecularData(**missing), "missing metadata refused")
    ctx.raises(ValueError, lambda: m.get_active_space_integrals([], []), "empty active space refused")
    ctx.raises(OSError, lambda: MolecularData(filename=ctx.path("") + "missing"), "missing file refused")
    ctx.check(fresh.get_from_file(ctx.pick(["hf_energy", "canonical_orbitals"])) is None, "property of a missing file is absent")
    if not isinstance(geo, str):
        f = ctx.path(".txt")
        with open(f, "w") as s:
            for atom, pos in geo:
                s.write(ctx.pick(["{} {!r} {!r} {!r}\n", "{}\t{!r}  {!r}\t{!r} \n", "\n{} {!r} {!r} {!r}\n"]).format(atom, *pos))
        got = geometry_from_file(f)
        ctx.equal([(x, [float(c) for c in y]) for x, y in got], [(x, [float(c) for c in y]) for x, y in geo], "geometry from a file")


@CHECK.scenario(quick=24, thorough=400, needs=("stored Hamiltonian",))
def stored(ctx):
    """Loading by properties, from the data directory."""
    from zquantum.core.openfermion.chem import molecular_data as M

    keep = M.DATA_DIRECTORY
    M.DATA_DIRECTORY = os.getcwd()
    try:
        geo = [("Li", (0.0, 0.0, 0.0)), ("H", (0.0, 0.0, ctx.rng.uniform(1, 2)))]
        desc = ctx.pick(["", "1.45", "x"])
        o = 3
        m = M.MolecularData(geo, "sto-3g", 1, description=desc)
        h, g = ctx.np.normal(size=(o, o)), ctx.np.normal(size=(o,) * 4)
        h = h + h.T
        for perm in ((3, 2, 1, 0), (1, 0, 3, 2), (3, 1, 2, 0), (0, 2, 1, 3)):
            g = g + g.transpose(perm)
        m.one_body_integrals, m.two_body_integrals, m.nuclear_repulsion, m.n_orbitals, m.n_qubits = h, g, 0.8, o, 2 * o
        m.save()
        kw, occ, act = ctx.pick([
            ({}, None, None),
            ({"n_active_electrons": 2, "n_active_orbitals": 2}, [0], [1, 2]),
            ({"n_active_electrons": 2, "n_active_orbitals": 1}, [0], [1]),
            ({"n_active_electrons": 2}, [0], [1, 2]),
            ({"n_active_electrons": 4}, [], [0, 1, 2]),
            ({"n_active_orbitals": 2}, [], [0, 1]),
            ({"n_active_electrons": 4, "n_active_orbitals": 3}, [], [0, 1, 2]),
        ])
        ctx.case((repr(kw), h.tobytes()))
        ctx.sample(repr(kw))
        got = M.load_molecular_hamiltonian(geo, "sto-3g", 1, desc, **kw)
        want = m.get_molecular_hamiltonian(occ, act)
        ctx.close(got.constant, want.constant, "stored Hamiltonian", detail=repr(kw))
        ctx.close(got.one_body_tensor, want.one_body_tensor, "stored Hamiltonian", detail=repr(kw))
        ctx.close(got.two_body_tensor, want.two_body_tensor, "stored Hamiltonian", detail=repr(kw))
        ctx.event("stored Hamiltonian")
    finally:
        M.DATA_DIRECTORY = keep
