"""Reference models, written from the definitions and independent of /repo's code."""
import itertools

import numpy as np
import sympy

I2 = np.eye(2, dtype=complex)
PX = np.array([[0, 1], [1, 0]], dtype=complex)
PY = np.array([[0, -1j], [1j, 0]], dtype=complex)
PZ = np.array([[1, 0], [0, -1]], dtype=complex)
PAULI = {"I": I2, "X": PX, "Y": PY, "Z": PZ}


def expi(h, t):
    """exp(-i t h) for Hermitian h."""
    w, v = np.linalg.eigh(h)
    return (v * np.exp(-1j * t * w)) @ v.conj().T


def kron(*ms):
    out = np.eye(1, dtype=complex)
    for m in ms:
        out = np.kron(out, m)
    return out


def _rot(p):
    return lambda a: expi(p, a / 2)


def _u3(t, p, l):
    c, s = np.cos(t / 2), np.sin(t / 2)
    return np.array([[c, -np.exp(1j * l) * s], [np.exp(1j * p) * s, np.exp(1j * (p + l)) * c]])


HAD = (PX + PZ) / np.sqrt(2)
_cnot = np.eye(4, dtype=complex)[[0, 1, 3, 2]]
_swap = np.eye(4, dtype=complex)[[0, 2, 1, 3]]
_iswap = _swap * np.array([1, 1j, 1j, 1])

# name -> (number of parameters, qubits, matrix function)
GATES = {
    "X": (0, 1, lambda: PX),
    "Y": (0, 1, lambda: PY),
    "Z": (0, 1, lambda: PZ),
    "H": (0, 1, lambda: HAD),
    "I": (0, 1, lambda: I2),
    "S": (0, 1, lambda: np.diag([1, 1j])),
    "T": (0, 1, lambda: np.diag([1, np.exp(1j * np.pi / 4)])),
    "RX": (1, 1, _rot(PX)),
    "RY": (1, 1, _rot(PY)),
    "RZ": (1, 1, _rot(PZ)),
    "RH": (1, 1, lambda a: np.exp(1j * a / 2) * expi(HAD, a / 2)),
    "PHASE": (1, 1, lambda a: np.diag([1, np.exp(1j * a)])),
    "U3": (3, 1, _u3),
    "CNOT": (0, 2, lambda: _cnot),
    "CZ": (0, 2, lambda: np.diag([1, 1, 1, -1]).astype(complex)),
    "SWAP": (0, 2, lambda: _swap),
    "ISWAP": (0, 2, lambda: _iswap),
    "CPHASE": (1, 2, lambda a: np.diag([1, 1, 1, np.exp(1j * a)])),
    "XX": (1, 2, lambda a: expi(np.kron(PX, PX), a / 2)),
    "YY": (1, 2, lambda a: expi(np.kron(PY, PY), a / 2)),
    "ZZ": (1, 2, lambda a: expi(np.kron(PZ, PZ), a / 2)),
    "XY": (1, 2, lambda a: expi((np.kron(PX, PX) + np.kron(PY, PY)) / 2, -a / 2)),
}


def apply_matrix(m, qubits, state, n):
    """Apply a 2^k matrix on the listed qubits (first listed = most significant bit of m)
    to a vector or to the columns of a matrix of 2^n rows (qubit 0 = most significant)."""
    k = len(qubits)
    state = np.asarray(state, dtype=complex)
    cols = state.shape[1:] or (1,)
    t = state.reshape((2,) * n + (int(np.prod(cols)),))
    t = np.moveaxis(t, list(qubits), range(k))
    shp = t.shape
    t = (np.asarray(m, dtype=complex) @ t.reshape(2**k, -1)).reshape(shp)
    t = np.moveaxis(t, range(k), list(qubits))
    return t.reshape(state.shape)


def embed(m, qubits, n):
    return apply_matrix(m, qubits, np.eye(2**n, dtype=complex), n)


def controlled(m, k):
    d = m.shape[0]
    out = np.eye(d * 2**k, dtype=complex)
    out[-d:, -d:] = m
    return out


def num(x, env=None):
    """Numeric value of a parameter under an assignment {symbol: number}."""
    if isinstance(x, sympy.Basic):
        if env:
            x = x.xreplace({k: sympy.Float(float(v)) if not isinstance(v, complex) else sympy.sympify(v) for k, v in env.items()})
        c = complex(sympy.N(x))
        return c.real if c.imag == 0 else c
    return x


# ---------------------------------------------------------------- gate specifications
# ("b", name, params) | ("c", customdef, params) | ("ctrl", k, spec) | ("dag", spec)
class CustomDef:
    """Reference description of a custom gate."""

    def __init__(self, name, nq, symbols, sym_matrix):
        self.name, self.nq, self.symbols, self.matrix = name, nq, tuple(symbols), sym_matrix

    def ref(self, *vals):
        d = 2**self.nq
        env = dict(zip(self.symbols, vals))
        return np.array([[num(sympy.sympify(self.matrix[i, j]), env) for j in range(d)] for i in range(d)], dtype=complex)

    def __repr__(self):
        return f"Custom({self.name},{self.symbols},{list(self.matrix)})"


def spec_qubits(s):
    if s[0] == "b":
        return GATES[s[1]][1]
    if s[0] == "c":
        return s[1].nq
    if s[0] == "ctrl":
        return s[1] + spec_qubits(s[2])
    return spec_qubits(s[1])


def spec_params(s):
    if s[0] in "bc":
        return tuple(s[2])
    return spec_params(s[2] if s[0] == "ctrl" else s[1])


def spec_matrix(s, env=None):
    if s[0] == "b":
        return np.asarray(GATES[s[1]][2](*[num(p, env) for p in s[2]]), dtype=complex)
    if s[0] == "c":
        return s[1].ref(*[num(p, env) for p in s[2]])
    if s[0] == "ctrl":
        return controlled(spec_matrix(s[2], env), s[1])
    return spec_matrix(s[1], env).conj().T


def spec_with_params(s, params):
    if s[0] in "bc":
        return (s[0], s[1], tuple(params))
    if s[0] == "ctrl":
        return ("ctrl", s[1], spec_with_params(s[2], params))
    return ("dag", spec_with_params(s[1], params))


def circuit_unitary(ops, n, env=None):
    """ops: list of (spec, qubits)."""
    u = np.eye(2**n, dtype=complex)
    for s, q in ops:
        u = apply_matrix(spec_matrix(s, env), q, u, n)
    return u


# ---------------------------------------------------------------- operators
def pauli_term_matrix(term, n):
    ms = [I2] * n
    for q, p in term:
        ms[q] = ms[q] @ PAULI[p]
    return kron(*ms)


def qubit_terms_matrix(terms, n, env=None):
    out = np.zeros((2**n, 2**n), dtype=complex)
    for t, c in terms.items():
        out += num(c, env) * pauli_term_matrix(t, n)
    return out


_LADDER = {}


def ladder(n, j, creation):
    key = (n, j, bool(creation))
    if key not in _LADDER:
        d = 2**n
        m = np.zeros((d, d), dtype=complex)
        for b in range(d):
            bits = [(b >> (n - 1 - k)) & 1 for k in range(n)]
            if bits[j] == (1 if creation else 0):
                continue
            sign = (-1) ** sum(bits[:j])
            m[b ^ (1 << (n - 1 - j)), b] = sign
        _LADDER[key] = m
    return _LADDER[key]


def fermion_terms_matrix(terms, n, env=None):
    out = np.zeros((2**n, 2**n), dtype=complex)
    for t, c in terms.items():
        m = np.eye(2**n, dtype=complex)
        for j, a in t:
            m = m @ ladder(n, j, a)
        out += num(c, env) * m
    return out


def bits_of(i, n):
    return tuple((i >> (n - 1 - k)) & 1 for k in range(n))


def index_of(bits):
    r = 0
    for b in bits:
        r = 2 * r + int(b)
    return r


def equal_up_to_phase(a, b, tol=1e-7):
    a, b = np.asarray(a, dtype=complex), np.asarray(b, dtype=complex)
    if a.shape != b.shape:
        return False
    k = np.unravel_index(np.argmax(np.abs(b)), b.shape)
    if abs(a[k]) < 1e-9:
        return False
    ph = b[k] / a[k]
    return abs(abs(ph) - 1) < tol * 10 and np.allclose(a * ph, b, atol=tol)


def random_state(rng, n):
    v = rng.normal(size=2**n) + 1j * rng.normal(size=2**n)
    if rng.random() < 0.2:  # a few basis states of equal weight, with phases 1, i, -1, -i
        where = rng.choice(2**n, size=rng.integers(1, min(4, 2**n) + 1), replace=False)
        v = np.zeros(2**n, dtype=complex)
        v[where] = 1j ** rng.integers(0, 4, size=len(where))
    return v / np.linalg.norm(v)


def random_unitary(rng, d):
    q, r = np.linalg.qr(rng.normal(size=(d, d)) + 1j * rng.normal(size=(d, d)))
    return q * (np.diag(r) / np.abs(np.diag(r)))


def all_pauli_terms(n):
    for ps in itertools.product("IXYZ", repeat=n):
        yield tuple((q, p) for q, p in enumerate(ps) if p != "I")


def tensor_matrix(c, h, g):
    n = h.shape[0]
    out = c * np.eye(2**n, dtype=complex)
    up = [ladder(n, j, 1) for j in range(n)]
    dn = [ladder(n, j, 0) for j in range(n)]
    for p in range(n):
        for q in range(n):
            if h[p, q]:
                out += h[p, q] * up[p] @ dn[q]
    for p in range(n):
        for q in range(n):
            pq = up[p] @ up[q]
            for r in range(n):
                for s in range(n):
                    if g[p, q, r, s]:
                        out += g[p, q, r, s] * pq @ dn[r] @ dn[s]
    return out
