"""Cost functions, gradients and ansatze: the value belongs to the given parameters."""
import copy
import warnings

import numpy as np
import sympy

from checks.C14 import expect, pauli_op
from vlib.alias import independent
from vlib import gen, ref
from vlib.harness import Check

warnings.simplefilter("ignore", DeprecationWarning)

CHECK = Check(
    "C16",
    "a case is one parameterised circuit or ansatz with an operator, a configuration (fixed parameters, noise, preprocessors, "
    "estimation method) and a history of evaluations; circuits without symbols are trivial",
    ["parameter vectors are one-dimensional numpy arrays with one number per free symbol", "random circuits use the gates RX, RY, RZ, PHASE, XX, H, CNOT"],
)

GATES = ["RX", "RY", "RZ", "RX", "PHASE", "H", "CNOT", "XX"]


def names(ctx, k):
    base = ctx.pick([["theta_%d"], ["theta_%d", "beta_%d"], ["gamma_%d", "beta_%d"], ["x%d", "theta_%d"]])
    pool = [b % i for b in base for i in ([0, 1, 2, 9, 10, 11, 12, 100] if ctx.chance(0.6) else range(12))]
    ctx.rng.shuffle(pool)
    return [sympy.Symbol(s) for s in pool[:k]]


def natural(s):
    import re

    return [int(x) if x.isdigit() else x for x in re.split(r"(\d+)", s.name)]


def revlex(s):
    return natural(s)[::-1]


def circuit_ops(ctx, n, syms):
    """Every symbol occurs; some inside expressions."""
    ol = []
    for s in syms:
        e = s if ctx.chance(0.6) else gen.expr(ctx, [s] + ([ctx.pick(syms)] if ctx.chance(0.4) else []), 1)
        if s not in e.free_symbols:
            e = s
        ol.append((("b", ctx.pick(["RX", "RY", "RZ", "PHASE"]), (e,)), (ctx.ri(0, n - 1),)))
    ol += gen.ops(ctx, n, ctx.ri(0, 3), gates=GATES, p_mod=0.1)
    ctx.rng.shuffle(ol)
    return [(("b", "H", ()), (q,)) for q in range(n) if ctx.chance(0.5)] + ol


def value(ol, n, rec, env):
    psi = np.eye(2**n)[0].astype(complex)
    for s, q in ol:
        psi = ref.apply_matrix(ref.spec_matrix(s, env), q, psi, n)
    return expect(rec, psi, n).real


def vector(ctx, k):
    r = ctx.ri(0, 5)
    v = np.array([ctx.rng.uniform(-3, 3) for _ in range(k)])
    if r == 0:
        return np.array([ctx.ri(-3, 3) for _ in range(k)], dtype=int)
    if r == 1:
        w = np.zeros(2 * k)
        w[::2] = v
        return w[::2]
    if r == 2:
        v.setflags(write=False)
    return v


def spied(method, log):
    def est(backend, estimation_tasks):
        out = method(backend, estimation_tasks)
        log.append((list(estimation_tasks), out))
        return out

    return est


class Sum:
    """What the estimation method returned and the sums it implies."""

    def __init__(self, entry):
        self.tasks, self.out = entry
        self.value = float(sum(np.sum(np.real(e.values)) for e in self.out))
        covs = [c for e in self.out if e.estimator_covariances for c in e.estimator_covariances]
        self.precision = np.sqrt(max(0.0, sum(np.sum(np.real(c)) for c in covs))) if covs else None


def noise_of(seed, sd, k, rng=None):
    return (rng or np.random.default_rng(seed)).normal(0.0, sd, k)


@CHECK.scenario(quick=260, thorough=6000, needs=("value at the parameters", "gradient is the difference quotient", "caller's parameters unchanged", "circuits submitted are bound to the parameters", "noisy value reproducible", "array updated in place"))
def cost(ctx):
    from zquantum.core import cost_function as CF
    from zquantum.core.estimation import calculate_exact_expectation_values, group_greedily, group_individually
    from zquantum.core.gradients import finite_differences_gradient
    from zquantum.core.symbolic_simulator import SymbolicSimulator

    n = ctx.ri(1, 3)
    k = ctx.pick([1, 2, 3, 3, 12])
    syms = names(ctx, k)
    k = len(syms)
    ol = circuit_ops(ctx, n, syms)
    op, rec = pauli_op(ctx, n, kmax=4 if ctx.chance(0.9) else 24)
    c = gen.retyped(ctx, gen.build_circuit(ol, n))
    c0, op0 = (str(c), c.n_qubits), copy.deepcopy(op.terms)
    kind = ctx.pick(["ground", "ansatz", "factory", "subst", "dynamic"])
    nf = ctx.ri(1, k) if ctx.chance(0.35) and kind != "dynamic" else 0
    fixed = np.array([ctx.rng.uniform(-3, 3) for _ in range(nf)]) if nf else None
    if nf and ctx.chance(0.2):
        fixed = np.array([ctx.ri(-2, 2) for _ in range(nf)])
    sd = ctx.pick([0.05, 1e-3]) if ctx.chance(0.3) else None
    nseed = ctx.pick([0, 0, 1, ctx.ri(0, 1000)])
    key = str
    pre = []
    if ctx.chance(0.5):
        pre.append(ctx.pick([group_individually, lambda t: _quiet(group_greedily, t), lambda t: _quiet(group_greedily, t, True)]))
    log = []
    exact = spied(calculate_exact_expectation_values, log)
    be = SymbolicSimulator(seed=1)
    step = ctx.pick([1e-5, 1e-3, 0.1])
    grad = (lambda f: finite_differences_gradient(f, step)) if step != 1e-5 else finite_differences_gradient
    has_grad = True
    fixed0 = None if fixed is None else fixed.copy()
    order_first_noise = ctx.chance(0.5)
    rng = None
    if kind == "ground":
        if ctx.chance(0.5):
            key = ctx.pick([natural, revlex, lambda s: s.name[::-1]])
        f = CF.get_ground_state_cost_function(
            op, c, be, exact, pre or ctx.pick([None, []]), fixed, sd, nseed if sd else None, grad, **({} if key is str else {"symbols_sort_key": key})
        )
        spec = [("fix",)] * bool(nf) + [("reseed",)] * bool(sd)
    elif kind == "ansatz":
        a, key = make_ansatz(ctx, c)
        f = CF.AnsatzBasedCostFunction(op, a, be, exact, pre or None, fixed, sd, nseed if sd else None)
        has_grad = False
        spec = [("fix",)] * bool(nf) + [("reseed",)] * bool(sd)
    else:
        pp, spec = [], []
        if nf:
            pp.append(CF.fix_parameters(fixed))
            spec.append(("fix",))
        if sd:
            pp.insert(0 if order_first_noise else len(pp), CF.add_normal_noise(sd, nseed))
            spec.insert(0 if order_first_noise else len(spec), ("stream",))
            rng = np.random.default_rng(nseed)
        if ctx.chance(0.1):  # a long chain of preprocessors
            by = [ctx.rng.uniform(-1, 1) for _ in range(ctx.ri(9, 14))]
            pp += [lambda x, d=d: x + d for d in by]
            spec.append(("shift", sum(by)))
        if kind == "factory":
            if ctx.chance(0.5):
                key = ctx.pick([natural, revlex, lambda s: s.name[::-1]])
            fac = CF.expectation_value_estimation_tasks_factory(op, c, pre or None, **({} if key is str else {"symbols_sort_key": key}))
        else:
            a, key = make_ansatz(ctx, c)
            fac = (CF.substitution_based_estimation_tasks_factory if kind == "subst" else CF.dynamic_circuit_estimation_tasks_factory)(op, a, pre or None)
        arg = pp if ctx.chance(0.6) else iter(pp) if ctx.chance(0.5) else tuple(pp)
        if not pp and ctx.chance(0.5):
            arg = None
        f = CF.create_cost_function(be, fac, exact, arg, grad)
    order = sorted(syms, key=key)
    ctx.case((kind, gen.show(ol), str(rec), nf, sd, str(order)))
    ctx.sample((kind, gen.show(ol), str(rec), nf, sd))

    def full(p):
        p = np.array(p, dtype=float)
        for s in spec:
            if s[0] == "fix":
                p = np.concatenate((fixed0, p))
            elif s[0] == "reseed":
                p = p + noise_of(nseed, sd, len(p))
            elif s[0] == "shift":
                p = p + s[1]
            else:
                p = p + noise_of(None, sd, len(p), rng)
        return p

    def expected(p):
        return value(ol, n, rec, dict(zip(order, full(p))))

    seen = []
    heavy = k > 6
    held = None
    for _ in range(1 if heavy else ctx.ri(2, 3)):
        p = seen[0][0].copy() if seen and ctx.chance(0.4) else vector(ctx, k - nf)
        if held is not None and held.flags.writeable and held.shape == p.shape and ctx.chance(0.4):
            # an optimizer that updates its own array in place
            held[...] = p if held.dtype == p.dtype else vector(ctx, k - nf).astype(held.dtype)
            p = held
            ctx.event("array updated in place")
        held = p
        p0 = p.copy()
        del log[:]
        v = f(p)
        want = expected(p0)
        ctx.check(np.array_equal(p, p0) and p.dtype == p0.dtype, "caller's parameters unchanged")
        ctx.close(float(v), want, "value at the parameters", atol=1e-7, detail=lambda: (kind, str(rec), gen.show(ol), p0, str(order), fixed0, sd))
        ctx.equal(len(log), 1, "one estimation per evaluation")
        s = Sum(log[0])
        ctx.close(float(v), s.value, "value is the sum of the estimates")
        ctx.check(all(not t.circuit.free_symbols for t in s.tasks), "circuits submitted are bound to the parameters")
        if sd:
            ctx.event("noisy value reproducible")
        seen.append((p0, v))
        if nf and fixed is not None:
            ctx.check(np.array_equal(fixed, fixed0), "fixed parameters unchanged")
        if has_grad and not heavy and k - nf <= 3 and ctx.chance(0.5):
            independent(ctx, "gradients", lambda: f.gradient(p), p) if not sd and n < 3 else None
            g = f.gradient(p)
            ctx.check(np.array_equal(p, p0), "gradient leaves the parameters unchanged")
            gw = []
            for i in range(len(p0)):
                hi, lo = p0.astype(float), p0.astype(float)
                hi[i] += step
                lo[i] -= step
                gw.append((expected(hi) - expected(lo)) / (2 * step))
            ctx.close(g, gw, "gradient is the difference quotient", atol=1e-12 / step * 10 + 1e-7, rtol=1e-5)
    if k - nf > 0:
        bad = np.zeros(k - nf + ctx.pick([1, -1, 3]))
        if kind != "dynamic":
            ctx.raises(ValueError, lambda: f(bad), "wrong number of parameters rejected")
    ctx.equal((str(c), c.n_qubits), c0, "circuit unchanged")
    ctx.equal(op.terms, op0, "operator unchanged")
    if kind == "ansatz":  # the public attributes can be changed between evaluations
        sd = None
        f.parameter_precision = None
        spec = [x for x in spec if x[0] == "fix"]
        f.fixed_parameters = fixed0 = np.array([ctx.rng.uniform(-1, 1) for _ in range(ctx.ri(0, k))])
        spec = [("fix",)]
        p = np.array([ctx.rng.uniform(-1, 1) for _ in range(k - len(fixed0))])
        ctx.close(float(f(p)), expected(p), "changed settings take effect", atol=1e-7)


def _quiet(f, *a):
    from checks.C14 import quiet

    return quiet(f, *a)


def make_ansatz(ctx, circuit):
    """An ansatz that prepares the given circuit; with the default or its own symbol order."""
    global Ansatz, A  # the overrides package resolves base classes among module globals
    from overrides import overrides
    from zquantum.core.interfaces.ansatz import Ansatz
    from zquantum.core.utils import create_symbols_map

    own = ctx.pick([None, None, natural, lambda s: s.name[::-1]])

    class A(Ansatz):
        supports_parametrized_circuits = True

        @property
        def number_of_qubits(self):
            return circuit.n_qubits

        @overrides
        def _generate_circuit(self, params=None):
            if params is None:
                return circuit
            return circuit.bind(create_symbols_map(sorted(circuit.free_symbols, key=self.symbols_sort_key), params))

    if own is not None:

        class B(A):
            @property
            def symbols_sort_key(self):
                return own

        return B(1), own
    return A(1), revlex


@CHECK.scenario(quick=200, thorough=4000, needs=("sampled value from the backend's samples", "precision from the covariances"))
def sampled(ctx):
    """Estimation by averaging with grouping, context selection and shot allocation in the loop."""
    from functools import partial

    from checks.C15 import parity, stand_in
    from zquantum.core import cost_function as CF
    from zquantum.core.estimation import (
        allocate_shots_proportionally,
        allocate_shots_uniformly,
        estimate_expectation_values_by_averaging,
        group_greedily,
        group_individually,
        perform_context_selection,
    )

    n, k = ctx.ri(1, 3), ctx.ri(1, 3)
    syms = names(ctx, k)
    ol = circuit_ops(ctx, n, syms)
    op, rec = pauli_op(ctx, n, kmax=4 if ctx.chance(0.9) else 24)
    if not any(rec):
        return
    c = gen.build_circuit(ol, n)
    shots = ctx.pick([partial(allocate_shots_uniformly, number_of_shots=ctx.ri(1, 30)), partial(allocate_shots_proportionally, total_n_shots=ctx.ri(1, 60))])
    pre = [ctx.pick([group_individually, lambda t: _quiet(group_greedily, t)]), shots, perform_context_selection]
    if ctx.chance(0.3):
        pre = [pre[0], pre[2], pre[1]]
    calls, log = [], []
    be = stand_in(ctx, calls)
    kind = ctx.ri(0, 2)
    spy = spied(estimate_expectation_values_by_averaging, log)
    ctx.case((gen.show(ol), str(rec), kind))
    if kind == 0:
        f = CF.get_ground_state_cost_function(op, c, be, spy, pre)
    elif kind == 1:
        f = CF.create_cost_function(be, CF.expectation_value_estimation_tasks_factory(op, c, pre), spy)
    else:
        a, _ = make_ansatz(ctx, c)
        f = CF.AnsatzBasedCostFunction(op, a, be, spy, pre)
    for _ in range(ctx.ri(1, 2)):
        del calls[:], log[:]
        v = f(np.array([ctx.rng.uniform(-2, 2) for _ in syms]))
        tot, i = 0.0, 0
        for t in log[0][0]:
            terms = t.operator.terms
            if list(terms) == [()]:
                tot += complex(terms[()]).real
            elif t.number_of_shots:
                _, _, b = calls[i]
                i += 1
                tot += sum(complex(co).real * np.mean([parity(x, y) for y in b]) for x, co in terms.items())
        ctx.equal(i, len(calls), "every measurement is used")
        ctx.close(float(v), tot, "sampled value from the backend's samples", atol=1e-9)
        if kind:
            s = Sum(log[0])
            ctx.check(v.precision is not None and not np.isnan(v.precision), "precision is a number", str(v.precision))
            ctx.close(v.precision**2, s.precision**2, "precision from the covariances", atol=1e-9)
    if ctx.chance(0.2):  # averaging is the default
        from zquantum.core.symbolic_simulator import SymbolicSimulator

        a, _ = make_ansatz(ctx, c)
        p = np.array([ctx.rng.uniform(-2, 2) for _ in syms])
        got = [float(CF.AnsatzBasedCostFunction(op, a, SymbolicSimulator(seed=5), **kw)(p)) for kw in (
            dict(estimation_preprocessors=pre), dict(estimation_method=None, estimation_preprocessors=pre),
            dict(estimation_method=estimate_expectation_values_by_averaging, estimation_preprocessors=pre))]
        ctx.check(got[0] == got[1] == got[2], "averaging is the default", lambda: got)


@CHECK.scenario(quick=400, thorough=5000, needs=("sum of values", "precision of sums"))
def sums(ctx):
    from zquantum.core.cost_function import sum_expectation_values
    from zquantum.core.measurement import ExpectationValues, Measurements
    from zquantum.core.openfermion import IsingOperator

    kind = ctx.ri(0, 2)
    if kind == 0:  # explicit covariances
        vals, covs = [], []
        for _ in range(ctx.ri(1, 4)):
            d = ctx.ri(1, 3)
            m = ctx.np.normal(size=(d, d))
            vals += list(ctx.np.normal(size=d))
            covs.append(m @ m.T)
        e = ExpectationValues(np.array(vals), None, covs)
        ctx.case(str(vals))
        want = np.sqrt(sum(c.sum() for c in covs))
    elif kind == 1:
        vals = list(ctx.np.normal(size=ctx.ri(1, 6)))
        e = ExpectationValues(np.array(vals))
        ctx.case(str(vals))
        r = sum_expectation_values(e)
        ctx.close(float(r), sum(vals), "sum of values")
        ctx.check(r.precision is None, "no covariances, no precision")
        return
    else:  # operators whose value is certain although single terms fluctuate
        a, b = ctx.rng.uniform(-2, 2), ctx.rng.uniform(-2, 2)
        op = IsingOperator("Z0", a) + IsingOperator("Z1", b) + IsingOperator("Z2", -(a + b))
        bits = [(x,) * 3 for x in [ctx.ri(0, 1) for _ in range(ctx.ri(2, 20))]]
        e = Measurements(bits).get_expectation_values(op)
        ctx.case(str((a, b, bits)))
        want = 0.0
    v = sum_expectation_values(e)
    ctx.close(float(v), np.sum(e.values), "sum of values")
    ctx.check(v.precision == v.precision and abs(v.precision - want) < 1e-7 * max(1, want), "precision of sums", str((v.precision, want)))


@CHECK.scenario(quick=500, thorough=6000, needs=("difference quotient of a plain function",))
def gradients(ctx):
    from zquantum.core.gradients import finite_differences_gradient
    from zquantum.core.interfaces.functions import function_with_gradient

    d = ctx.ri(0, 6)
    m = ctx.np.normal(size=(d, d))
    w = ctx.np.normal(size=d)
    seen = []

    def f(x):
        seen.append(x.copy())
        x[...] = 1e9 if mutate else x  # a function that writes into its argument
        return float(seen[-1] @ m @ seen[-1] + np.sin(w @ seen[-1]))

    mutate = ctx.chance(0.3)
    h = ctx.pick([1e-5, 1e-2, 0.5, 1])
    p = vector(ctx, d)
    p0 = p.copy()
    ctx.case(str((p, h)), trivial=d == 0)
    g = finite_differences_gradient(f, h) if h != 1e-5 or ctx.chance(0.5) else finite_differences_gradient(f)
    fg = function_with_gradient(f, g)
    got = fg.gradient(p)
    ctx.check(np.array_equal(p, p0), "point unchanged by the gradient")
    F = lambda x: float(x @ m @ x + np.sin(w @ x))
    want = []
    for i in range(d):
        e = np.zeros(d)
        e[i] = h
        want.append((F(p0 + e) - F(p0 - e)) / (2 * h))
    ctx.close(np.array(got).reshape(-1), want, "difference quotient of a plain function", atol=1e-8 / h, rtol=1e-6)
    ctx.equal(len(seen), 2 * d, "two evaluations per coordinate")
    earlier = np.array(got)
    independent(ctx, "gradients", lambda: fg.gradient(p0), p0)
    fg.gradient(p0 + 1)
    ctx.check(np.array_equal(earlier, got), "gradients: earlier ones kept")


@CHECK.scenario(quick=400, thorough=6000, needs=("property change reflected", "executable circuit", "natural order of the ansatz"))
def ansatz(ctx):
    """Random histories of property changes and circuit requests on an ansatz of our own."""
    global Ansatz
    from overrides import overrides
    from zquantum.core.circuits import RX, RY, RZ, Circuit
    from zquantum.core.interfaces.ansatz import Ansatz
    from zquantum.core.interfaces.ansatz_utils import ansatz_property, combine_ansatz_params, invalidates_parametrized_circuit

    class A(Ansatz):
        supports_parametrized_circuits = True
        width = ansatz_property("width", 2)
        axis = ansatz_property("axis")
        prefix = ansatz_property("prefix", "theta")

        def __init__(self, layers, width=None, axis="X", shift=0.0):
            super().__init__(layers)
            if width is not None:
                self.width = width
            self.axis = axis
            self._shift = shift

        @property
        def number_of_qubits(self):
            return self.width

        shift = invalidates_parametrized_circuit(property(lambda self: self._shift, lambda self, v: setattr(self, "_shift", v)))

        @invalidates_parametrized_circuit
        def configure(self, axis, *, width=None):
            self._axis = axis
            if width is not None:
                self._width = width
            return ("configured", axis)

        @overrides
        def _generate_circuit(self, params=None):
            g = {"X": RX, "Y": RY, "Z": RZ}[self.axis]
            return Circuit([g(sympy.Symbol(f"{self.prefix}_{i}") + self.shift)(q) for i in range(self.number_of_layers) for q in range(self.width)], n_qubits=self.width)

    def model(st):
        return [(st["axis"], st["prefix"], i, st["shift"], q) for i in range(st["layers"]) for q in range(st["width"])]

    def of(c):
        out = []
        for o in c.operations:
            e = sympy.sympify(o.gate.params[0])
            s = list(e.free_symbols)[0]
            out.append((o.gate.name[1], s.name.rsplit("_", 1)[0], int(s.name.rsplit("_", 1)[1]), float(e - s), o.qubit_indices[0]))
        return out

    two = []
    for _ in range(2):
        st = {"layers": ctx.pick([0, 1, 2, 3, 11, 12]), "width": ctx.ri(1, 3), "axis": ctx.pick("XYZ"), "shift": 0.0, "prefix": "theta"}
        if ctx.chance(0.3):
            a = A(st["layers"], None, st["axis"])
            st["width"] = 2
        else:
            a = A(st["layers"], st["width"], st["axis"])
        two.append((a, st))
    hist = []
    for _ in range(ctx.ri(2, 8)):
        a, st = ctx.pick(two)
        r = ctx.ri(0, 7)
        if r == 7:
            st["prefix"] = a.prefix = ctx.pick(["theta", "a", "gamma_2", "x"])
        elif r == 0:
            st["layers"] = a.number_of_layers = ctx.pick([0, 1, 2, 5, 11])
        elif r == 1:
            st["width"] = a.width = ctx.ri(1, 4)
        elif r == 2:
            st["axis"] = a.axis = ctx.pick("XYZ")
        elif r == 3:
            st["shift"] = a.shift = ctx.pick([0.5, -1.0, 2.25])
        elif r == 4:
            ax, w = ctx.pick("XYZ"), ctx.pick([None, 1, 3])
            ctx.equal(a.configure(ax, width=w), ("configured", ax), "wrapped method returns its value")
            st["axis"] = ax
            if w:
                st["width"] = w
        hist.append(r)
        for b, s in two:
            if ctx.chance(0.6):
                ctx.equal((b.number_of_layers, b.width, b.axis, b.shift, b.number_of_qubits), (s["layers"], s["width"], s["axis"], s["shift"], s["width"]), "properties read back")
                ctx.equal(of(b.parametrized_circuit), model(s), "property change reflected", hist)
                ctx.equal(b.number_of_params, s["layers"], "number of parameters")
                if s["layers"] and ctx.chance(0.5):
                    p = np.array([ctx.rng.uniform(-3, 3) for _ in range(s["layers"])])
                    ex = b.get_executable_circuit(p)
                    ctx.check(not ex.free_symbols, "executable circuit")
                    if s["layers"] > 10:
                        ctx.event("natural order of the ansatz")
                    got = [(o.gate.name[1], float(o.gate.params[0]), o.qubit_indices[0]) for o in ex.operations]
                    want = [(x, p[i] + sh, q) for x, _, i, sh, q in model(s)]
                    ctx.check(
                        len(got) == len(want) and all(u[0] == v[0] and u[2] == v[2] and abs(u[1] - v[1]) < 1e-12 for u, v in zip(got, want)),
                        "executable circuit has the parameters in natural order", lambda: f"{got} {want}",
                    )
                    ctx.equal(of(b.parametrized_circuit), model(s), "parametrized circuit untouched by binding")
                    ctx.raises(ValueError, lambda: b.get_executable_circuit(np.append(p, 1.0)), "surplus parameters rejected")
    ctx.case(str((hist, [s for _, s in two])))
    ctx.raises(ValueError, lambda: A(-1), "negative number of layers rejected")
    ctx.raises(Exception, lambda: two[0][0].get_executable_circuit(None), "missing parameters rejected")

    class P(Ansatz):
        supports_parametrized_circuits = False

        @overrides
        def _generate_circuit(self, params=None):
            return Circuit([RX(x)(0) for x in params])

    q = P(1)
    ctx.raises(NotImplementedError, lambda: q.parametrized_circuit, "no parametrized circuit, no silent answer")
    ctx.raises(NotImplementedError, lambda: q.number_of_params, "no parameter count, no silent answer")
    ctx.equal(q.get_executable_circuit(np.array([0.5, 1.0])).operations, [RX(0.5)(0), RX(1.0)(0)], "circuit generated from the parameters")
    x, y = vector(ctx, 2), vector(ctx, 3)
    ctx.close(combine_ansatz_params(x, y), [*x, *y], "combined parameters in order")


@CHECK.scenario(quick=60, thorough=800, needs=("complex result refused",))
def refusals(ctx):
    """A cost function gives real numbers: an estimation method that returns complex ones is not believed."""
    import sympy
    from zquantum.core.circuits import RX, RY, Circuit
    from zquantum.core.cost_function import get_ground_state_cost_function
    from zquantum.core.measurement import ExpectationValues
    from zquantum.core.openfermion import QubitOperator
    from zquantum.core.symbolic_simulator import SymbolicSimulator

    k = ctx.ri(1, 3)
    th = sympy.symbols(f"theta_:{k}")
    circuit = Circuit([ctx.pick([RX, RY])(t)(0) for t in th])
    x = vector(ctx, k)
    m = ctx.ri(1, 4)
    real = ctx.np.uniform(-1, 1, m)
    imag = np.zeros(m)
    imag[ctx.ri(0, m - 1)] = ctx.pick([1e-3, 1.0, -0.5])
    ctx.case((k, m, real.tobytes(), imag.tobytes()))
    calls = []

    def method(backend, tasks):
        calls.append(len(tasks))
        return [ExpectationValues(real + 1j * imag) for _ in tasks]

    f = _quiet(get_ground_state_cost_function, QubitOperator("Z0"), circuit, SymbolicSimulator(), method)
    keep = x.copy()
    ctx.raises(ValueError, lambda: f(x), "complex result refused", lambda: (real, imag))
    ctx.check(calls == [1] and np.array_equal(x, keep), "complex result refused", lambda: (calls, keep, x))
    g = _quiet(get_ground_state_cost_function, QubitOperator("Z0"), circuit, SymbolicSimulator(),
               lambda backend, tasks: [ExpectationValues(real.copy()) for _ in tasks])
    ctx.close(float(g(x)), real.sum(), "real result returned", atol=1e-9)
