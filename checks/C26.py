"""Workflow steps: the files they write hold what the library computes, and their inputs stay as they were."""
import copy
import json
import os
import random
import warnings

import numpy as np
import sympy

from checks.C24 import fingerprint, same_array
from vlib import gen, ref
from vlib.harness import Check

CHECK = Check(
    "C26",
    "a case is one call of a step function with its arguments as objects, files or specification strings; empty inputs are trivial",
    ["steps that sample are given a number of samples; sampled results are compared with a backend constructed with the same seed; "
     "gate parameters and coefficients are compared to 1e-9"],
)


# ---------------------------------------------------------------- inputs and their integrity
def snap(x):
    from zquantum.core.circuits import Circuit

    if isinstance(x, Circuit):
        return ("circuit", x.n_qubits, [repr(o) for o in x.operations])
    if isinstance(x, (list, tuple)):
        return (type(x).__name__, [snap(v) for v in x])
    return fingerprint(x)


class Inputs:
    """Hands the arguments of a step over as objects or files, and remembers what they were."""

    def __init__(self, ctx):
        self.ctx, self.files, self.objects = ctx, {}, []

    def file(self, save, obj):
        p = self.ctx.path()
        save(obj, p)
        with open(p, "rb") as f:
            self.files[p] = f.read()
        self.ctx.event("input as file")
        return p

    def obj(self, o):
        self.objects.append((o, snap(o)))
        self.ctx.event("input as object")
        return o

    def any(self, save, obj):
        return self.file(save, obj) if self.ctx.chance(0.5) else self.obj(obj)

    def specs(self, d):
        if self.ctx.chance(0.5):
            self.ctx.event("input as specification string")
            return json.dumps(d)
        return self.obj(dict(d))

    def array(self, a):
        from zquantum.core.serialization import save_array

        return self.file(save_array, np.asarray(a))

    def run(self, step, *a, outputs=(), **kw):
        """Runs a step; its outputs replace whatever was there."""
        for o in outputs:
            if os.path.exists(o):
                os.remove(o)
            if self.ctx.chance(0.3):
                with open(o, "w") as f:
                    f.write("[" + "1, " * 4000 + "1]")
        # the global generators belong to the caller's process; inputs don't
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            res = step(*a, **kw)
        self.ctx.event("step " + step.__module__.split(".")[-1] + "." + step.__name__)
        for p, b in self.files.items():
            with open(p, "rb") as f:
                self.ctx.check(f.read() == b, f"input file untouched by {step.__name__}", p)
        for o, s in self.objects:
            self.ctx.check(snap(o) == s, f"input object untouched by {step.__name__}", lambda: (o, s))
        return res


def param_same(a, b):
    a, b = sympy.sympify(a), sympy.sympify(b)
    if a.free_symbols != b.free_symbols:
        return False
    env = {s: 0.3 + 0.17 * i for i, s in enumerate(sorted(a.free_symbols, key=str))}
    return abs(complex(a.subs(env)) - complex(b.subs(env))) < 1e-9


def circuits_same(got, want):
    if got.n_qubits != want.n_qubits or len(got.operations) != len(want.operations):
        return False
    for a, b in zip(got.operations, want.operations):
        if type(a) is not type(b) or a.gate.name != b.gate.name or tuple(a.qubit_indices) != tuple(b.qubit_indices):
            return False
        if type(a.gate) is not type(b.gate) or len(a.params) != len(b.params):
            return False
        if not all(param_same(x, y) for x, y in zip(a.params, b.params)):
            return False
    return True


def rand_ops(ctx, n=None, count=None, syms=(), p_sym=0.0, **kw):
    n = n or ctx.ri(1, 4)
    return n, gen.ops(ctx, n, ctx.ri(0, 6) if count is None else count, max_arity=2, syms=syms, p_sym=p_sym, p_custom=0.0, **kw)


def rand_circuit(ctx, n=None, count=None, **kw):
    if n is None and ctx.chance(0.12):  # a register without operations
        return gen.build_circuit([], ctx.ri(1, 6))
    n, ops = rand_ops(ctx, n, count, **kw)
    return gen.retyped(ctx, gen.build_circuit(ops, n))


def terms_same(ctx, got, want, what, tol=1e-8, detail=""):
    keys = set(got.terms) | set(want.terms)
    for t in keys:
        a, b = complex(got.terms.get(t, 0)), complex(want.terms.get(t, 0))
        ctx.check(abs(a - b) <= tol * (1 + abs(b)), what, lambda: (t, a, b, detail))


# ---------------------------------------------------------------- objects named in specifications
CALLS = []
global_ansatz = {}


def noise(data):
    return ("noise", json.dumps(data, sort_keys=True))


def ansatz_class(name):
    if name not in global_ansatz:
        global Ansatz
        from overrides import overrides

        from zquantum.core.circuits import CNOT, RX, RY, RZ, Circuit
        from zquantum.core.interfaces.ansatz import Ansatz
        from zquantum.core.interfaces.ansatz_utils import ansatz_property

        def build(n, layers, p, h=None):
            ops, k = [], 0
            for _ in range(layers):
                for q in range(n):
                    ops.append([RX, RY][q % 2](p[k])(q))
                    k += 1
                for q in range(n - 1):
                    ops.append(CNOT(q, q + 1))
                ops.append(RZ(p[k])(0))
                k += 1
            return Circuit(ops, n_qubits=n)

        class Layered(Ansatz):
            supports_parametrized_circuits = True
            problem_size = ansatz_property("problem_size")

            def __init__(self, number_of_layers, problem_size=2):
                super().__init__(number_of_layers)
                self.problem_size = problem_size

            @property
            def number_of_qubits(self):
                return self.problem_size

            @overrides
            def _generate_circuit(self, parameters=None):
                k = self.number_of_layers * (self.problem_size + 1)
                p = [sympy.Symbol(f"theta_{i}") for i in range(k)] if parameters is None else list(parameters)
                return build(self.problem_size, self.number_of_layers, p)

        class Direct(Ansatz):
            supports_parametrized_circuits = False
            problem_size = ansatz_property("problem_size")

            def __init__(self, number_of_layers, problem_size=2):
                super().__init__(number_of_layers)
                self.problem_size = problem_size

            @property
            def number_of_qubits(self):
                return self.problem_size

            @property
            def number_of_params(self):
                return self.number_of_layers * (self.problem_size + 1)

            @overrides
            def _generate_circuit(self, parameters=None):
                return build(self.problem_size, self.number_of_layers, list(parameters))

        def with_cost(base):
            class Cost(base):
                cost_hamiltonian = ansatz_property("cost_hamiltonian")

                def __init__(self, number_of_layers, cost_hamiltonian):
                    from zquantum.core.openfermion import count_qubits

                    super().__init__(number_of_layers, max(1, count_qubits(cost_hamiltonian)))
                    self.cost_hamiltonian = cost_hamiltonian

            return Cost

        class Warm(with_cost(Layered)):
            thetas = ansatz_property("thetas")

            def __init__(self, number_of_layers, cost_hamiltonian, thetas):
                super().__init__(number_of_layers, cost_hamiltonian)
                self.thetas = thetas

            @overrides
            def _generate_circuit(self, parameters=None):
                from zquantum.core.circuits import RY as Y, Circuit as C

                return C([Y(float(t))(i) for i, t in enumerate(self.thetas)], n_qubits=self.problem_size) + super()._generate_circuit(parameters)

        global_ansatz.update(Layered=Layered, Direct=Direct, QAOAFarhiAnsatz=with_cost(Layered), WarmStartQAOAAnsatz=Warm)
    return global_ansatz[name]


class Descent:
    """A small deterministic optimiser: coordinate probes around the starting point."""

    @staticmethod
    def make(step, sweeps):
        from zquantum.core.interfaces.optimizer import Optimizer, construct_history_info, optimization_result

        class Probe(Optimizer):
            def _minimize(self, cost_function, initial_params, keep_history=False):
                best = np.array(initial_params, dtype=float)
                value, n = cost_function(best), 1
                for _ in range(sweeps):
                    for i in range(len(best)):
                        for s in (step, -step):
                            x = best.copy()
                            x[i] += s
                            v, n = cost_function(x), n + 1
                            if v < value:
                                best, value = x, v
                return optimization_result(
                    opt_value=value, opt_params=best, nfev=n, nit=sweeps, **construct_history_info(cost_function, keep_history))

        return Probe()


class Backends:
    @staticmethod
    def make(noise_model, device_connectivity, seed, n_samples):
        from zquantum.core.symbolic_simulator import SymbolicSimulator

        b = SymbolicSimulator(noise_model=noise_model, device_connectivity=device_connectivity, seed=seed)
        b.n_samples = n_samples
        CALLS.append((noise_model, device_connectivity))
        return b


def __getattr__(name):  # names used in specifications
    if name in ("Layered", "Direct", "QAOAFarhiAnsatz", "WarmStartQAOAAnsatz"):
        return ansatz_class(name)
    raise AttributeError(name)


class ProbeOptimizer:
    def __new__(cls, step=0.4, sweeps=1):
        return Descent.make(step, sweeps)


class SeededSimulator:
    def __new__(cls, noise_model=None, device_connectivity=None, seed=None, n_samples=None):
        return Backends.make(noise_model, device_connectivity, seed, n_samples)


SIM = "zquantum.core.symbolic_simulator"


def backend_specs(ctx, seed, track=None, own=False):
    d = {"module_name": "checks.C26" if own else SIM, "function_name": "SeededSimulator" if own else "SymbolicSimulator", "seed": seed}
    if track is not None:
        d["track_measurements"] = bool(track)
        if track:
            if track.get("file"):
                d["raw_data_file_name"] = track["file"]
            if track.get("bitstrings") is not None:
                d["record_bitstrings"] = track["bitstrings"]
    return d


def rand_track(ctx):
    if ctx.chance(0.6):
        return None
    if ctx.chance(0.2):
        return {}
    return {"file": ctx.pick([None, "tracked.json"]), "bitstrings": ctx.pick([None, True, False]), "on": 1}


def check_tracking(ctx, track, circuits, bitstrings):
    """The tracked data is one record per circuit executed, in order."""
    if not track:
        return
    with open(track.get("file") or "raw_data.json") as f:
        raw = json.load(f)["raw-data"]
    ctx.equal(len(raw), len(circuits), "one tracked record per executed circuit")
    from zquantum.core.circuits import circuit_from_dict

    for r, c, bs in zip(raw, circuits, bitstrings):
        ctx.check(circuits_same(circuit_from_dict(r["circuit"]), c), "tracked circuit", lambda: (r, c))
        counts = {}
        for b in bs:
            k = "".join(map(str, b))
            counts[k] = counts.get(k, 0) + 1
        ctx.equal(r["counts"], counts, "tracked counts")
        ctx.equal(r["number_of_shots"], len(bs), "tracked number of shots")
        ctx.equal("bitstrings" in r, bool(track.get("bitstrings")), "bitstrings tracked on request")
        if "bitstrings" in r:
            ctx.equal([tuple(b) for b in r["bitstrings"]], [tuple(b) for b in bs], "tracked bitstrings")
    ctx.event("tracked measurements compared")


def fresh(path):
    if os.path.exists(path):
        os.remove(path)


# ---------------------------------------------------------------- circuit steps
@CHECK.scenario(quick=240, thorough=4000, needs=("step circuit.generate_random_ansatz_params", "step circuit.combine_ansatz_params", "step circuit.build_ansatz_circuit"))
def ansatz_steps(ctx):
    from steps import circuit as S
    from zquantum.core.circuits import load_circuit
    from zquantum.core.serialization import load_array, save_array

    inp = Inputs(ctx)
    layers, n = ctx.ri(0, 2), ctx.ri(1, 3)
    name = ctx.pick(["Layered", "Direct"])
    specs = {"module_name": "checks.C26", "function_name": name, "number_of_layers": layers, "problem_size": n}
    ansatz = ansatz_class(name)(layers, n)
    k = ansatz.number_of_params
    which = ctx.ri(0, 2)
    ctx.case((which, layers, n, name, ctx.idx), trivial=which == 2 and layers == 0)
    ctx.sample((which, name, layers, n))
    if which == 0:
        seed = ctx.pick([None, 0, 1, 17, ctx.ri(0, 10**6)])
        kw = {} if seed is None else {"seed": seed}
        lo, hi = -np.pi / 2, np.pi / 2
        if ctx.chance(0.5):
            lo = ctx.pick([0.0, -1.0, 2.5])
            hi = lo + ctx.pick([0.5, 3.0, 0.0])
            kw.update(min_value=lo, max_value=hi)
        if ctx.chance(0.5):
            kw["ansatz_specs"] = inp.specs(specs)
        else:
            k = ctx.ri(0, 6)
            kw["number_of_parameters"] = k
        inp.run(S.generate_random_ansatz_params, outputs=("params.json",), **kw)
        got = load_array("params.json")
        ctx.equal(got.shape, (k,), "number of random parameters")
        ctx.check(bool(np.all((got >= lo) & (got <= hi))), "random parameters within the range", lambda: (got, lo, hi))
        if seed is None:
            if k and hi > lo:
                inp.run(S.generate_random_ansatz_params, outputs=("params.json",), **kw)
                ctx.check(not np.array_equal(load_array("params.json"), got), "unseeded parameters differ", lambda: got)
        else:
            ctx.check(k < 2 or hi == lo or len(set(got.tolist())) > 1, "random parameters vary", lambda: got)
            np.random.seed(seed)
            ctx.check(same_array(got, np.random.uniform(lo, hi, k)), "seeded parameters", lambda: got)
    elif which == 1:
        a, b = ctx.np.normal(size=ctx.ri(0, 4)), ctx.np.normal(size=ctx.ri(0, 4))
        inp.run(S.combine_ansatz_params, inp.array(a), inp.array(b), outputs=("combined-params.json",))
        ctx.check(same_array(load_array("combined-params.json"), np.concatenate([a, b])), "combined parameters", lambda: (a, b))
    else:
        p = ctx.np.uniform(-3, 3, k)
        if name == "Layered" and ctx.chance(0.35):
            inp.run(S.build_ansatz_circuit, inp.specs(specs), outputs=("circuit.json",))
            want = ansatz_class(name)(layers, n)._generate_circuit()
        else:
            how = ctx.ri(0, 1)
            arg = inp.array(p) if how == 0 else inp.obj(p.tolist())
            inp.run(S.build_ansatz_circuit, inp.specs(specs), params=arg, outputs=("circuit.json",))
            want = ansatz_class(name)(layers, n)._generate_circuit(p)
        got = load_circuit("circuit.json")
        ctx.check(circuits_same(got, want), "circuit of the ansatz", lambda: (got, want))


@CHECK.scenario(quick=110, thorough=3000, needs=(
    "step circuit.concatenate_circuits", "step circuit.batch_circuits", "step circuit.evaluate_parametrized_circuit",
    "step circuit.add_ancilla_register_to_circuit", "step circuit.create_random_circuit", "step circuit.build_circuit_layers_and_connectivity"))
def circuit_steps(ctx):
    from steps import circuit as S
    from zquantum.core.circuits import layouts, load_circuit, load_circuitset, save_circuit, save_circuitset

    inp = Inputs(ctx)
    which = ctx.ri(0, 5)
    ctx.case((which, ctx.idx))
    if which == 0:
        cs = [rand_circuit(ctx) for _ in range(ctx.ri(0, 4))]
        if cs and ctx.chance(0.3):
            cs.insert(ctx.ri(0, len(cs)), ctx.pick(cs))
        inp.run(S.concatenate_circuits, inp.any(save_circuitset, cs), outputs=("result-circuit.json",))
        from zquantum.core.circuits import Circuit

        want = Circuit([o for c in cs for o in c.operations], n_qubits=max([c.n_qubits for c in cs], default=0))
        got = load_circuit("result-circuit.json")
        ctx.check(circuits_same(got, want), "concatenated circuit", lambda: (got, want))
    elif which == 1:
        cs = [rand_circuit(ctx) for _ in range(ctx.ri(0, 3))]
        base = [rand_circuit(ctx) for _ in range(ctx.ri(0, 3))]
        if cs and ctx.chance(0.3):  # the same circuit again
            ctx.pick([cs, base]).append(cs[0])
        arg = inp.obj([inp.file(save_circuit, c) if ctx.chance(0.5) else c for c in cs])
        if ctx.chance(0.3):
            base = []
            inp.run(S.batch_circuits, arg, outputs=("circuit-set.json",))
        else:
            inp.run(S.batch_circuits, arg, circuit_set=inp.any(save_circuitset, base), outputs=("circuit-set.json",))
        got = load_circuitset("circuit-set.json")
        want = base + cs
        ctx.check(len(got) == len(want) and all(map(circuits_same, got, want)), "batched circuits", lambda: (got, want))
    elif which == 2:
        names = ctx.pick([["theta_0", "theta_1", "theta_2"], ["a", "b", "c"], ["theta_2", "theta_10", "gamma_1"], ["x"], ["beta_0", "beta_10", "beta_9", "beta_1"]])
        syms = [sympy.Symbol(s) for s in names]
        n, ops = rand_ops(ctx, count=ctx.ri(1, 6), syms=syms, p_sym=0.7)
        c = gen.build_circuit(ops, n)
        free = list(c.free_symbols)
        ctx.equal(len(free), len(set(free)), "each free symbol once")
        p = ctx.np.uniform(-2, 2, len(free))
        arg = inp.array(p) if ctx.chance(0.5) else inp.obj(p)
        inp.run(S.evaluate_parametrized_circuit, inp.any(save_circuit, c), arg, outputs=("evaluated-circuit.json",))
        env = dict(zip(free, p))
        want = gen.build_circuit([(ref.spec_with_params(s, [ref.num(x, env) if isinstance(x, sympy.Basic) else x for x in ref.spec_params(s)]), q) for s, q in ops], n)
        got = load_circuit("evaluated-circuit.json")
        ctx.check(circuits_same(got, want), "evaluated circuit", lambda: (got, want, free, p))
    elif which == 3:
        n, ops = rand_ops(ctx)
        k = ctx.ri(0, 3)
        inp.run(S.add_ancilla_register_to_circuit, k, inp.any(save_circuit, gen.build_circuit(ops, n)), outputs=("extended-circuit.json",))
        got = load_circuit("extended-circuit.json")
        from zquantum.core.circuits import I

        want = gen.build_circuit(ops, n)
        ctx.equal(got.n_qubits, n + k, "register with ancillas")
        m = len(ops)
        from zquantum.core.circuits import Circuit

        ctx.check(circuits_same(Circuit(got.operations[:m], n_qubits=n), want), "circuit before the ancillas", lambda: (got, want))
        ctx.check(all(o.gate.name == "I" and o.qubit_indices[0] >= n for o in got.operations[m:]), "ancillas stay idle", lambda: got)
    elif which == 4:
        n, g, seed = ctx.ri(2, 6), ctx.ri(0, 10), ctx.pick([0, 1, 2, ctx.ri(0, 10**6), None])
        kw = {} if seed is None and ctx.chance(0.5) else {"seed": seed}
        inp.run(S.create_random_circuit, n, g, outputs=("circuit.json",), **kw)
        got = load_circuit("circuit.json")
        ctx.check(got.n_qubits <= n and all(q < n for o in got.operations for q in o.qubit_indices), "qubits of a random circuit", lambda: got)
        if seed is not None:
            inp.run(S.create_random_circuit, n, g, outputs=("circuit.json",), **kw)
            again = load_circuit("circuit.json")
            ctx.check(circuits_same(got, again), "seeded random circuit repeats", lambda: (got, again))
            from zquantum.core.circuits import create_random_circuit

            want = create_random_circuit(n, g, rng=np.random.default_rng(seed))
            ctx.check(circuits_same(got, want), "seeded random circuit", lambda: (got, want))
    else:
        kind = ctx.pick(["nearest-neighbor", "sycamore", "default"])
        x, y = ctx.ri(1, 6), ctx.ri(1, 4)
        a = (x,) if kind == "default" else ((x, None, kind) if kind == "nearest-neighbor" else (x, y, kind))
        inp.run(S.build_circuit_layers_and_connectivity, *a, outputs=("circuit-layers.json", "circuit-connectivity.json"))
        conn, lay = layouts.build_circuit_layers_and_connectivity(*a)
        gl, gc = layouts.load_circuit_layers("circuit-layers.json"), layouts.load_circuit_connectivity("circuit-connectivity.json")
        norm = lambda L: [[tuple(int(i) for i in t) for t in l] for l in L]
        ctx.equal(norm(gl.layers), norm(lay.layers), "layers")
        ctx.equal([tuple(map(int, t)) for t in gc.connectivity], [tuple(map(int, t)) for t in conn.connectivity], "connectivity")


# ---------------------------------------------------------------- operator steps
def interaction(ctx, n):
    from zquantum.core.openfermion import InteractionOperator

    c, h, g = gen.hermitian_tensors(ctx, n)
    return InteractionOperator(c, h, g)


def tensors_same(ctx, got, want, what):
    ctx.close(got.constant, want.constant, what, atol=1e-8)
    ctx.close(got.one_body_tensor, want.one_body_tensor, what, atol=1e-8)
    ctx.close(got.two_body_tensor, want.two_body_tensor, what, atol=1e-8)


@CHECK.scenario(quick=130, thorough=3000, needs=(
    "step operators.get_local_zero_state_operator", "step operators.get_fermion_number_operator", "step operators.get_diagonal_component",
    "step operators.reorder_fermionic_modes", "step operators.get_one_qubit_hydrogen_hamiltonian", "step operators.remove_inactive_orbitals",
    "step transforms.transform_interaction_operator"))
def fermion_steps(ctx):
    from steps import operators as S
    from steps import transforms as T
    from zquantum.core.openfermion import load_interaction_operator, load_qubit_operator, save_interaction_operator

    inp = Inputs(ctx)
    which = ctx.ri(0, 6)
    ctx.case((which, ctx.idx))
    if which == 0:
        n = ctx.ri(1, 7)
        inp.run(S.get_local_zero_state_operator, n, outputs=("qubit-operator.json",))
        got = load_qubit_operator("qubit-operator.json")
        want = {(): 1.0}
        want.update({((q, "Z"),): -1.0 / n for q in range(n)})
        ctx.equal(set(got.terms), set(want), "terms of the zero-state operator")
        for t in want:
            ctx.close(complex(got.terms[t]), want[t], "zero-state operator")
    elif which == 1:
        n = ctx.ri(1, 5)
        k = ctx.pick([None, 0, 1, 2, n])
        a = (n,) if k is None and ctx.chance(0.5) else (n, k)
        inp.run(S.get_fermion_number_operator, *a, outputs=("number-operator.json",))
        got = load_interaction_operator("number-operator.json")
        ctx.close(got.constant, -k if k is not None else 0, "number operator")
        ctx.close(got.one_body_tensor, np.eye(n), "number operator")
        ctx.close(got.two_body_tensor, np.zeros((n,) * 4), "number operator")
    elif which == 2:
        n = ctx.ri(1, 4)
        op = interaction(ctx, n)
        keep = copy.deepcopy(op)
        inp.run(S.get_diagonal_component, inp.any(save_interaction_operator, op), outputs=("diagonal-operator.json", "remainder-operator.json"))
        d, r = load_interaction_operator("diagonal-operator.json"), load_interaction_operator("remainder-operator.json")
        tensors_same(ctx, d + r, keep, "diagonal component and remainder")
        D = ref.tensor_matrix(d.constant, d.one_body_tensor, d.two_body_tensor)
        R = ref.tensor_matrix(r.constant, r.one_body_tensor, r.two_body_tensor)
        H = ref.tensor_matrix(keep.constant, keep.one_body_tensor, keep.two_body_tensor)
        ctx.close(D, np.diag(np.diag(H)), "diagonal component is the diagonal", atol=1e-7)
        ctx.close(np.diag(R), np.zeros(2**n), "remainder has no diagonal", atol=1e-7)
    elif which == 3:
        n = 2 * ctx.ri(1, 2)
        op = interaction(ctx, n)
        order = list(range(n))
        ctx.rng.shuffle(order)
        inp.run(S.reorder_fermionic_modes, inp.file(save_interaction_operator, op), inp.obj(order), outputs=("reordered-operator.json",))
        got = load_interaction_operator("reordered-operator.json")
        p = np.array(order)
        ctx.close(got.one_body_tensor, op.one_body_tensor[np.ix_(p, p)], "reordered modes", atol=1e-8)
        ctx.close(got.two_body_tensor, op.two_body_tensor[np.ix_(p, p, p, p)], "reordered modes", atol=1e-8)
        ctx.close(got.constant, op.constant, "reordered modes")
    elif which == 4:
        op = interaction(ctx, 4)
        keep = copy.deepcopy(op)
        inp.run(S.get_one_qubit_hydrogen_hamiltonian, inp.any(save_interaction_operator, op), outputs=("qubit-operator.json",))
        H = ref.tensor_matrix(keep.constant, keep.one_body_tensor, keep.two_body_tensor)
        vac = np.zeros(16, dtype=complex)
        vac[0] = 1
        up = lambda j: ref.ladder(4, j, 1)
        a, b = up(1) @ up(0) @ vac, up(3) @ up(2) @ vac
        M = np.array([[x.conj() @ H @ y for y in (a, b)] for x in (a, b)])
        got = load_qubit_operator("qubit-operator.json")
        ctx.close(ref.qubit_terms_matrix(got.terms, 1), M, "one-qubit hamiltonian", atol=1e-7)
    elif which == 5:
        from zquantum.core.openfermion import remove_inactive_orbitals

        m = ctx.ri(1, 3)
        op = interaction(ctx, 2 * m)
        core = ctx.ri(0, m - 1)
        act = ctx.ri(1, m - core)
        kw = ctx.pick([{"n_active": act}, {"n_core": core}, {"n_active": act, "n_core": core}, {}])
        inp.run(S.remove_inactive_orbitals, inp.file(save_interaction_operator, op), outputs=("frozen-operator.json",), **kw)
        got = load_interaction_operator("frozen-operator.json")
        want = remove_inactive_orbitals(copy.deepcopy(op), n_active=kw.get("n_active"), n_core=kw.get("n_core", 0))
        tensors_same(ctx, got, want, "frozen operator")
    else:
        n = ctx.ri(1, 4)
        op = interaction(ctx, n)
        keep = copy.deepcopy(op)
        kind = ctx.pick(["Jordan-Wigner", "Bravyi-Kitaev"])
        inp.run(T.transform_interaction_operator, kind, inp.any(save_interaction_operator, op), outputs=("transformed-operator.json", "timing.json"))
        got = load_qubit_operator("transformed-operator.json")
        from zquantum.core.openfermion import bravyi_kitaev, get_fermion_operator

        H = ref.tensor_matrix(keep.constant, keep.one_body_tensor, keep.two_body_tensor)
        if kind == "Jordan-Wigner":
            ctx.close(ref.qubit_terms_matrix(got.terms, n), H, "transformed operator", atol=1e-7)
        else:
            terms_same(ctx, got, bravyi_kitaev(get_fermion_operator(keep)), "transformed operator")
            ctx.close(np.linalg.eigvalsh(ref.qubit_terms_matrix(got.terms, n)), np.linalg.eigvalsh(H), "transformed spectrum", atol=1e-6)
        with open("timing.json") as f:
            t = json.load(f)
        ctx.check(isinstance(t["walltime"], float) and t["walltime"] >= 0, "wall time", lambda: t)
        ctx.raises(Exception, lambda: T.transform_interaction_operator("jordan-wigner", keep), "unknown transformation refused")


def qop(ctx, n, real=True, count=None, letters="XYZ"):
    return gen.qubit_operator(gen.pauli_terms(ctx, n, ctx.ri(0, 5) if count is None else count, real=real, letters=letters))


@CHECK.scenario(quick=110, thorough=3000, needs=(
    "step operators.interpolate_qubit_operators", "step operators.create_one_qubit_operator", "step operators.group_comeasureable_terms_greedy",
    "step operators.concatenate_qubit_operator_lists", "step operators.create_random_qubitop"))
def qubit_steps(ctx):
    from steps import operators as S
    from zquantum.core.openfermion import load_qubit_operator, load_qubit_operator_set, save_qubit_operator, save_qubit_operator_set

    inp = Inputs(ctx)
    which = ctx.ri(0, 4)
    n = ctx.ri(1, 4)
    ctx.case((which, ctx.idx))
    if which == 0:
        a, b = qop(ctx, n, ctx.chance(0.5)), qop(ctx, n, ctx.chance(0.5))
        A, B = ref.qubit_terms_matrix(a.terms, n), ref.qubit_terms_matrix(b.terms, n)
        eps = ctx.pick([None, 0.0, 1.0, 0.25, 1, 0, ctx.rng.random()])
        kw = {} if eps is None else {"epsilon": eps}
        inp.run(S.interpolate_qubit_operators, inp.any(save_qubit_operator, a), inp.any(save_qubit_operator, b), outputs=("qubit-operator.json",), **kw)
        e = 0.5 if eps is None else eps
        got = load_qubit_operator("qubit-operator.json")
        ctx.close(ref.qubit_terms_matrix(got.terms, n), e * B + (1 - e) * A, "interpolated operator")
        bad = ctx.pick([-0.1, 1.0001, 2, -5])
        ctx.raises(ValueError, lambda: S.interpolate_qubit_operators(a, b, bad), "epsilon out of range refused")
    elif which == 1:
        x, y, z, c = [ctx.pick([0.0, 1.0, -1, ctx.rng.uniform(-2, 2)]) for _ in range(4)]
        inp.run(S.create_one_qubit_operator, x, y, z, c, outputs=("qubit_operator.json",))
        got = load_qubit_operator("qubit_operator.json")
        ctx.close(ref.qubit_terms_matrix(got.terms, 1), np.array([[c + z, x - 1j * y], [x + 1j * y, c - z]]), "one-qubit operator")
    elif which == 2:
        from zquantum.core.hamiltonian import group_comeasureable_terms_greedy

        o = qop(ctx, n, count=ctx.ri(0, 8))
        keep = copy.deepcopy(o)
        sort = ctx.pick([None, True, False])
        kw = {} if sort is None else {"sort_terms": sort}
        inp.run(S.group_comeasureable_terms_greedy, inp.any(save_qubit_operator, o), outputs=("grouped-operator.json",), **kw)
        got = load_qubit_operator_set("grouped-operator.json")
        want = group_comeasureable_terms_greedy(copy.deepcopy(keep), sort_terms=bool(sort))
        ctx.equal([list(g.terms) for g in got], [list(g.terms) for g in want], "groups of terms")
        for g in got:
            for t, v in g.terms.items():
                ctx.close(complex(v), complex(keep.terms[t]), "coefficient in a group")
        ctx.equal(sorted(map(repr, (t for g in got for t in g.terms))), sorted(map(repr, keep.terms)), "every term in one group")
    elif which == 3:
        A, B = [qop(ctx, n) for _ in range(ctx.ri(0, 3))], [qop(ctx, n, False) for _ in range(ctx.ri(0, 3))]
        want = copy.deepcopy(A) + copy.deepcopy(B)
        inp.run(S.concatenate_qubit_operator_lists, inp.any(save_qubit_operator_set, A), inp.any(save_qubit_operator_set, B), outputs=("concatenated-qubit-operators.json",))
        got = load_qubit_operator_set("concatenated-qubit-operators.json")
        ctx.equal(len(got), len(want), "number of operators")
        for g, w in zip(got, want):
            terms_same(ctx, g, w, "concatenated operators")
    else:
        k = ctx.ri(1, 5)
        inp.run(S.create_random_qubitop, n, k, outputs=("qubit-operator.json",))
        got = load_qubit_operator("qubit-operator.json")
        ctx.check(all(0 <= q < n for t in got.terms for q, _ in t) and 0 < len(got.terms) <= k, "random operator", lambda: got)


# ---------------------------------------------------------------- evaluation
@CHECK.scenario(quick=60, thorough=1500, needs=(
    "step evaluation.get_ground_state_rdm_from_qubit_operator", "step evaluation.jw_get_ground_state_at_particle_number",
    "step evaluation.evaluate_qubit_operator_list", "step measure.grouped_hamiltonian_analysis", "step measure.expectation_values_from_rdms",
    "step measure.expectation_values_from_rdms_for_qubitoperator_list"))
def evaluation_steps(ctx):
    from steps import evaluation as S
    from steps import measure as M
    from zquantum.core.measurement import ExpectationValues, load_expectation_values, load_wavefunction, save_expectation_values
    from zquantum.core.openfermion import (
        InteractionOperator, jordan_wigner, load_interaction_rdm, save_interaction_rdm, save_qubit_operator, save_qubit_operator_set)
    from zquantum.core.utils import load_nmeas_estimate, load_value_estimate

    inp = Inputs(ctx)
    which = ctx.ri(0, 4)
    ctx.case((which, ctx.idx))
    n = ctx.ri(2, 4)
    if which <= 1:
        c, h, g = gen.hermitian_tensors(ctx, n)
        H = ref.tensor_matrix(c, h, g)
        op = jordan_wigner(InteractionOperator(c, h, g))
        k = ctx.ri(0, n)
        idx = [b for b in range(2**n) if bin(b).count("1") == k]
        w, v = np.linalg.eigh(H[np.ix_(idx, idx)])
        if max((q for t in op.terms for q, _ in t), default=-1) != n - 1:
            return
        if which == 0:
            inp.run(S.jw_get_ground_state_at_particle_number, k, inp.any(save_qubit_operator, op), outputs=("ground-state.json", "value-estimate.json"))
            e = load_value_estimate("value-estimate.json")
            psi = np.asarray(load_wavefunction("ground-state.json").amplitudes, dtype=complex)
            ctx.close(float(e), w[0], "ground energy", atol=1e-6)
            ctx.close(H @ psi, w[0] * psi, "ground state", atol=1e-5)
            ctx.close(np.linalg.norm(psi), 1, "ground state normalised", atol=1e-7)
            ctx.check(all(abs(psi[b]) < 1e-7 for b in range(2**n) if b not in idx), "ground state within the sector")
        else:
            if len(w) > 1 and w[1] - w[0] < 1e-3:
                return
            inp.run(S.get_ground_state_rdm_from_qubit_operator, inp.any(save_qubit_operator, op), k, outputs=("rdms.json",))
            psi = np.zeros(2**n, dtype=complex)
            psi[idx] = v[:, 0]
            rdm = load_interaction_rdm("rdms.json")
            up, dn = [ref.ladder(n, j, 1) for j in range(n)], [ref.ladder(n, j, 0) for j in range(n)]
            one = np.array([[psi.conj() @ up[p] @ dn[q] @ psi for q in range(n)] for p in range(n)])
            ctx.close(rdm.one_body_tensor, one, "one-body density matrix", atol=1e-5)
            two = np.zeros((n,) * 4, dtype=complex)
            for p in range(n):
                for q in range(n):
                    for r in range(n):
                        for s in range(n):
                            two[p, q, r, s] = psi.conj() @ (up[p] @ (up[q] @ (dn[r] @ (dn[s] @ psi))))
            ctx.close(rdm.two_body_tensor, two, "two-body density matrix", atol=1e-5)
    elif which == 2:
        ops = [qop(ctx, n, count=ctx.ri(1, 4)) for _ in range(ctx.ri(1, 3))]
        m = sum(len(o.terms) for o in ops)
        vals = ctx.np.uniform(-1, 1, m)
        cov = [ctx.np.uniform(0, 0.1, (len(o.terms), len(o.terms))) for o in ops] if ctx.chance(0.5) else None
        if ctx.chance(0.5):
            keep = copy.deepcopy(ops)
            ev = ExpectationValues(vals, None, None)
            inp.run(S.evaluate_qubit_operator_list, inp.any(save_qubit_operator_set, ops), inp.any(save_expectation_values, ev), outputs=("value-estimate.json",))
            coeffs = [complex(x) for o in keep for x in o.terms.values()]
            got = load_value_estimate("value-estimate.json")
            ctx.close(float(got), sum((a * b).real for a, b in zip(coeffs, vals)), "value of the operators", atol=1e-8)
        else:
            from zquantum.core.hamiltonian import estimate_nmeas_for_frames

            ev = ExpectationValues(vals, None, None) if ctx.chance(0.6) else None
            kw = {} if ev is None else {"expectation_values": inp.file(save_expectation_values, ev)}
            inp.run(M.grouped_hamiltonian_analysis, inp.file(save_qubit_operator_set, ops), outputs=("hamiltonian_analysis.json",), **kw)
            K, nt, fm = load_nmeas_estimate("hamiltonian_analysis.json")
            wK, wnt, wfm = estimate_nmeas_for_frames(copy.deepcopy(ops), copy.deepcopy(ev))
            ctx.close(K, wK, "measurement estimate")
            ctx.equal(nt, wnt, "number of terms")
            ctx.close(np.asarray(fm, dtype=float), np.asarray(wfm, dtype=float), "measurements per group")
    else:
        from zquantum.core.openfermion import InteractionRDM

        psi = ref.random_state(ctx.np, n)
        idx_k = ctx.pick([bin(b).count("1") for b, a in enumerate(psi) if a])
        psi = np.array([a if bin(b).count("1") == idx_k else 0 for b, a in enumerate(psi)])
        psi = psi / np.linalg.norm(psi)
        up, dn = [ref.ladder(n, j, 1) for j in range(n)], [ref.ladder(n, j, 0) for j in range(n)]
        one = np.array([[psi.conj() @ up[p] @ (dn[q] @ psi) for q in range(n)] for p in range(n)])
        two = np.zeros((n,) * 4, dtype=complex)
        for p in range(n):
            for q in range(n):
                for r in range(n):
                    for s in range(n):
                        two[p, q, r, s] = psi.conj() @ (up[p] @ (up[q] @ (dn[r] @ (dn[s] @ psi))))
        rdm = InteractionRDM(one, two)
        # operators a density matrix can speak about: transforms of one- and two-body operators
        ops = []
        for _ in range(ctx.ri(1, 2)):
            c, h, g = gen.hermitian_tensors(ctx, n, sparse=True)
            o = jordan_wigner(InteractionOperator(c, h, g))
            if o.terms and all(abs(v) > 1e-6 for v in o.terms.values()):
                ops.append(o)
        if not ops:
            ctx.event("no operator drawn")
            return
        sort = ctx.pick([None, True, False])
        kw = {} if sort is None else {"sort_terms": sort}
        from zquantum.core.hamiltonian import get_expectation_values_from_rdms, get_expectation_values_from_rdms_for_qubitoperator_list

        try:
            lib = get_expectation_values_from_rdms_for_qubitoperator_list(copy.deepcopy(rdm), copy.deepcopy(ops), sort_terms=bool(sort))
        except Exception as e:
            ctx.event("library refuses: " + type(e).__name__)
            return
        if which == 3:
            lib = get_expectation_values_from_rdms(copy.deepcopy(rdm), copy.deepcopy(ops[0]), sort_terms=bool(sort))
            inp.run(M.expectation_values_from_rdms, inp.file(save_interaction_rdm, rdm), inp.file(save_qubit_operator, ops[0]), outputs=("expectation_values.json",), **kw)
        else:
            inp.run(M.expectation_values_from_rdms_for_qubitoperator_list, inp.file(save_interaction_rdm, rdm), inp.file(save_qubit_operator_set, ops), outputs=("expectation_values.json",), **kw)
        got = load_expectation_values("expectation_values.json")
        ctx.close(got.values, lib.values, "expectation values", atol=1e-7)


# ---------------------------------------------------------------- measurement
@CHECK.scenario(quick=110, thorough=3000, needs=(
    "step measure.run_circuit_and_measure", "step measure.run_circuitset_and_measure", "step measure.get_bitstring_distribution",
    "step measure.get_summed_expectation_values", "step evaluation.get_expectation_values_for_qubit_operator", "tracked measurements compared",
    "noise model and connectivity handed over"))
def measure_steps(ctx):
    from steps import evaluation as E
    from steps import measure as S
    from zquantum.core.circuits import save_circuit, save_circuitset, to_dict
    from zquantum.core.circuits.layouts import CircuitConnectivity, save_circuit_connectivity
    from zquantum.core.distribution import load_measurement_outcome_distribution
    from zquantum.core.measurement import Measurements, load_expectation_values
    from zquantum.core.openfermion import convert_qubitop_to_dict, save_qubit_operator
    from zquantum.core.symbolic_simulator import SymbolicSimulator
    from zquantum.core.utils import load_list, load_value_estimate, save_noise_model

    inp = Inputs(ctx)
    which = ctx.ri(0, 4)
    n = ctx.ri(1, 3)
    seed = ctx.ri(0, 10**6)
    shots = ctx.pick([1, 2, 10, 57])
    track = rand_track(ctx)
    fresh("raw_data.json"), fresh("tracked.json")
    own = ctx.chance(0.4)
    specs = backend_specs(ctx, seed, track, own)
    kw = {}
    if own and which <= 2:
        if ctx.chance(0.6):
            data = {"p": ctx.rng.random(), "q": [1, 2]}
            kw["noise_model"] = inp.file(lambda d, p: save_noise_model(d, "checks.C26", "noise", p), data)
        if ctx.chance(0.6):
            conn = CircuitConnectivity([(i, i + 1) for i in range(ctx.ri(1, 4))])
            kw["device_connectivity"] = inp.file(save_circuit_connectivity, conn)
    ctx.case((which, ctx.idx))
    ctx.sample((which, n, shots, track, sorted(kw)))
    del CALLS[:]

    def handed():
        if not own or which > 2:
            return
        ctx.equal(len(CALLS), 1, "one backend constructed")
        nm, dc = CALLS[0]
        ctx.equal(nm, noise(data) if "noise_model" in kw else None, "noise model of the backend")
        if "device_connectivity" in kw:
            ctx.equal([tuple(x) for x in dc.connectivity], [tuple(x) for x in conn.connectivity], "connectivity of the backend")
        else:
            ctx.check(dc is None, "no connectivity unless given")
        if kw:
            ctx.event("noise model and connectivity handed over")

    twin = SymbolicSimulator(seed=seed)
    if which == 0:
        c = rand_circuit(ctx, n)
        arg = inp.obj(to_dict(c)) if ctx.chance(0.5) else inp.file(save_circuit, c)
        inp.run(S.run_circuit_and_measure, inp.specs(specs), arg, n_samples=shots, outputs=("measurements.json",), **kw)
        got = Measurements.load_from_file("measurements.json").bitstrings
        want = twin.run_circuit_and_measure(c, shots).bitstrings
        ctx.equal([tuple(b) for b in got], [tuple(b) for b in want], "measurements")
        handed()
        check_tracking(ctx, track, [c], [want])
    elif which == 1:
        cs = [rand_circuit(ctx, n) for _ in range(ctx.ri(1, 3))]
        if ctx.chance(0.5):  # the same circuit again is measured again
            cs.insert(ctx.ri(0, len(cs)), ctx.pick(cs))
        inp.run(S.run_circuitset_and_measure, inp.specs(specs), inp.file(save_circuitset, cs), n_samples=shots, outputs=("measurements-set.json",), **kw)
        got = load_list("measurements-set.json")
        want = [m.bitstrings for m in twin.run_circuitset_and_measure(cs, [shots] * len(cs))]
        ctx.equal([[tuple(b) for b in m] for m in got], [[tuple(b) for b in m] for m in want], "measurements of the set")
        handed()
        check_tracking(ctx, track, cs, want)
    elif which == 2:
        n, ops = rand_ops(ctx, n, gates=None)
        c = gen.build_circuit(ops, n)
        a = {}
        exact = ctx.chance(0.4)
        if not exact:
            a = {"n_samples": shots}
        inp.run(S.get_bitstring_distribution, inp.specs(specs), inp.file(save_circuit, c), outputs=("bitstring-distribution.json",), **kw, **a)
        got = load_measurement_outcome_distribution("bitstring-distribution.json").distribution_dict
        if exact:
            p = np.abs(ref.circuit_unitary(ops, n)[:, 0]) ** 2
            for b in range(2**n):
                ctx.close(got.get(ref.bits_of(b, n), 0.0), p[b], "exact distribution", atol=1e-6)
        else:
            want = SymbolicSimulator(seed=seed).get_measurement_outcome_distribution(c, shots).distribution_dict
            ctx.equal(set(got), set(want), "outcomes of the distribution")
            for b in want:
                ctx.close(got[b], want[b], "sampled distribution")
        ctx.close(sum(got.values()), 1, "normalised distribution")
        handed()
        if track:
            with open(track.get("file") or "raw_data.json") as f:
                ctx.equal(len(json.load(f)["raw-data"]), 1, "one tracked record per distribution")
    elif which == 3:
        bits = [tuple(ctx.ri(0, 1) for _ in range(n)) for _ in range(ctx.ri(2, 12))]
        from zquantum.core.measurement import Measurements as Ms

        ising = gen.pauli_terms(ctx, n, ctx.ri(1, 4), letters="Z")
        bessel = ctx.pick([None, True, False])
        a = {} if bessel is None else {"use_bessel_correction": bessel}
        m = Ms(list(bits))
        marg = inp.obj(m) if ctx.chance(0.5) else inp.file(lambda o, p: o.save(p), m)
        op = gen.ising_operator(ising)
        if ctx.chance(0.5):
            oarg = inp.file(save_qubit_operator, gen.qubit_operator(ising))
        else:
            oarg = inp.obj(op)
        inp.run(S.get_summed_expectation_values, oarg, marg, outputs=("value-estimate.json",), **a)
        got = load_value_estimate("value-estimate.json")
        N = len(bits)
        vals = [c * np.array([(-1) ** sum(b[q] for q, _ in t) for b in bits], dtype=float) for t, c in op.terms.items()]
        ctx.close(float(got), sum(v.mean() for v in vals), "summed expectation value", atol=1e-9)
        # covariances of the estimators: all pairs of terms
        means = [v.mean() for v in vals]
        den = N - 1 if bessel in (None, True) else N
        total = 0.0
        for v, mv in zip(vals, means):
            for w, mw in zip(vals, means):
                total += (np.mean(v * w) - mv * mw) / den
        prec = np.sqrt(max(total, 0.0))
        ctx.close(got.precision, prec, "precision of the summed value", atol=1e-7)
    else:
        n, ops = rand_ops(ctx, n)
        c = gen.build_circuit(ops, n)
        terms = gen.pauli_terms(ctx, n, ctx.ri(1, 4), letters="Z")
        op = gen.qubit_operator(terms)
        if list(op.terms) == [()]:
            return
        k = ctx.ri(0, 2)
        carg = inp.obj(to_dict(c)) if k == 0 else (inp.obj(c) if k == 1 else inp.file(save_circuit, c))
        k = ctx.ri(0, 2)
        oarg = inp.obj(convert_qubitop_to_dict(op)) if k == 0 else (inp.obj(op) if k == 1 else inp.file(save_qubit_operator, op))
        specs = backend_specs(ctx, seed, None if own else track, own)
        a = {}
        if own:
            if ctx.chance(0.5):
                specs["n_samples"] = shots
            else:
                specs["n_samples"] = shots + 3
                a = {"n_samples": shots}
        else:
            a = {"n_samples": shots}
        inp.run(E.get_expectation_values_for_qubit_operator, inp.specs(specs), carg, oarg, outputs=("expectation-values.json",), **a)
        got = load_expectation_values("expectation-values.json")
        bits = twin.run_circuitset_and_measure([c], [shots])[0].bitstrings
        want = [complex(v).real * np.mean([(-1) ** sum(b[q] for q, _ in t) for b in bits]) for t, v in op.terms.items()]
        ctx.close(got.values, want, "estimated expectation values")
        if not own:
            check_tracking(ctx, track, [c], [bits])


# ---------------------------------------------------------------- cost functions and optimisation
ESTIMATION = "zquantum.core.estimation"


def estimation_specs(ctx, allow_exact=True):
    """(method specs, preprocessor specs list, exact?)"""
    exact = allow_exact and ctx.chance(0.5)
    if exact:
        method = {"module_name": ESTIMATION, "function_name": "calculate_exact_expectation_values"}
        pre = None if ctx.chance(0.7) else [{"module_name": ESTIMATION, "function_name": "group_individually"}]
    else:
        method = None if ctx.chance(0.5) else {"module_name": ESTIMATION, "function_name": "estimate_expectation_values_by_averaging"}
        pre = [{"module_name": ESTIMATION, "function_name": "perform_context_selection"},
               {"module_name": ESTIMATION, "function_name": "allocate_shots_uniformly", "number_of_shots": ctx.pick([1, 20, 40])}]
        pre = [{"module_name": ESTIMATION, "function_name": "group_greedily"}] + pre
    return method, pre, exact


def direct_estimation(method, pre, prior=None):
    from zquantum.core import estimation
    from zquantum.core.measurement import ExpectationValues

    m = getattr(estimation, method["function_name"] if method else "estimate_expectation_values_by_averaging")
    ps = []
    for p in pre or []:
        f = getattr(estimation, p["function_name"])
        extra = {k: v for k, v in p.items() if k not in ("module_name", "function_name")}
        if prior is not None and p["function_name"] == "allocate_shots_proportionally":
            extra["prior_expectation_values"] = ExpectationValues(prior.copy())
        ps.append((lambda f, extra: lambda tasks: f(tasks, **extra))(f, extra))
    return m, ps


@CHECK.scenario(quick=120, thorough=2000, needs=(
    "step measure.evaluate_ansatz_based_cost_function", "step optimize.optimize_parametrized_circuit_for_ground_state_of_operator",
    "step optimize.optimize_ansatz_based_cost_function"))
def cost_steps(ctx):
    from steps import measure as M
    from steps import optimize as S
    from zquantum.core.circuits import save_circuit
    from zquantum.core.cost_function import AnsatzBasedCostFunction, get_ground_state_cost_function
    from zquantum.core.measurement import ExpectationValues, save_expectation_values
    from zquantum.core.openfermion import QubitOperator, save_qubit_operator
    from zquantum.core.serialization import load_array, load_optimization_results
    from zquantum.core.symbolic_simulator import SymbolicSimulator
    from zquantum.core.utils import load_value_estimate, save_list

    inp = Inputs(ctx)
    which = ctx.ri(0, 2)
    seed = ctx.ri(0, 10**6)
    n, layers = ctx.ri(1, 2), 1
    terms = gen.pauli_terms(ctx, n, ctx.ri(1, 3), letters="XYZ" if ctx.chance(0.6) else "Z")
    terms[((n - 1, "Z"),)] = ctx.rng.uniform(0.2, 1)
    op = gen.qubit_operator(terms)
    method, pre, exact = estimation_specs(ctx)
    m, ps = direct_estimation(method, pre)
    track = rand_track(ctx) if not exact else None
    fresh("raw_data.json"), fresh("tracked.json")
    bspecs = inp.specs(backend_specs(ctx, seed, track))
    twin = SymbolicSimulator(seed=seed)
    name = ctx.pick(["Layered", "QAOAFarhiAnsatz"] + (["WarmStartQAOAAnsatz"] if which == 2 else []))
    if which == 1:
        name = "Layered"
    aspecs = {"module_name": "checks.C26", "function_name": name, "number_of_layers": layers}
    kw = {}
    thetas = None
    if name in ("Layered", "Direct"):
        aspecs["problem_size"] = n
        ansatz = ansatz_class(name)(layers, n)
    elif name == "QAOAFarhiAnsatz":
        ansatz = ansatz_class(name)(layers, copy.deepcopy(op))
    else:
        thetas = ctx.np.uniform(0, 3, n).tolist()
        ansatz = ansatz_class(name)(layers, copy.deepcopy(op), np.array(thetas))
        kw["thetas"] = inp.file(save_list, thetas)
    k = ansatz.number_of_params
    start = ctx.np.uniform(-2, 2, k)
    precision = ctx.pick([None, None, 0.3])
    pseed = ctx.ri(0, 1000) if precision is not None else None
    fixed = ctx.np.uniform(-1, 1, ctx.ri(1, k)) if which != 0 and ctx.chance(0.3) else None
    ctx.case((which, name, exact, fixed is None, ctx.idx))
    ctx.sample((which, name, exact, str(track)))
    oarg = inp.any(save_qubit_operator, op)
    if method is not None:
        kw["estimation_method_specs"] = inp.specs(method)
    if pre is not None:
        kw["estimation_preprocessors_specs"] = inp.obj([json.dumps(p) if ctx.chance(0.5) else dict(p) for p in pre])
    if which == 0 and pre is not None:
        prior = None
        if not exact and ctx.chance(0.5):
            pre = [dict(p) for p in pre[:-1]] + [{"module_name": ESTIMATION, "function_name": "allocate_shots_proportionally", "total_n_shots": ctx.ri(20, 90)}]
            if ctx.chance(0.3):
                pre[0] = {"module_name": ESTIMATION, "function_name": "group_individually"}
            if ctx.chance(0.7):
                prior = ctx.np.uniform(-0.9, 0.9, len(op.terms))
        m, ps = direct_estimation(method, pre, prior)
        if not exact and ctx.chance(0.4):
            key = [k for k in pre[-1] if k not in ("module_name", "function_name")][0]
            full = pre[-1]
            pre = pre[:-1] + [{k: v for k, v in full.items() if k != key}]
            kw["estimation_tasks_transformations_kwargs"] = inp.obj({key: full[key]})
        if prior is not None:
            kw["prior_expectation_values"] = inp.any(save_expectation_values, ExpectationValues(prior.copy()))
        kw["estimation_preprocessors_specs"] = inp.obj([json.dumps(p) if ctx.chance(0.5) else dict(p) for p in pre])
    common = dict(estimation_method=m, estimation_preprocessors=ps)
    if which == 0:
        cspecs = {"module_name": "zquantum.core.cost_function", "function_name": "AnsatzBasedCostFunction"}
        if precision is not None:
            cspecs.update(parameter_precision=precision, parameter_precision_seed=pseed)
        inp.run(M.evaluate_ansatz_based_cost_function, inp.specs(aspecs), bspecs, inp.specs(cspecs), inp.array(start), oarg, outputs=("value_estimate.json",), **kw)
        got = load_value_estimate("value_estimate.json")
        cost = AnsatzBasedCostFunction(copy.deepcopy(op), ansatz, twin, parameter_precision=precision, parameter_precision_seed=pseed, **common)
        want = cost(start.copy())
        ctx.close(float(got), float(want), "value of the cost function", atol=1e-7)
        if exact and precision is None:
            state = None
            c = ansatz.get_executable_circuit(start)
            nq = max(n, c.n_qubits)
            u = np.eye(2**nq, dtype=complex)
            for o in c.operations:
                u = ref.apply_matrix(np.array(o.gate.matrix, dtype=complex), o.qubit_indices, u, nq)
            psi = u[:, 0]
            ctx.close(float(got), (psi.conj() @ ref.qubit_terms_matrix(op.terms, nq) @ psi).real, "exact value of the cost function", atol=1e-6)
        if getattr(want, "precision", None) is not None:
            ctx.close(got.precision, want.precision, "precision of the cost function", atol=1e-7)
        if track:
            with open(track.get("file") or "raw_data.json") as f:
                ctx.check(len(json.load(f)["raw-data"]) >= 1, "tracked measurements of the cost function")
        return
    history = ctx.pick([None, True, False])
    if fixed is not None:
        start = ctx.np.uniform(-2, 2, k - len(fixed))
        kw["fixed_parameters"] = inp.array(fixed) if ctx.chance(0.5) else inp.obj(fixed.copy())
    if precision is not None:
        kw.update(parameter_precision=precision, parameter_precision_seed=pseed)
    if history is not None:
        kw["keep_history"] = history
    j = ctx.ri(0, 2)
    kw["initial_parameters"] = inp.array(start) if j == 0 else inp.obj(start.copy() if j == 1 else start.tolist())
    ospecs = {"module_name": "checks.C26", "function_name": "ProbeOptimizer", "step": 0.5}
    common.update(fixed_parameters=fixed, parameter_precision=precision, parameter_precision_seed=pseed)
    outs = ("optimization-results.json", "optimized-parameters.json")
    if which == 1:
        c = ansatz.parametrized_circuit
        inp.run(S.optimize_parametrized_circuit_for_ground_state_of_operator, inp.specs(ospecs), oarg, inp.any(save_circuit, c), bspecs, outputs=outs, **kw)
        cost = get_ground_state_cost_function(copy.deepcopy(op), c, twin, **common)
        keep = history is not False
    else:
        inp.run(S.optimize_ansatz_based_cost_function, inp.specs(ospecs), oarg, inp.specs(aspecs), bspecs, outputs=outs, **kw)
        cost = AnsatzBasedCostFunction(copy.deepcopy(op), ansatz, twin, **common)
        keep = bool(history)
    want = Descent.make(0.5, 1).minimize(cost, start.copy(), keep)
    got = load_optimization_results("optimization-results.json")
    ctx.close(got.opt_params, want.opt_params, "optimised parameters", atol=1e-9)
    ctx.close(load_array("optimized-parameters.json"), want.opt_params, "optimised parameters", atol=1e-9)
    ctx.close(float(got.opt_value), float(want.opt_value), "optimised value", atol=1e-7)
    ctx.equal(got.nfev, want.nfev, "number of evaluations")
    ctx.equal(len(got.history), len(want.history), "length of the history")
    for a, b in zip(got.history, want.history):
        ctx.close(float(a.value), float(b.value), "history", atol=1e-7)
        ctx.close(a.params, b.params, "history", atol=1e-9)
    if track:
        with open(track.get("file") or "raw_data.json") as f:
            ctx.check(len(json.load(f)["raw-data"]) >= got.nfev * (1 if any(t for t in op.terms) else 0), "every evaluation tracked")


# ---------------------------------------------------------------- graphs and lists
@CHECK.scenario(quick=90, thorough=2500, needs=(
    "step graph.generate_random_graph_erdos_renyi", "step graph.generate_random_regular_graph", "step graph.generate_complete_graph",
    "step graph.generate_caveman_graph", "step graph.generate_ladder_graph", "step graph.generate_barbell_graph",
    "step graph.generate_graph_from_specs", "step utils.generate_random_list_of_integers"))
def graph_steps(ctx):
    from steps import graph as S
    from steps import utils as U
    from zquantum.core import graph as G
    from zquantum.core.utils import load_list

    inp = Inputs(ctx)
    which = ctx.ri(0, 7)
    seed = ctx.ri(0, 10**6)
    ctx.case((which, ctx.idx))
    if which == 7:
        kw = {"low": ctx.ri(-5, 5)}
        if ctx.chance(0.8):
            kw["high"] = kw["low"] + ctx.ri(1, 9)
        else:
            kw["low"] = ctx.ri(1, 9)
        kw["size"] = ctx.ri(0, 8)
        if ctx.chance(0.3):
            kw["endpoint"] = True
        s = ctx.pick([None, seed, 0])
        a = {} if s is None else {"seed": s}
        inp.run(U.generate_random_list_of_integers, outputs=("integers.json",), **a, **kw)
        got = load_list("integers.json")
        lo, hi = (kw["low"], kw["high"]) if "high" in kw else (0, kw["low"])
        hi = hi if kw.get("endpoint") else hi - 1
        ctx.check(len(got) == kw["size"] and all(isinstance(i, int) and lo <= i <= hi for i in got), "random integers", lambda: (got, kw))
        if s is not None:
            ctx.equal(got, np.random.default_rng(s).integers(**kw).tolist(), "seeded random integers")
        return
    k = ctx.ri(0, 2)
    sampler, make = [
        (None, lambda: G.constant_sampler(1)),
        ({"module_name": "zquantum.core.graph", "function_name": "constant_sampler", "value": 2.5}, lambda: G.constant_sampler(2.5)),
        ({"module_name": "zquantum.core.graph", "function_name": "uniform_sampler", "min_value": -1, "max_value": 3}, lambda: G.uniform_sampler(-1, 3)),
    ][k]
    kw = {"seed": seed}
    if sampler is not None:
        kw["sampler_specs"] = inp.specs(sampler)
    n = ctx.ri(2, 7)
    if which == 0:
        p = ctx.pick([0.0, 0.3, 0.7, 1.0])
        f, a, d = S.generate_random_graph_erdos_renyi, (n, p), lambda: G.generate_random_graph_erdos_renyi(n, p, make(), seed)
    elif which == 1:
        deg = ctx.ri(0, n - 1)
        if n * deg % 2:
            deg -= 1
        f, a, d = S.generate_random_regular_graph, (n, deg), lambda: G.generate_random_regular_graph(n, deg, make(), seed)
    elif which == 2:
        f, a, d = S.generate_complete_graph, (n,), lambda: G.generate_random_graph_erdos_renyi(n, 1.0, make(), seed)
    elif which == 3:
        q, s = ctx.ri(1, 3), ctx.ri(2, 4)
        f, a, d = S.generate_caveman_graph, (q, s), lambda: G.generate_caveman_graph(q, s, make(), seed)
    elif which == 4:
        f, a, d = S.generate_ladder_graph, (n,), lambda: G.generate_ladder_graph(n, make(), seed)
    elif which == 5:
        f, a, d = S.generate_barbell_graph, (n,), lambda: G.generate_barbell_graph(n, make(), seed)
    else:
        spec = {"type_graph": ctx.pick(["erdos_renyi", "complete"]), "num_nodes": n, "seed": seed}
        if spec["type_graph"] == "erdos_renyi":
            spec["probability"] = 0.5
        f, a, d, kw = S.generate_graph_from_specs, (json.dumps(spec),), lambda: G.generate_graph_from_specs(dict(spec)), {}
    random.seed(seed)
    inp.run(f, *a, outputs=("graph.json",), **kw)
    got = G.load_graph("graph.json")
    random.seed(seed)
    want = d()
    key = lambda g: sorted((min(u, v), max(u, v), data.get("weight")) for u, v, data in g.edges(data=True))
    ctx.equal(sorted(got.nodes), sorted(want.nodes), "nodes of the graph")
    ctx.equal(key(got), key(want), "edges and weights of the graph")


# ---------------------------------------------------------------- refused requests
@CHECK.scenario(quick=60, thorough=1000, needs=("refused step", "refused step left the files alone"))
def refusals(ctx):
    from steps import circuit as C
    from steps import graph as G
    from steps import measure as M
    from steps import operators as O
    from steps import transforms as T
    from zquantum.core.openfermion import QubitOperator

    which = ctx.ri(0, 6)
    ctx.case((which, ctx.idx))
    aspecs = {"module_name": "checks.C26", "function_name": "Layered", "number_of_layers": 1, "problem_size": 2}
    text = lambda d: json.dumps(d) if ctx.chance(0.5) else dict(d)
    name, exc = None, Exception
    if which == 0:
        bad = ctx.pick([[], 3, 2.5, [{"module_name": "zquantum.core.graph", "function_name": "constant_sampler", "value": 1}], True, ("a",)])
        exc = ValueError
        f = ctx.pick([
            lambda: G.generate_random_graph_erdos_renyi(4, 0.5, bad), lambda: G.generate_random_regular_graph(4, 2, bad),
            lambda: G.generate_complete_graph(3, bad), lambda: G.generate_caveman_graph(2, 2, bad),
            lambda: G.generate_ladder_graph(2, bad), lambda: G.generate_barbell_graph(3, sampler_specs=bad)])
        out = "graph.json"
    elif which == 1:
        key = ctx.pick(["estimator-specs", "estimation-tasks-transformations-specs"])
        cspecs = {"module_name": "zquantum.core.cost_function", "function_name": "AnsatzBasedCostFunction",
                  key: ctx.pick([[], {}, None, {"module_name": ESTIMATION, "function_name": "group_individually"}])}
        exc = RuntimeError
        params = Inputs(ctx).array([0.1] * 4)
        f = lambda: M.evaluate_ansatz_based_cost_function(
            text(aspecs), text(backend_specs(ctx, 3)), text(cspecs), params, QubitOperator("Z0"))
        out = "value_estimate.json"
    elif which == 2:
        both = dict(ansatz_specs=text(aspecs), number_of_parameters=ctx.pick([1, 4, 0]))
        exc = (AssertionError, ValueError)
        f = lambda: C.generate_random_ansatz_params(**(both if ctx.chance(0.5) else {}), seed=1)
        out = "params.json"
    elif which == 3:
        direct = {**aspecs, "function_name": "Direct"}
        f = lambda: C.build_ansatz_circuit(text(direct))
        out = "circuit.json"
    elif which == 4:
        eps = ctx.pick([-1e-9, 1 + 1e-9, -3, 2.0, float("inf"), -float("inf")])
        exc = ValueError
        f = lambda: O.interpolate_qubit_operators(QubitOperator("Z0"), QubitOperator("X0"), eps)
        out = "qubit-operator.json"
    elif which == 5:
        from zquantum.core.openfermion import InteractionOperator

        t = ctx.pick(["jordan-wigner", "JORDAN_WIGNER", "", "BK", "parity", "bravyi_kitaev", None])
        if t == "bravyi_kitaev":
            t = "Bravyi-kitaev"
        i = InteractionOperator(0.0, np.eye(2), np.zeros((2,) * 4))
        exc = RuntimeError
        f = lambda: T.transform_interaction_operator(t, i)
        out = "transformed-operator.json"
    else:
        from zquantum.core.circuits import save_circuit

        p = ctx.path()
        save_circuit(rand_circuit(ctx, 2, 2), p)
        f = lambda: M.run_circuit_and_measure(text(backend_specs(ctx, 3)), p, ctx.pick([0, -1, -7]))
        out = "measurements.json"
    with open(out, "w") as h:
        h.write("what was there before")
    ctx.raises(exc, f, "refused step", detail=lambda: which)
    with open(out) as h:
        ctx.equal(h.read(), "what was there before", "refused step left the files alone", lambda: which)
