"""Backends: one result per circuit, shots, counters, batches; tracking wrapper."""
import json

import numpy as np

from vlib import gen, ref
from vlib.harness import Check

CHECK = Check(
    "C10",
    "a case is one sequence of backend calls (circuit lists, shots, batch sizes, distribution requests); sequences without any "
    "circuit are trivial",
    ["batching and non-batching devices are stand-ins built on the library's abstract class; simulators are the library's"],
)


def twin_defs(ctx):
    import sympy

    mats = [sympy.Matrix([[0, 1], [1, 0]]), sympy.eye(2), sympy.Matrix([[0, -sympy.I], [sympy.I, 0]])]
    return [ref.CustomDef("twin", 1, (), m) for m in mats]


def circuits(ctx, k, nmax=4, allow_empty=False, pool=None):
    from zquantum.core.circuits import Circuit

    out, ols = [], []
    twins = twin_defs(ctx)
    for _ in range(k):
        if ctx.chance(0.15):
            # One of two circuits that print alike but hold different custom gates.
            ol, n = [(("c", ctx.pick(twins), ()), (0,))], 1
            out.append(gen.build_circuit(ol, n))
            ols.append((ol, n))
            continue
        if pool and ctx.chance(0.35):
            # A circuit which an earlier call of this history ran: the same object, or another that is equal.
            old, ol, n = ctx.pick(pool)
            ctx.event("run again later")
            out.append(old if ctx.chance(0.6) else gen.build_circuit(ol, n))
            ols.append((ol, n))
            continue
        if out and ctx.chance(0.2):
            # The same circuit again: the same object, or another that is equal.
            j = ctx.ri(0, len(out) - 1) if ctx.chance(0.4) else len(out) - 1
            ol, n = ols[j]
            out.append(out[j] if ctx.chance(0.5) else gen.build_circuit(ol, n))
            ols.append((ol, n))
            continue
        n = ctx.ri(1, nmax)
        ol = gen.ops(ctx, n, ctx.ri(0 if allow_empty else 1, 4), customs=[gen.custom_def(ctx)])
        out.append(gen.retyped(ctx, gen.build_circuit(ol, n)))
        ols.append((ol, n))
    if pool is not None:
        pool.extend((c, ol, n) for c, (ol, n) in zip(out, ols))
    return out, ols


def device(batch, returns, log, extra_shots=False, ctx=None):
    """A stand-in device: returns prepared measurements, logs what it was asked."""
    from zquantum.core.interfaces.backend import QuantumBackend

    class Device(QuantumBackend):
        supports_batching = batch is not None
        batch_size = batch

        def run_circuit_and_measure(self, circuit, n_samples):
            super().run_circuit_and_measure(circuit, n_samples)
            log.append((circuit, n_samples))
            return returns(circuit, n_samples)

        def run_circuitset_and_measure(self, circuits, n_samples):
            if not self.supports_batching:
                return super().run_circuitset_and_measure(circuits, n_samples)
            super().run_circuitset_and_measure(circuits, n_samples)
            out = []
            for i in range(0, len(circuits), self.batch_size):
                log.append(("job", list(circuits[i : i + self.batch_size])))
                out += [returns(c, s) for c, s in zip(circuits[i : i + self.batch_size], n_samples[i : i + self.batch_size])]
            return out

    return Device()


def rand_measurements(ctx, made):
    from zquantum.core.measurement import Measurements

    def f(circuit, n):
        old = [m for m in made if len(m.bitstrings) in (n, n + 1) and len(m.bitstrings[0]) == circuit.n_qubits]
        if old and ctx.chance(0.25):
            made.append(old[-1])  # a device may answer with an object it returned before
            return old[-1]
        m = Measurements([tuple(ctx.ri(0, 1) for _ in range(circuit.n_qubits)) for _ in range(n + ctx.pick([0, 0, 1]))])
        made.append(m)
        return m

    return f


@CHECK.scenario(quick=200, thorough=4000, needs=("one result per circuit", "run again later", "jobs counted", "circuits counted"))
def devices(ctx):
    made, log = [], []
    batch = ctx.pick([None, None, 1, 2, 3, 5, 7, 20])
    dev = device(batch, rand_measurements(ctx, made), log)
    circs = jobs = 0
    hist, pool = [], []
    for _ in range(ctx.ri(1, 5)):
        if ctx.chance(0.3):
            cs, _ = circuits(ctx, 1, allow_empty=True, pool=pool)
            n = ctx.pick([1, 3, 10])
            if ctx.chance(0.2):
                before = len(log)
                ctx.raises(ValueError, lambda: dev.run_circuit_and_measure(cs[0], ctx.pick([0, -1])), "no shots rejected")
                ctx.equal(len(log), before, "rejected call did not run")
            else:
                k = len(made)
                if ctx.chance(0.4):
                    f = ctx.pick([dev.get_measurement_outcome_distribution, dev.get_bitstring_distribution])
                    d = f(cs[0], n)
                    ctx.equal(len(made), k + 1, "distribution takes one measurement")
                    ctx.equal(d.distribution_dict, made[-1].get_distribution().distribution_dict, "distribution of the measurement")
                else:
                    r = dev.run_circuit_and_measure(cs[0], n)
                    ctx.check(r is made[-1] and len(made) == k + 1, "measurement passed on")
                ctx.check(log[-1][0] is cs[0] and log[-1][1] == n, "shots requested")
                circs += 1
                jobs += 1
            hist.append((1, n))
        else:
            cs, _ = circuits(ctx, ctx.pick([0, 1, 2, 3, 5, 6, 9]), allow_empty=True, pool=pool)
            ns = [ctx.ri(1, 9) for _ in cs]
            k, l0 = len(made), len(log)
            if ctx.chance(0.5):
                cs, ns = tuple(cs), tuple(ns)
            r = dev.run_circuitset_and_measure(cs, ns)
            ctx.check(len(r) == len(cs) and all(a is b for a, b in zip(r, made[k:])), "one result per circuit", (len(cs), ns))
            ctx.check(all(len(m.bitstrings) >= s for m, s in zip(r, ns)), "requested shots reached")
            circs += len(cs)
            if batch:
                jobs += -(-len(cs) // batch)
                ctx.equal(len(log) - l0, -(-len(cs) // batch), "batches executed")
            else:
                jobs += len(cs)
                ctx.check([x[0] for x in log[l0:]] == list(cs) and [x[1] for x in log[l0:]] == list(ns), "circuits run once in order")
            hist.append((len(cs), list(ns)))
        ctx.equal(dev.number_of_circuits_run, circs, "circuits counted", hist)
        ctx.equal(dev.number_of_jobs_run, jobs, "jobs counted", (batch, hist))
    ctx.case((batch, hist), trivial=not circs)
    ctx.sample((batch, hist))
    for b in (0, -1, None, 2.5):
        class Bad(type(dev)):
            supports_batching = True
            batch_size = b

        ctx.raises(AssertionError, lambda: Bad(), "invalid batch size rejected")


@CHECK.scenario(quick=120, thorough=2500, needs=("simulator results in order", "simulator shots exact", "simulator counters"))
def simulators(ctx):
    from zquantum.core.interfaces.mock_objects import MockQuantumBackend
    from zquantum.core.symbolic_simulator import SymbolicSimulator
    from zquantum.core.trackers import MeasurementTrackingBackend

    mock = ctx.chance(0.4)
    sim = inner = MockQuantumBackend() if mock else SymbolicSimulator(seed=ctx.pick([None, 3]))
    tracked = ctx.chance(0.4)
    if tracked:
        sim = MeasurementTrackingBackend(sim, ctx.used_path(), ctx.chance(0.5))
    total = 0
    hist, pool = [], []
    for _ in range(ctx.ri(1, 3)):
        cs, ols = circuits(ctx, ctx.ri(0, 5), nmax=3, pool=pool)
        ns = [ctx.pick([1, 2, 5, 30]) for _ in cs]
        if ctx.chance(0.3):
            ns = ns[:1] * len(ns)
        r = sim.run_circuitset_and_measure(cs, ns)
        total += len(cs)
        hist.append(ns)
        ctx.equal([len(m.bitstrings) for m in r], ns, "simulator shots exact")
        for m, c, (ol, n) in zip(r, cs, ols):
            p = np.abs(ref.circuit_unitary(ol, n)[:, 0]) ** 2
            ctx.check(all(len(b) == n and p[ref.index_of(b)] > 1e-12 for b in m.bitstrings), "simulator results in order", lambda: (gen.show(ol), m.bitstrings))
        ctx.equal((inner.number_of_circuits_run, inner.number_of_jobs_run), (total, total), "simulator counters", hist)
        if cs:
            n = ctx.pick([1, 4])
            one = sim.run_circuit_and_measure(cs[0], n)
            total += 1
            ctx.equal(len(one.bitstrings), n, "simulator shots exact")
        for _ in range(ctx.pick([0, 1, 2]) if cs and not tracked else 0):
            # Twice in a row perhaps, with the same arguments: each is a measurement of its own.
            n = ctx.pick([1, 3, 8])
            d = ctx.pick([sim.get_measurement_outcome_distribution, sim.get_bitstring_distribution])(cs[0], n).distribution_dict
            total += 1
            ctx.check(all(abs(v * n - round(v * n)) < 1e-9 for v in d.values()) and abs(sum(d.values()) - 1) < 1e-9, "sampled distribution counts its shots", lambda: (d, n))
            p = np.abs(ref.circuit_unitary(*ols[0])[:, 0]) ** 2
            ctx.check(all(len(b) == ols[0][1] and p[ref.index_of(b)] > 1e-12 for b in d), "simulator results in order", lambda: (gen.show(ols[0][0]), d))
        ctx.equal((inner.number_of_circuits_run, inner.number_of_jobs_run), (total, total), "simulator counters", hist)
    ctx.case((mock, tracked, hist, total), trivial=not total)
    if tracked:
        data = json.load(open(sim.raw_data_file_name))["raw-data"] if total else []
        ctx.equal(len(data), total, "every simulator run recorded")


@CHECK.scenario(quick=200, thorough=4000, needs=("tracker passes result on", "record per call", "counts sum to shots", "recorded circuit"))
def tracker(ctx):
    """A history of calls on (possibly several, possibly nested) trackers over one device."""
    from zquantum.core.circuits import circuit_from_dict
    from zquantum.core.trackers import MeasurementTrackingBackend

    made, log = [], []
    dev = device(ctx.pick([None, 2, 3]), rand_measurements(ctx, made), log)
    nt = ctx.ri(1, 2)
    bits = [ctx.chance(0.5) for _ in range(nt)]
    tr = [MeasurementTrackingBackend(dev, ctx.used_path(), b) for b in bits]
    exp = [[] for _ in range(nt)]
    if ctx.chance(0.2):
        tr.append(MeasurementTrackingBackend(tr[0], ctx.used_path(), True))
        bits.append(True)
        exp.append([])
    hist, pool = [], []
    for _ in range(ctx.ri(1, 6)):
        t = ctx.ri(0, len(tr) - 1)
        b = tr[t]
        targets = [t] if t < nt else [0, t]
        kind = ctx.ri(0, 4)
        k = len(made)
        if kind <= 1:
            cs, _ = circuits(ctx, 1, pool=pool)
            n = ctx.pick([1, 2, 2, 3, 8])
            r = b.run_circuit_and_measure(cs[0], n)
            ctx.check(r is made[-1] and len(made) == k + 1, "tracker passes result on")
            new = [("measurement", cs[0], made[-1], None)]
        elif kind == 2:
            cs, _ = circuits(ctx, ctx.ri(0, 4), pool=pool)
            ns = [ctx.ri(1, 6) for _ in cs]
            r = b.run_circuitset_and_measure(cs, ns)
            ctx.check(len(r) == len(cs) and all(x is y for x, y in zip(r, made[k:])), "tracker passes result on")
            new = [("measurement", c, m, None) for c, m in zip(cs, r)]
        else:
            cs, _ = circuits(ctx, 1, pool=pool)
            n = ctx.pick([1, 2, 2, 3, 8])
            if kind == 3:
                r, nm = b.get_measurement_outcome_distribution(cs[0], n), "measurement outcome distribution"
            else:
                r, nm = b.get_bitstring_distribution(cs[0], n), "bitstring distribution"
            ctx.equal(len(made), k + 1, "distribution measured once")
            ctx.equal(r.distribution_dict, made[-1].get_distribution().distribution_dict, "tracker passes result on")
            new = [(nm, cs[0], r, n)]
        hist.append((t, kind, len(new)))
        for x in targets:
            exp[x] += new
        # ---- offline check of every tracker's log file
        for x, e in zip(range(len(tr)), exp):
            if not e and x not in targets:
                continue
            with open(tr[x].raw_data_file_name) as f:
                doc = json.load(f)
            data = doc["raw-data"]
            ctx.check(doc["schema"].endswith("-raw-data"), "schema")
            ctx.equal([d["data_type"] for d in data], [y[0] for y in e], "record per call", hist)
            for d, (nm, c, m, n) in zip(data, e):
                ctx.equal(d["number_of_gates"], len(c.operations), "gates recorded")
                ctx.equal(d["device"], type(tr[x].inner_backend).__name__, "device recorded")
                if nm == "measurement":
                    ctx.equal(sum(d["counts"].values()), len(m.bitstrings), "counts sum to shots")
                    ctx.equal(d["counts"], m.get_counts(), "recorded counts")
                    ctx.equal(d["number_of_shots"], len(m.bitstrings), "recorded shots")
                    ctx.equal(("bitstrings" in d), bits[x], "bitstrings recorded when asked")
                    if bits[x]:
                        ctx.equal([tuple(q) for q in d["bitstrings"]], [tuple(q) for q in m.bitstrings], "recorded bitstrings")
                else:
                    ctx.equal(d["number_of_shots"], n, "recorded shots of distribution")
                    ctx.equal(d["distribution"], repr(m), "recorded distribution")
            for j in {ctx.ri(0, len(e) - 1), len(e) - 1} if e else ():
                ctx.equal(circuit_from_dict(data[j]["circuit"]), e[j][1], "recorded circuit")
    ctx.case((hist, bits, len(tr)))
    ctx.sample(hist)


@CHECK.scenario(quick=3, thorough=12, needs=("every run of a long history recorded", "alike circuits told apart"))
def long_histories(ctx):
    """Thousands of runs through one tracker, of circuits which print alike or are equal."""
    from zquantum.core.circuits import circuit_from_dict
    from zquantum.core.measurement import Measurements
    from zquantum.core.trackers import MeasurementTrackingBackend

    log, total = [], 0
    dev = device(None, lambda c, n: Measurements([(total + len(log)) % 2 == 0 and (0,) or (1,)] * n), log)
    t = MeasurementTrackingBackend(dev, ctx.used_path(), False)
    cs = [gen.build_circuit([(("c", d, ()), (0,))], 1) for d in twin_defs(ctx)]
    want = []
    for _ in range(ctx.pick([2, 3])):
        pick = [ctx.pick(cs) for _ in range(ctx.ri(500, 1500))]
        ns = [ctx.ri(1, 3) for _ in pick]
        r = t.run_circuitset_and_measure(pick, ns)
        want += list(zip(pick, [len(m.bitstrings) for m in r], [m.get_counts() for m in r]))
    ctx.case(len(want))
    with open(t.raw_data_file_name) as f:
        data = json.load(f)["raw-data"]
    ctx.equal([(d["number_of_shots"], d["counts"]) for d in data], [w[1:] for w in want], "every run of a long history recorded")
    ctx.equal(dev.number_of_circuits_run, len(want), "circuits counted")
    docs = {}
    for d, (c, _, _) in zip(data, want):
        docs.setdefault(id(c), set()).add(json.dumps(d["circuit"], sort_keys=True))
    ctx.check(all(len(x) == 1 for x in docs.values()), "alike circuits told apart", docs)
    for c in cs:
        for text in docs.get(id(c), ()):
            ctx.check(circuit_from_dict(json.loads(text)) == c, "alike circuits told apart", text)
