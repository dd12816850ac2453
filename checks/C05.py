"""Circuit (de)serialization round trips."""
import copy
import io
import json
import keyword
from pathlib import Path

import numpy as np
import sympy

from vlib.alias import independent, rewritten
from vlib import gen, ref
from vlib.harness import Check

CHECK = Check(
    "C05",
    "a case is one circuit or list of circuits taken through a document and back; distinct cases differ in gates, "
    "parameters, qubits and register; circuits without operations are trivial",
    ["symbols are plain sympy symbols named by an identifier that is not a Python keyword, or by an indexed identifier such as x[3]"],
)


def shadows(spec):
    """Whether a gate has a symbol named like a constant or function its parameters use, such as pi*Symbol('pi')."""
    ps = [p for p in ref.spec_params(spec) if isinstance(p, sympy.Basic)]
    names = {str(x) for p in ps for x in p.free_symbols}
    return bool(names & {str(a) if a.is_Atom else a.func.__name__ for p in ps for a in p.atoms(sympy.NumberSymbol, sympy.I.func, sympy.Function)})


def rand_circuit(ctx, nmax=5, max_ops=7, customs=None):
    n = ctx.ri(1, nmax)
    pool = gen.NAMES + gen.RESERVED if ctx.chance(0.5) else gen.NAMES
    syms = gen.symbols(ctx, ctx.ri(1, 4), pool)
    if customs is None:
        customs = [gen.custom_def(ctx, name=f"{ctx.pick(['cg', 'Ω', 'with space', 'X', 'Union', 'gate', 'rx'])}_{i}") for i in range(ctx.ri(0, 3))]
        if ctx.chance(0.2):
            customs.append(gen.custom_def(ctx, name=ctx.pick(["Callable", "GateRef", "x", "cnot"])))
        if n > 2 and ctx.chance(0.4):
            customs.append(gen.custom_def(ctx, nq=min(n, ctx.pick([3, 4, 4])), name="wide"))
            ctx.event("custom gate on three qubits or more")
    ol = gen.ops(ctx, n, ctx.ri(0, max_ops), syms=syms, p_sym=0.5, customs=customs, p_custom=0.4, p_mod=0.35)
    ol = [(s, q) for s, q in ol if not shadows(s)]
    reg = n + ctx.ri(0, 3) if ctx.chance(0.6) else None
    c = gen.build_circuit(ol, reg, by_method=ctx.chance(0.6))
    return gen.retyped(ctx, c, 0.15, (np.float64, np.float64, np.float32)), ol


def same(ctx, got, c, what, env=None, unitary=False):
    d = lambda: f"saved {c} loaded {got}"
    ctx.equal(type(got), type(c), what + ": type")
    ctx.equal(got.n_qubits, c.n_qubits, what + ": register", d)
    ctx.equal(len(got.operations), len(c.operations), what + ": operations", d)
    for a, b in zip(got.operations, c.operations):
        ctx.equal(tuple(a.qubit_indices), tuple(b.qubit_indices), what + ": qubits", d)
        ctx.equal(len(a.params), len(b.params), what + ": params", d)
        ctx.equal(list(a.free_symbols), list(b.free_symbols), what + ": free symbols", d)
        for p, q in zip(a.params, b.params):
            if env is not None:
                ctx.close(ref.num(sympy.sympify(p), env), ref.num(q, env), what + ": parameter values", detail=d)
        x, y = a.gate, b.gate
        while hasattr(y, "wrapped_gate"):
            ctx.check(type(x) is type(y), what + ": modifiers", d)
            ctx.equal(getattr(x, "num_control_qubits", None), getattr(y, "num_control_qubits", None), what + ": controls", d)
            x, y = x.wrapped_gate, y.wrapped_gate
        ctx.equal((x.name, x.num_qubits), (y.name, y.num_qubits), what + ": base gate", d)
    ctx.equal(list(got.free_symbols), list(c.free_symbols), what + ": circuit symbols", d)
    ctx.check(got == c and c == got, what + ": loaded circuit equal", d)
    if unitary:
        ctx.close(got.bind(env).to_unitary(), c.bind(env).to_unitary(), what + ": unitary", detail=d)


@CHECK.scenario(quick=260, thorough=6000, needs=("long circuit", "in memory: loaded circuit equal", "file: loaded circuit equal", "in memory: unitary"))
def roundtrip(ctx):
    from zquantum.core.circuits import circuit_from_dict, load_circuit, save_circuit, to_dict

    if ctx.chance(0.04):
        c, ol = rand_circuit(ctx, 130, 120, [gen.custom_def(ctx, name=f"gate_{i}") for i in range(ctx.ri(9, 14))])
        ctx.event("long circuit")
    else:
        c, ol = rand_circuit(ctx)
    ctx.case((gen.show(ol), c.n_qubits, str(c)), trivial=not ol)
    ctx.sample(str(c))
    env = gen.env(ctx, list(c.free_symbols))
    before = str(c)
    independent(ctx, "documents", lambda: to_dict(c))
    ctx.equal(str(c), before, "circuit independent of its document")
    doc = to_dict(c)
    text = json.dumps(doc)
    small = c.n_qubits <= 3 and len(ol) <= 4 and "U3" not in text and ctx.chance(0.4)
    same(ctx, circuit_from_dict(json.loads(text)), c, "in memory", env, small)
    doc2 = copy.deepcopy(doc)
    loaded = circuit_from_dict(doc)
    ctx.equal(doc, doc2, "loading leaves the document unchanged")
    ctx.equal(to_dict(loaded)["n_qubits"], doc["n_qubits"], "second serialization")
    same(ctx, circuit_from_dict(to_dict(loaded)), c, "twice", env)
    ctx.equal(str(c), before, "saving leaves the circuit unchanged")
    p = ctx.used_path()
    kind = ctx.ri(0, 3)
    if kind == 0:
        save_circuit(c, p)
        got = load_circuit(p)
    elif kind == 1:
        save_circuit(c, Path(p))
        got = load_circuit(p.encode())
    elif kind == 2:
        with open(p, "w") as f:
            save_circuit(c, f)
        with open(p) as f:
            got = load_circuit(f)
    else:
        f = io.StringIO()
        save_circuit(c, f)
        f.seek(0)
        got = load_circuit(f)
    same(ctx, got, c, "file", env)


@CHECK.scenario(quick=60, thorough=1200, needs=("circuitset: loaded circuit equal",))
def circuitset(ctx):
    from zquantum.core.circuits import circuit_from_dict, circuitset_from_dict, load_circuit, load_circuitset, save_circuit, save_circuitset, to_dict

    cs = [rand_circuit(ctx, 4, 4)[0] for _ in range(ctx.ri(0, 5))]
    if cs and ctx.chance(0.3):
        cs.append(cs[0])
    ctx.case([str(c) for c in cs], trivial=not any(c.operations for c in cs))
    p = ctx.used_path()
    if ctx.chance(0.5):
        save_circuitset(cs, p)
        got = load_circuitset(p)
    else:
        with open(p, "w") as f:
            save_circuitset(cs, f)
        with open(p) as f:
            got = load_circuitset(f)
    ctx.equal(len(got), len(cs), "circuitset length")
    if len(cs) > 1:
        rewritten(ctx, "files of circuits", save_circuitset, load_circuitset, [cs, cs[::-1], cs], list)
        rewritten(ctx, "circuit files", save_circuit, load_circuit, cs[:2] + cs[:1], lambda c: c)
    for a, b in zip(got, cs):
        same(ctx, a, b, "circuitset", gen.env(ctx, list(b.free_symbols)))
    doc = json.loads(json.dumps(to_dict(cs)))
    ctx.check(circuitset_from_dict(doc) == cs, "circuitset in memory")
    ctx.raises(ValueError, lambda: circuit_from_dict(doc), "set document rejected as a circuit")


@CHECK.scenario(quick=80, thorough=1500, needs=("foreign schema rejected", "conflicting definitions rejected"))
def rejected(ctx):
    from zquantum.core.circuits import Circuit, circuit_from_dict, circuitset_from_dict, to_dict

    a = gen.custom_def(ctx, name="same", nsyms=1)
    c, ol = rand_circuit(ctx, 4, 3, customs=[a])
    doc = json.loads(json.dumps(to_dict(c)))
    ctx.case((str(c), ctx.idx))
    for schema in ["zapata-v1-circuit-v2x", "zapata-v1-circuit", "zapata-v1-circuitset-v2", "", None, "zapata-v2-circuit-v2", "ZAPATA-V1-CIRCUIT-V2"]:
        bad = dict(doc, schema=schema)
        ctx.raises(ValueError, lambda: circuit_from_dict(bad), "foreign schema rejected", schema)
        if schema != "zapata-v1-circuitset-v2":
            ctx.raises(ValueError, lambda: circuitset_from_dict({"schema": schema, "circuits": [doc]}), "foreign set schema rejected", schema)
    nos = {k: v for k, v in doc.items() if k != "schema"}
    ctx.raises(ValueError, lambda: circuit_from_dict(nos), "missing schema rejected")
    ctx.raises(ValueError, lambda: circuitset_from_dict(doc), "circuit document rejected as a set")
    bad_inner = {"schema": "zapata-v1-circuitset-v2", "circuits": [doc, dict(doc, schema="other")]}
    ctx.raises(ValueError, lambda: circuitset_from_dict(bad_inner), "foreign inner schema rejected")
    # two different definitions under one name, anywhere in the nesting
    kind = ctx.ri(0, 2)
    if kind == 0:
        m = a.matrix.copy()
        m[0, 0] = m[0, 0] + ctx.pick([0.5, 1e-3])
        b = ref.CustomDef("same", a.nq, a.symbols, m)
    elif kind == 1:
        b = gen.custom_def(ctx, nq=3 - a.nq, name="same", nsyms=1)
    else:
        s = sympy.Symbol("other_symbol")
        b = ref.CustomDef("same", a.nq, (s,), a.matrix.subs(a.symbols[0], s))

    def wrap(d):
        s = ("c", d, tuple(gen.angle(ctx) for _ in d.symbols))
        for _ in range(ctx.ri(0, 2)):
            s = ("ctrl", 1, s) if ctx.chance(0.5) else ("dag", s)
        return s

    sa, sb = wrap(a), wrap(b)
    ops = [gen.build_gate(s)(*range(ref.spec_qubits(s))) for s in (sa, sb)]
    if ctx.chance(0.5):
        ops.insert(1, gen.build_gate(("b", "X", ()))(0))
    conflict = Circuit(ops)
    ctx.raises(ValueError, lambda: to_dict(conflict), "conflicting definitions rejected", lambda: str(conflict))
    ctx.raises(ValueError, lambda: conflict.collect_custom_gate_definitions(), "conflicting definitions rejected", lambda: str(conflict))
    # the same definition used twice is not a conflict, and is stored once
    twice = Circuit([ops[0], gen.build_gate(wrap(a))(*range(ref.spec_qubits(sa))) if False else ops[0]])
    d2 = to_dict(twice)
    ctx.equal(len(d2["custom_gate_definitions"]), 1, "definition stored once")
    # removing a needed definition
    broken = {k: v for k, v in d2.items() if k != "custom_gate_definitions"}
    ctx.raises(ValueError, lambda: circuit_from_dict(broken), "missing definition rejected")


@CHECK.scenario(quick=60, thorough=1200, needs=("collected definitions",))
def definitions(ctx):
    """Every custom gate used anywhere in the circuit is collected exactly once, sorted by name."""
    customs = [gen.custom_def(ctx, name=f"{ctx.pick('abcXYZ')}{i}") for i in range(ctx.ri(1, 4))]
    n = 5
    ol = gen.ops(ctx, n, ctx.ri(1, 8), customs=customs, p_custom=0.6, p_mod=0.5)
    c = gen.build_circuit(ol, n, by_method=ctx.chance(0.5))
    used = set()

    def walk(s):
        if s[0] == "c":
            used.add(s[1].name)
        elif s[0] == "ctrl":
            walk(s[2])
        elif s[0] == "dag":
            walk(s[1])

    for s, _ in ol:
        walk(s)
    ctx.case(gen.show(ol), trivial=not used)
    got = list(c.collect_custom_gate_definitions())
    ctx.equal([g.gate_name for g in got], sorted(used), "collected definitions", gen.show(ol))
    by = {d.name: d for d in customs}
    for g in got:
        ctx.check(g == gen.build_custom(by[g.gate_name]), "collected definition content")


@CHECK.scenario(quick=2, thorough=2, needs=("finding:keyword-symbol", "finding:symbol-and-indexed-symbol", "finding:symbol-named-like-constant"))
def symbol_names(ctx):
    """Names outside the round-trip domain of the document format."""
    from zquantum.core.circuits import RX, Circuit, circuit_from_dict, to_dict

    ctx.case(ctx.idx)

    def ok(e):
        c = Circuit([RX(e)(0)])
        try:
            return circuit_from_dict(json.loads(json.dumps(to_dict(c)))) == c
        except Exception:
            return False

    ctx.finding("keyword-symbol", ok(sympy.Symbol("lambda")), "circuit with a parameter named by a Python keyword (lambda) cannot be loaded back")
    ctx.finding(
        "symbol-and-indexed-symbol", ok(sympy.Symbol("x") + sympy.Symbol("x[0]")),
        "circuit with one parameter using both symbols x and x[0] cannot be loaded back",
    )
    ctx.finding(
        "symbol-named-like-constant", ok(sympy.Symbol("pi") * sympy.pi),
        "circuit with one parameter using both the number pi and a symbol named pi is loaded back as another circuit",
    )
    for nm in gen.NAMES + gen.RESERVED + ["θ", "_a", "Integer2", "t1", "x[10]", "theta_[2]", "None_", "oo", "nan", "zoo", "cos"]:
        if not keyword.iskeyword(nm):
            ctx.check(ok(sympy.Symbol(nm)), "symbol name survives", nm)
