"""Graphs: generated structure and weights, seeds, comparison, persistence."""
import io
import itertools
import json
import math
import random
import warnings
from pathlib import Path

from vlib.alias import independent, rewritten
from vlib.harness import Check

CHECK = Check(
    "C25",
    "a case is one generator call (kind, sizes, sampler, seed), one pair of graphs, or one saved graph; graphs without edges are trivial",
    ["graph comparison looks at the sequences of nodes and edges, not at weights (as the existing tests require); node names are what JSON can hold (numbers, strings, tuples of these)"],
)


class Recording:
    """A weight sampler that records what it handed out."""

    def __init__(self, it):
        self.it, self.out = it, []

    def __iter__(self):
        return self

    def __next__(self):
        v = next(self.it)
        self.out.append(v)
        return v


def clique(vs):
    return {frozenset(p) for p in itertools.combinations(vs, 2)}


def structure(ctx, G, kind, a):
    """Checks the nodes and unweighted edges of a generated graph; returns the edge set."""
    d = lambda: (kind, a, list(G.nodes), list(G.edges))
    ctx.check(not G.is_multigraph() and not G.is_directed(), "simple undirected graph", d)
    E = {frozenset(e) for e in G.edges}
    ctx.check(len(E) == G.number_of_edges() and all(len(e) == 2 for e in E), "no loops", d)
    n = {"erdos_renyi": lambda: a[0], "complete": lambda: a[0], "regular": lambda: a[0], "caveman": lambda: a[0] * a[1],
         "ladder": lambda: 2 * a[0], "barbell": lambda: 2 * a[0]}[kind]()
    ctx.check(set(G.nodes) == set(range(n)) and G.number_of_nodes() == n, "requested nodes", d)
    if kind == "complete" or (kind == "erdos_renyi" and a[1] >= 1):
        ctx.equal(E, clique(range(n)), "requested structure", detail=d)
    elif kind == "erdos_renyi":
        if a[1] <= 0:
            ctx.equal(E, set(), "requested structure", detail=d)
        ctx.check(len(E) <= n * (n - 1) // 2, "requested structure", d)
    elif kind == "regular":
        ctx.check(all(deg == a[1] for _, deg in G.degree), "requested structure", d)
    elif kind == "caveman":
        want = set()
        for i in range(a[0]):
            want |= clique(range(i * a[1], (i + 1) * a[1]))
        ctx.equal(E, want, "requested structure", detail=d)
    elif kind == "ladder":
        l = a[0]
        want = {frozenset((i, i + 1)) for i in range(l - 1)} | {frozenset((l + i, l + i + 1)) for i in range(l - 1)} | {frozenset((i, l + i)) for i in range(l)}
        ctx.equal(E, want, "requested structure", detail=d)
    else:
        m = a[0]
        ctx.equal(E, clique(range(m)) | clique(range(m, 2 * m)) | {frozenset((m - 1, m))}, "requested structure", detail=d)
    return E


KINDS = ["erdos_renyi", "complete", "regular", "caveman", "ladder", "barbell"]


def arguments(ctx, kind):
    if kind == "erdos_renyi":
        return (ctx.ri(1, 14) if ctx.chance(0.95) else ctx.ri(20, 60), ctx.pick([0, 0.0, 1, 1.0, 0.5, ctx.rng.random(), 0.02, 0.97]))
    if kind == "complete":
        return (ctx.ri(1, 10) if ctx.chance(0.95) else ctx.ri(20, 60),)
    if kind == "regular":
        while True:
            n, d = ctx.ri(1, 14) if ctx.chance(0.95) else ctx.ri(20, 70), ctx.ri(0, 6)
            if d < n and n * d % 2 == 0:
                return (n, d)
    if kind == "caveman":
        return (ctx.ri(1, 5), ctx.ri(1, 6)) if ctx.chance(0.95) else (ctx.ri(6, 20), ctx.ri(3, 15))
    return (ctx.ri(2, 9) if ctx.chance(0.95) else ctx.ri(12, 40),)


def call(kind, a, sampler, seed, how):
    from zquantum.core import graph as g

    f = {"erdos_renyi": g.generate_random_graph_erdos_renyi, "complete": lambda n, *r, **k: g.generate_random_graph_erdos_renyi(n, 1.0, *r, **k),
         "regular": g.generate_random_regular_graph, "caveman": g.generate_caveman_graph, "ladder": g.generate_ladder_graph, "barbell": g.generate_barbell_graph}[kind]
    if how == "positional":
        return f(*a, sampler, seed)
    kw = {}
    if sampler is not None:
        kw["weight_sampler"] = sampler
    if seed is not None:
        kw["seed"] = seed
    return f(*a, **kw)


def sampler(ctx):
    from zquantum.core import graph as g

    k = ctx.ri(0, 5)
    if k == 0:
        v = ctx.pick([1.0, 2, -0.5, 0])
        return "constant", (lambda: g.constant_sampler(v)), (lambda w: w == v)
    if k == 1:
        lo = ctx.pick([0.0, -3.0, 2.5])
        hi = lo + ctx.pick([1.0, 0.0, 10.0])
        return "uniform", (lambda: g.uniform_sampler(lo, hi)), (lambda w: lo <= w <= hi)
    if k == 2:
        return "uniform default", (lambda: g.uniform_sampler()), (lambda w: 0 <= w <= 1)
    if k == 3:
        c = ctx.pick([[1], [-1, 1], [0.5, 2, 7], ["a", "b"], [0, 0, 5]])
        return "choice", (lambda: g.choice_sampler(c)), (lambda w: w in c)
    if k == 4:
        mu, s = ctx.pick([0.0, 100.0]), ctx.pick([1.0, 0.01])
        return "normal", (lambda: g.normal_sampler(mu, s)), (lambda w: abs(w - mu) < 12 * s)
    return "iterator", (lambda: itertools.count(3)), (lambda w: w >= 3)


@CHECK.scenario(quick=700, thorough=20000, needs=("requested structure", "weights drawn from the sampler", "equal seeds give equal graphs", "unseeded graphs in a row"))
def generators(ctx):
    kind = ctx.pick(KINDS)
    a = arguments(ctx, kind)
    name, make, fits = sampler(ctx)
    seed = ctx.pick([None, 0, 1, 42, ctx.ri(0, 10**6)])
    how = ctx.pick(["positional", "keyword"])
    random.seed(ctx.ri(0, 10**9))
    r = Recording(make())
    G = call(kind, a, r, seed, how)
    ctx.case((kind, a, name, seed, how, list(G.edges)), trivial=G.number_of_edges() == 0)
    ctx.sample((kind, a, name, seed))
    ctx.event("kind:" + kind)
    E = structure(ctx, G, kind, a)
    w = [G.edges[e].get("weight") for e in G.edges]
    d = lambda: (kind, a, name, seed, list(G.edges(data=True)), r.out)
    ctx.check(sorted(map(repr, w)) == sorted(map(repr, r.out)) and len(w) == len(E), "weights drawn from the sampler", d)
    ctx.check(all(fits(x) for x in w), "weights in the sampler's range", d)
    ctx.check(all(set(G.edges[e]) == {"weight"} for e in G.edges), "edges carry a weight only", d)
    if seed is not None:
        random.seed(ctx.ri(0, 10**9))
        for _ in range(ctx.ri(0, 3)):
            random.random()
        H = call(kind, a, make(), seed, ctx.pick(["positional", "keyword"]))
        ctx.check(list(H.nodes) == list(G.nodes) and list(H.edges(data=True)) == list(G.edges(data=True)), "equal seeds give equal graphs", d)
    elif name in ("uniform", "uniform default", "normal") and E and len({next(make()) for _ in range(3)}) == 3:
        # unseeded graphs made one after the other are independent draws
        one = call(kind, a, make(), None, ctx.pick(["positional", "keyword"]))
        w = [one.edges[e].get("weight") for e in one.edges]
        H = call(kind, a, make(), None, ctx.pick(["positional", "keyword"]))
        u = [H.edges[e].get("weight") for e in H.edges]
        ctx.check(not u or not w or u[0] != w[0], "successive graphs have their own weights", lambda: (kind, a, name, w, u))
        ctx.event("unseeded graphs in a row")
    if E and ctx.chance(0.3):
        # weights which run out: either every edge gets its own, or the call fails
        left = ctx.ri(0, len(E) + 1)
        try:
            H = call(kind, a, iter(range(left)), ctx.pick([None, 5]), "positional")
        except Exception:
            H = None
            ctx.event("weights ran out")
        if H is None:
            ctx.check(kind == "erdos_renyi" or left < len(E), "enough weights are enough", lambda: (kind, a, left))
        else:
            ctx.check(sorted(d.get("weight", -1) for _, _, d in H.edges(data=True)) == list(range(H.number_of_edges())), "no edge is left without its own weight", lambda: (kind, a, left, list(H.edges(data=True))))
    if seed is not None and name != "iterator":
        independent(ctx, "seeded graphs", lambda: call(kind, a, make(), seed, how), a)
    if ctx.chance(0.3):
        H = call(kind, a, None, seed, "keyword")
        structure(ctx, H, kind, a)
        ctx.check(all(H.edges[e].get("weight") == 1.0 for e in H.edges), "default weight is one", d)


@CHECK.scenario(quick=400, thorough=8000, needs=("specs equal the direct call", "requested structure", "unknown graph type refused"))
def specifications(ctx):
    from zquantum.core import graph as g

    kind = ctx.pick(KINDS)
    a = arguments(ctx, kind)
    names = {"erdos_renyi": ("probability",), "regular": ("degree",), "caveman": ("number_of_cliques", "size_of_cliques"), "ladder": ("length_of_ladder",),
             "barbell": ("number_of_vertices_complete_graph",), "complete": ()}[kind]
    specs = {"type_graph": kind, "num_nodes": a[0] if kind in ("erdos_renyi", "regular", "complete") else ctx.ri(0, 50)}
    specs.update(zip(names, a[1:] if kind in ("erdos_renyi", "regular") else a))
    rw = ctx.pick([None, True, False])
    if rw is not None:
        specs["random_weights"] = rw
    seed = ctx.pick([None, 0, 7, ctx.ri(0, 10**6)])
    if seed is not None or ctx.chance(0.3):
        specs["seed"] = seed
    keep = dict(specs)
    ctx.case((sorted(map(repr, specs.items()))))
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        st = ctx.ri(0, 10**9)
        random.seed(st)
        G = g.generate_graph_from_specs(specs)
        ctx.equal(specs, keep, "specs untouched")
        structure(ctx, G, kind, a)
        random.seed(st)
        H = call(kind, a, g.uniform_sampler(0, 1) if rw else g.constant_sampler(1.0), seed, "positional")
        ctx.check(list(H.nodes) == list(G.nodes) and list(H.edges(data=True)) == list(G.edges(data=True)), "specs equal the direct call", lambda: (keep, list(G.edges(data=True))))
        if rw and G.number_of_edges() > 2:
            ctx.check(len({G.edges[e]["weight"] for e in G.edges}) > 1, "random weights differ", keep)
        bad = dict(specs, type_graph=ctx.pick(["", "ring", "Regular", None]))
        ctx.raises(NotImplementedError, lambda: g.generate_graph_from_specs(bad), "unknown graph type refused")


@CHECK.scenario(quick=40, thorough=400, needs=("edge frequency", "sampler mean", "choices equally likely"))
def statistics(ctx):
    """Fixed 1e-12 bounds (Hoeffding, sub-Gaussian)."""
    from zquantum.core import graph as g

    p = ctx.pick([0.1, 0.3, 0.5, 0.8])
    n, reps = 25, 12
    random.seed(ctx.ri(0, 10**9))
    ctx.case((p, ctx.idx))
    seeded = ctx.chance(0.5)
    tot = sum(g.generate_random_graph_erdos_renyi(n, p, seed=ctx.ri(0, 10**9) if seeded else None).number_of_edges() for _ in range(reps))
    m = reps * n * (n - 1) // 2
    ctx.check(abs(tot / m - p) < math.sqrt(math.log(2e12) / (2 * m)), "edge frequency", (p, tot / m))
    N = 4000
    lo, hi = ctx.pick([(0.0, 1.0), (-2.0, 5.0)])
    x = [next(s) for s in [g.uniform_sampler(lo, hi)] for _ in range(N)]
    ctx.check(abs(sum(x) / N - (lo + hi) / 2) < (hi - lo) * math.sqrt(math.log(2e12) / (2 * N)), "sampler mean", (lo, hi))
    ctx.check(min(x) < lo + 0.05 * (hi - lo) and max(x) > hi - 0.05 * (hi - lo), "sampler reaches its range", (lo, hi))
    mu, s = ctx.pick([(0.0, 1.0), (3.0, 0.5), (-1.0, 10.0)])
    x = [next(t) for t in [g.normal_sampler(mu, s)] for _ in range(N)]
    ctx.check(abs(sum(x) / N - mu) < s * math.sqrt(2 * math.log(2e12) / N), "sampler mean", (mu, s))
    var = sum((v - mu) ** 2 for v in x) / N
    ctx.check(0.8 < var / s**2 < 1.25, "sampler spread", (mu, s, var))
    ch = ctx.pick([[1, 2], ["a", "b", "c", "d"]])
    x = [next(t) for t in [g.choice_sampler(ch)] for _ in range(N)]
    for c in ch:
        ctx.check(abs(x.count(c) / N - 1 / len(ch)) < math.sqrt(math.log(2e12) / (2 * N)), "choices equally likely", (c, x.count(c)))


# ---------------------------------------------------------------- comparison and files
def random_graph(ctx, directed=False, multi=False):
    import networkx as nx

    G = {(0, 0): nx.Graph, (1, 0): nx.DiGraph, (0, 1): nx.MultiGraph, (1, 1): nx.MultiDiGraph}[int(directed), int(multi)]()
    pool = ctx.pick([list(range(8)), list(range(8)), [f"n{i}" for i in range(40)], [5, -1, 3, 10, 77], ["a", "b", "node 3", "ä", ""], [1, "1", 2, "x"], [(0, 1), (1, 0), (2, "z")], [0.5, 1.5, 2]])
    nodes = ctx.rng.sample(pool, ctx.ri(0, len(pool)))
    for v in nodes:
        G.add_node(v, **({"label": ctx.pick(["x", 3, None, 0.1])} if ctx.chance(0.2) else {}))
    if nodes:
        for _ in range(ctx.ri(0, 9) if len(nodes) < 12 else ctx.ri(20, 120)):
            u, v = ctx.pick(nodes), ctx.pick(nodes)
            if u != v or ctx.chance(0.2):
                G.add_edge(u, v, **({"weight": ctx.pick([1, -2.5, 0.1, 1 / 3, "w", None])} if ctx.chance(0.7) else {}))
    if ctx.chance(0.2):
        G.graph["name"] = ctx.pick(["g", 3])
    return G


def mutate(ctx, G):
    """A graph near G (equal, relabelled, reordered, extended or reduced)."""
    H = G.__class__()
    nodes, edges = list(G.nodes), list(G.edges)
    k = ctx.ri(0, 7)
    if k == 0 and nodes:
        nodes[ctx.ri(0, len(nodes) - 1)] = "new"
        edges = [e for e in edges if e[0] in nodes and e[1] in nodes]
    elif k == 1 and edges:
        edges.pop(ctx.ri(0, len(edges) - 1))
    elif k == 2 and len(nodes) > 1:
        edges.append((ctx.pick(nodes), ctx.pick(nodes)))
    elif k == 3:
        ctx.rng.shuffle(nodes)
    elif k == 4:
        ctx.rng.shuffle(edges)
    elif k == 5 and nodes:
        v = nodes.pop()
        edges = [e for e in edges if v not in e]
    elif k == 6:
        nodes.append("new")
    H.add_nodes_from(nodes)
    H.add_edges_from(edges)
    if ctx.chance(0.3):
        for e in H.edges:
            H.edges[e]["weight"] = ctx.pick([1, 2.0])
    return H


@CHECK.scenario(quick=900, thorough=20000, needs=("equal graphs", "unequal graphs", "finding:compare-graphs-prefix"))
def comparison(ctx):
    from zquantum.core.graph import compare_graphs, generate_graph_node_dict

    G = random_graph(ctx)
    H = mutate(ctx, G) if ctx.chance(0.9) else random_graph(ctx)
    ctx.case((list(G.nodes), list(G.edges), list(H.nodes), list(H.edges)), trivial=G.number_of_edges() == 0)
    n1, n2, e1, e2 = list(G.nodes), list(H.nodes), list(G.edges), list(H.edges)
    want = n1 == n2 and e1 == e2
    d = lambda: (n1, e1, n2, e2)
    for A, B in ((G, H), (H, G)):
        got = compare_graphs(A, B)
        prefix = all(a == b for a, b in zip(n1, n2)) and all(a == b for a, b in zip(e1, e2))
        if not want and prefix:
            # lists of different length that agree as far as the shorter goes
            ctx.finding("compare-graphs-prefix", got is False, "unequal graphs", d())
        else:
            ctx.equal(got, want, "equal graphs" if want else "unequal graphs", detail=d)
    if ctx.chance(0.3):
        K, L = G.copy(), G.copy()
        independent(ctx, "comparison", lambda: compare_graphs(K, L), K, L)
        independent(ctx, "node numbering", lambda: generate_graph_node_dict(K), K)
    m = generate_graph_node_dict(G)
    ctx.equal(list(m.items()), [(v, i) for i, v in enumerate(n1)], "node numbering", detail=d)


@CHECK.scenario(quick=400, thorough=8000, needs=("loaded graph",))
def files(ctx):
    from zquantum.core.graph import compare_graphs, load_graph, save_graph

    multi = ctx.chance(0.1)
    G = random_graph(ctx, directed=ctx.chance(0.2), multi=multi)
    ctx.case((G.is_directed(), list(G.nodes(data=True)), list(G.edges(data=True)), G.graph), trivial=G.number_of_edges() == 0)
    before = (list(G.nodes(data=True)), list(G.edges(data=True)), dict(G.graph))
    d = lambda: (G.is_directed(), before)
    p = ctx.used_path()
    w = ctx.ri(0, 3)
    if w == 0:
        save_graph(G, ctx.pick([p, Path(p), p.encode()]))
        H = load_graph(ctx.pick([p, Path(p), p.encode()]))
    elif w == 1:
        with open(p, "w") as f:
            save_graph(G, f)
        with open(p) as f:
            H = load_graph(f)
    elif w == 2:
        with open(p, "w") as f:
            f.write("z" * 9999)
        save_graph(G, p)
        with open(p) as f:
            H = load_graph(f)
    else:
        f = io.StringIO()
        save_graph(G, f)
        f.seek(0)
        H = load_graph(f)
    if w in (0, 2):
        independent(ctx, "loaded graphs", lambda: load_graph(p), G)
        if not multi:
            rewritten(ctx, "graph files", save_graph, load_graph, [G, mutate(ctx, G), G])
    ctx.check(type(H) is type(G), "loaded graph", d)
    ctx.equal(list(H.nodes(data=True)), before[0], "loaded graph", detail=d)
    ctx.equal(list(H.edges(data=True)), before[1], "loaded graph", detail=d)
    ctx.equal(dict(H.graph), before[2], "loaded graph", detail=d)
    ctx.check(compare_graphs(G, H), "loaded graph", d)
    ctx.equal((list(G.nodes(data=True)), list(G.edges(data=True)), dict(G.graph)), before, "saved graph untouched")
