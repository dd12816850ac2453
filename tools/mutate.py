"""Mutation survey (development tool, not a check).

  [COV=DIR] mutate.py OUT.jsonl PER_FUNCTION SEED FILE[=PROP,PROP] [FILE=...]

MODE=identity instead makes mutants which memoise a function by the identity of its arguments.
MODE=cap makes mutants which leave a loop after its first $CAP items.
MODE=structure instead of the operators makes mutants which drop a raise, memoise a function by the text of its
arguments, and iterate over distinct, reversed or sorted items.

Every mutant of a file is run, in a scratch copy of $SRC (default /repo), against the named properties' quick
checks (one worker, stopping at the first violation).  Survivors are written with their diff."""
import ast, json, os, random, shutil, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SRC = os.environ.get("SRC", "/repo")
BASE = "src/python/zquantum/core/"


def offsets(text):
    o = [0]
    for l in text.encode().splitlines(True):
        o.append(o[-1] + len(l))
    return o


UNWRAP = {"sorted", "list", "set", "abs", "reversed", "deepcopy", "copy", "real", "conj", "conjugate", "tuple", "int", "float", "round", "transpose", "simplify", "normal_ordered", "unique", "frozenset", "array"}
CMP = {ast.Lt: ["<=", ">"], ast.LtE: ["<"], ast.Gt: [">=", "<"], ast.GtE: [">"], ast.Eq: ["!="], ast.NotEq: ["=="], ast.In: ["not in"], ast.NotIn: ["in"], ast.Is: ["is not"], ast.IsNot: ["is"]}
BIN = {ast.Add: ["-"], ast.Sub: ["+"], ast.Mult: ["/", "+"], ast.Div: ["*"], ast.FloorDiv: ["/"], ast.Mod: ["//"], ast.Pow: ["*"], ast.MatMult: []}


def mutants(text):
    """Yields (function, line, description, new source text)."""
    tree = ast.parse(text)
    raw = text.encode()
    off = offsets(text)
    pos = lambda l, c: off[l - 1] + c
    span = lambda n: (pos(n.lineno, n.col_offset), pos(n.end_lineno, n.end_col_offset))
    seg = lambda n: raw[slice(*span(n))].decode()
    parents, fn = {}, {}

    def walk(n, f, skip):
        for c in ast.iter_child_nodes(n):
            parents[c] = n
            g = f
            if isinstance(c, (ast.FunctionDef, ast.ClassDef)):
                g = f + [c.name]
            s = skip or isinstance(c, (ast.Raise, ast.Import, ast.ImportFrom, ast.Assert, ast.JoinedStr)) or (isinstance(c, ast.FunctionDef) and c.name in ("__repr__", "__str__", "_repr_latex_"))
            if isinstance(c, ast.Call) and seg(c.func).endswith(("warn", "TypeVar", "print")):
                s = True
            if isinstance(n, (ast.arg, ast.AnnAssign)) and c is n.annotation or isinstance(n, ast.FunctionDef) and (c is n.returns or c in n.decorator_list):
                s = True
            if not s:
                fn[c] = ".".join(g)
            walk(c, g, s)

    walk(tree, [], False)

    def edit(n, new, what):
        a, b = span(n)
        new = raw[:a] + new.encode() + raw[b:]
        try:
            compile(new, "m", "exec")
        except (SyntaxError, ValueError):
            return
        yield fn[n], n.lineno, what, new.decode()

    for n in list(fn):
        if isinstance(n, ast.Compare) and len(n.ops) == 1:
            for op in CMP[type(n.ops[0])]:
                yield from edit(n, f"{seg(n.left)} {op} {seg(n.comparators[0])}", f"compare {op}")
        elif isinstance(n, ast.BinOp):
            for op in BIN.get(type(n.op), []):
                yield from edit(n, f"({seg(n.left)}) {op} ({seg(n.right)})", f"binop {op}")
            if not isinstance(n.op, (ast.Add, ast.Mult)) or not isinstance(n.left, ast.Constant):
                yield from edit(n, f"({seg(n.left)})", "left operand only")
            yield from edit(n, f"({seg(n.right)})", "right operand only")
        elif isinstance(n, ast.BoolOp):
            op = "or" if isinstance(n.op, ast.And) else "and"
            yield from edit(n, f" {op} ".join(f"({seg(v)})" for v in n.values), f"bool {op}")
            for i in range(len(n.values)):
                keep = [v for j, v in enumerate(n.values) if j != i]
                o = "and" if isinstance(n.op, ast.And) else "or"
                yield from edit(n, "(" + f" {o} ".join(f"({seg(v)})" for v in keep) + ")", f"drop operand {i}")
        elif isinstance(n, ast.UnaryOp):
            yield from edit(n, f"({seg(n.operand)})", "drop unary")
        elif isinstance(n, ast.Constant) and not isinstance(parents.get(n), ast.Expr):
            v = n.value
            if isinstance(v, bool):
                yield from edit(n, repr(not v), "flip constant")
            elif isinstance(v, int):
                yield from edit(n, str(v + 1), "constant + 1")
                if v:
                    yield from edit(n, str(v - 1), "constant - 1")
            elif isinstance(v, (float, complex)) and v:
                yield from edit(n, f"({v!r} * 2)", "constant * 2")
                yield from edit(n, f"(-{v!r})", "constant negated")
        elif isinstance(n, (ast.If, ast.While, ast.IfExp)) and isinstance(n.test, ast.AST) and n.test in fn:
            for v in (["True", "False"] if not isinstance(n, ast.While) else ["False"]):
                for x in edit(n.test, v, f"condition {v}"):
                    yield x
        elif isinstance(n, (ast.Expr, ast.Assign, ast.AugAssign)) and not (isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant)):
            if fn[n]:
                yield from edit(n, "pass", "delete statement")
            if isinstance(n, ast.AugAssign):
                op = {ast.Add: "-=", ast.Sub: "+=", ast.Mult: "/=", ast.Div: "*="}.get(type(n.op))
                if op:
                    yield from edit(n, f"{seg(n.target)} {op} {seg(n.value)}", "aug " + op)
                yield from edit(n, f"{seg(n.target)} = {seg(n.value)}", "aug =")
        elif isinstance(n, (ast.Break, ast.Continue)):
            yield from edit(n, "pass", "drop break/continue")
        elif isinstance(n, ast.Return) and n.value is not None and not (isinstance(n.value, ast.Constant) and n.value.value is None):
            yield from edit(n, "return None", "return None")
        elif isinstance(n, ast.Call):
            f = n.func
            name = f.id if isinstance(f, ast.Name) else f.attr if isinstance(f, ast.Attribute) else ""
            if name in UNWRAP and len(n.args) == 1 and not isinstance(n.args[0], ast.GeneratorExp) and not isinstance(n.args[0], ast.Starred):
                yield from edit(n, f"({seg(n.args[0])})", f"unwrap {name}")
            if name in UNWRAP and not n.args and isinstance(f, ast.Attribute):
                yield from edit(n, f"({seg(f.value)})", f"unwrap .{name}()")
            if len(n.args) == 2 and not n.keywords and seg(n.args[0]) != seg(n.args[1]) and not any(isinstance(a, ast.Starred) for a in n.args):
                yield from edit(n, f"{seg(f)}({seg(n.args[1])}, {seg(n.args[0])})", "swap arguments")
            for i, k in enumerate(n.keywords):
                if k.arg:
                    parts = [seg(a) for a in n.args] + [(f"{q.arg}={seg(q.value)}" if q.arg else f"**{seg(q.value)}") for j, q in enumerate(n.keywords) if j != i]
                    yield from edit(n, f"{seg(f)}({', '.join(parts)})", f"drop keyword {k.arg}")
            if len(n.args) > 1 and not any(isinstance(a, ast.Starred) for a in n.args):
                parts = [seg(a) for a in n.args[:-1]] + [(f"{q.arg}={seg(q.value)}" if q.arg else f"**{seg(q.value)}") for q in n.keywords]
                yield from edit(n, f"{seg(f)}({', '.join(parts)})", "drop last argument")
        elif isinstance(n, ast.Subscript) and isinstance(n.slice, ast.Slice):
            yield from edit(n, seg(n.value), "drop slice")
        elif isinstance(n, ast.comprehension) and n.ifs:
            for c in n.ifs:
                if c in fn:
                    yield from edit(c, "True", "comprehension filter True")


MEMO = """
def _memo_by_text(f):
    import functools
    seen = {}

    @functools.wraps(f)
    def g(*a, **k):
        key = repr(tuple(str(x) for x in a)) + repr(sorted((n, str(v)) for n, v in k.items()))
        if key not in seen:
            seen[key] = f(*a, **k)
        return seen[key]

    return g


"""
MEMO_ID = """
def _memo_by_identity(f):
    import functools
    seen = {}

    @functools.wraps(f)
    def g(*a, **k):
        try:
            key = tuple((x if isinstance(x, (int, float, complex, str, bool, type(None), tuple)) else id(x)) for x in a + tuple(v for _, v in sorted(k.items()))) + tuple(sorted(k))
            hash(key)
        except TypeError:
            return f(*a, **k)
        if key not in seen:
            seen[key] = (f(*a, **k), a, k)
        return seen[key][0]

    return g


"""
ITER = """
def _distinct(xs):
    xs = list(xs)
    try:
        return list(dict.fromkeys(xs))
    except TypeError:
        return xs


def _turned(xs):
    return list(xs)[::-1]


"""


CAPPED = """
def _capped(xs, k):
    import itertools
    if hasattr(xs, "__next__"):
        return itertools.islice(xs, k)
    return xs if len(xs) <= k else list(itertools.islice(iter(xs), k))


"""


def structure(text):
    """Yields (function, line, description, new source text)."""
    tree = ast.parse(text)
    raw = text.encode()
    off = offsets(text)
    span = lambda n: (off[n.lineno - 1] + n.col_offset, off[n.end_lineno - 1] + n.end_col_offset)
    seg = lambda n: raw[slice(*span(n))].decode()
    body = [n for n in tree.body if not (isinstance(n, (ast.Import, ast.ImportFrom)) or isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant))]
    if not body:
        return
    first = min([body[0].lineno] + [d.lineno for d in getattr(body[0], "decorator_list", [])])

    def make(edits, line, name, what, helper=""):
        b = raw
        for a, z, new in sorted(edits, reverse=True):
            b = b[:a] + new.encode() + b[z:]
        t = b.decode().splitlines(True)
        t = "".join(t[: first - 1]) + helper + "".join(t[first - 1 :])
        try:
            compile(t, "m", "exec")
        except (SyntaxError, ValueError):
            return
        yield name, line, what, t

    for f in ast.walk(tree):
        if not isinstance(f, ast.FunctionDef):
            continue
        abstract = all(isinstance(x, (ast.Pass, ast.Raise)) or isinstance(x, ast.Expr) and isinstance(x.value, ast.Constant) for x in f.body)
        if abstract or any("overload" in seg(d) or "contextmanager" in seg(d) for d in f.decorator_list):
            continue
        if os.environ["MODE"] != "cap" and any(isinstance(x, ast.Return) and x.value is not None for x in ast.walk(f)) and not f.decorator_list and not f.name.startswith("__"):
            a = off[f.lineno - 1]
            if os.environ["MODE"] == "identity":
                yield from make([(a, a, " " * f.col_offset + "@_memo_by_identity\n")], f.body[-1].lineno, f.name, "memoise by identity", MEMO_ID)
                continue
            yield from make([(a, a, " " * f.col_offset + "@_memo_by_text\n")], f.body[-1].lineno, f.name, "memoise by text", MEMO)
        if os.environ["MODE"] == "identity":
            continue
        if os.environ["MODE"] == "cap":
            for n in ast.walk(f):
                it = n.iter if isinstance(n, (ast.For, ast.comprehension)) else None
                if it is not None:
                    k = os.environ.get("CAP", "8")
                    yield from make([(*span(it), f"_capped({seg(it)}, {k})")], it.lineno, f.name, f"iterate over the first {k} only", CAPPED)
            continue
        for n in ast.walk(f):
            if isinstance(n, ast.Raise):
                yield from make([(*span(n), "pass")], n.lineno, f.name, "drop raise")
            it = n.iter if isinstance(n, (ast.For, ast.comprehension)) else None
            if it is not None and not (isinstance(it, ast.Call) and seg(it.func) in ("range", "enumerate")):
                for w in ("_distinct", "_turned"):
                    if w == "_distinct" and seg(it).endswith((".items()", ".keys()", ".terms", "product(", "combinations(")):
                        continue
                    yield from make([(*span(it), f"{w}({seg(it)})")], it.lineno, f.name, "iterate " + w, ITER)


if os.environ.get("MODE") in ("structure", "identity", "cap"):
    mutants = structure


def main():
    out, per, seed = sys.argv[1], int(sys.argv[2]), int(sys.argv[3])
    rng = random.Random(seed)
    jobs = []
    cov, wall = {}, {}
    if os.environ.get("COV"):  # line coverage per check (cover.sh): the checks to run are those which execute the line
        for c in sorted(os.listdir(os.environ["COV"])):
            if c.endswith(".json"):
                cov[c[:-5]] = {k: set(v) for k, v in json.load(open(os.path.join(os.environ["COV"], c))).items()}
                e = os.path.join(V, "evidence", c)
                wall[c[:-5]] = json.load(open(e))["wall_s"] if os.path.exists(e) else 20

    def select(p, given, line):
        given = [g for g in given if g]
        hit = [c for c in cov if line in cov[c].get(p, ()) or line + 1 in cov[c].get(p, ())]
        own = [g for g in given if g in hit or not cov]
        return own + sorted((c for c in hit if c not in own), key=wall.get)[: max(0, int(os.environ.get("NCHECKS", "4")) - len(own))]

    for spec in sys.argv[4:]:
        f, props = spec.split("=") if "=" in spec else (spec, "")
        p = f if f.startswith("steps") else BASE + f
        text = open(os.path.join(SRC, p)).read()
        by = {}
        for m in mutants(text):
            by.setdefault(m[0], []).append(m)
        for ms in by.values():
            rng.shuffle(ms)
            seen, chosen = set(), []
            for m in ms:  # prefer different lines
                if m[1] not in seen:
                    seen.add(m[1])
                    chosen.append(m)
            chosen += [m for m in ms if m not in chosen]
            k = per if per > 0 else len(chosen)
            if per > 0:
                k = max(per, len(seen) * per // 8)
            jobs += [(p, select(p, props.split(","), m[1]), m) for m in chosen[:k]]
    jobs = [j for j in jobs if j[1]]
    done = set()
    if os.path.exists(out):
        done = {(d["file"], d["line"], d["what"], d["h"]) for d in map(json.loads, open(out))}
    rng.shuffle(jobs)
    print(len(jobs), "mutants", flush=True)
    nw = int(os.environ.get("NW", "8"))
    trees = []
    for w in range(nw):
        d = tempfile.mkdtemp(prefix="mut.", dir="/tmp")
        subprocess.check_call(f"git -C {SRC} archive HEAD src steps | tar x -C {d}", shell=True)
        trees.append(d)
    pool = list(trees)
    stat = {"killed": 0, "survived": 0}

    def one(job):
        p, props, (f, line, what, text) = job
        import hashlib, difflib
        h = hashlib.md5(text.encode()).hexdigest()[:10]
        if (p, line, what, h) in done:
            return
        d = pool.pop()
        path = os.path.join(d, p)
        orig = open(path).read()
        t0 = time.time()
        try:
            with open(path, "w") as o:
                o.write(text)
            res = "survived"
            for prop in props:
                env = dict(os.environ, VERIF_REPO=d, VERIF_FAILFAST="1", VERIF_SEED="1", VERIF_TIER="quick", VERIF_EVIDENCE=d + "/ev")
                try:
                    r = subprocess.run(["./run.sh", prop, "--workers", "1"], cwd=V, env=env, capture_output=True, text=True, timeout=900)
                    if r.returncode != 0:
                        res = f"killed {prop} rc={r.returncode}"
                        break
                except subprocess.TimeoutExpired:
                    res = f"killed {prop} timeout"
                    break
            diff = "".join(list(difflib.unified_diff(orig.splitlines(True), text.splitlines(True), n=2))[2:])
            with open(out, "a") as o:
                o.write(json.dumps(dict(file=p, fn=f, line=line, what=what, h=h, res=res, t=round(time.time() - t0, 1), diff=diff if res == "survived" or "rc=3" in res or "timeout" in res else "")) + "\n")
            stat["survived" if res == "survived" else "killed"] += 1
            if sum(stat.values()) % 50 == 0:
                print(stat, flush=True)
        finally:
            with open(path, "w") as o:
                o.write(orig)
            pool.append(d)

    try:
        with ThreadPoolExecutor(nw) as ex:
            list(ex.map(one, jobs))
    finally:
        for d in trees:
            shutil.rmtree(d, ignore_errors=True)
    print("done", stat, flush=True)


if __name__ == "__main__":
    main()
