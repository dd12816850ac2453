"""Runtime-monitoring harness.

A check is a set of *scenarios*: workload drivers that run the real code of /repo and
feed what they observe at its API boundary (return values, objects after each step,
calls received by stand-ins, files) to oracles.  Every oracle evaluation is counted as
a monitor event, so that a run in which a monitor was never reached is inconclusive
instead of passing.
"""
import hashlib
import json
import os
import random
import shutil
import signal
import sys
import tempfile
import time
import traceback

import numpy as np

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class Violation(Exception):
    def __init__(self, what, detail="", mechanism=None):
        super().__init__(what)
        self.what, self.detail, self.mechanism = what, detail, mechanism


class CaseTimeout(BaseException):
    pass


def _h(obj):
    return hashlib.blake2b(repr(obj).encode("utf8", "replace"), digest_size=8).hexdigest()


def case_seed(seed, prop, scenario, idx):
    d = hashlib.sha256(f"{seed}|{prop}|{scenario}|{idx}".encode()).digest()
    return int.from_bytes(d[:8], "big")


class Ctx:
    """Handed to a scenario for one case: randomness, scratch files and monitors."""

    def __init__(self, check, scenario, idx, seed, tier, stats):
        self.check_, self.scenario, self.idx, self.tier = check, scenario, idx, tier
        s = case_seed(seed, check.id, scenario, idx)
        self.seed = s
        self.rng = random.Random(s)
        self.np = np.random.default_rng(s)
        self.stats = stats
        self.findings = []
        self._undo = []
        self._nfiles = 0

    # ---- what was observed
    def event(self, kind, n=1):
        self.stats["events"][kind] = self.stats["events"].get(kind, 0) + n

    def case(self, key, trivial=False):
        """Register the case just built: distinct by key; trivial ones are not counted."""
        if not trivial:
            self.stats["distinct"].add(_h((self.scenario, key)))

    def sample(self, obj):
        lst = self.stats["samples"].setdefault(self.scenario, [])
        if len(lst) < 2:
            lst.append(repr(obj)[:600])

    # ---- oracles
    def check(self, cond, what, detail="", kind=None, mechanism=None):
        self.event(kind or what)
        if not bool(cond):
            if callable(detail):
                detail = detail()
            raise Violation(what, str(detail)[:3000], mechanism)

    def close(self, a, b, what, atol=1e-8, rtol=1e-7, detail="", kind=None):
        self.event(kind or what)
        a, b = np.asarray(a, dtype=complex), np.asarray(b, dtype=complex)
        if a.shape != b.shape:
            raise Violation(what, f"shapes {a.shape} vs {b.shape}; {_d(detail)}")
        if a.size and not np.allclose(a, b, atol=atol, rtol=rtol):
            raise Violation(
                what,
                f"max diff {np.nanmax(np.abs(a - b))!r}; got {_short(a)} expected {_short(b)}; {_d(detail)}",
            )

    def equal(self, a, b, what, detail="", kind=None):
        self.event(kind or what)
        if not (a == b):
            raise Violation(what, f"got {str(a)[:900]} expected {str(b)[:900]}; {_d(detail)}")

    def raises(self, exc, fn, what, detail=""):
        """fn() must reject its input with (a subclass of) exc."""
        self.event(what)
        try:
            r = fn()
        except exc as e:
            return e
        raise Violation(what, f"no {exc} raised; returned {str(r)[:300]}; {_d(detail)}")

    def finding(self, mechanism, cond, what, detail=""):
        """A condition with its own mechanism key: known findings are matched on it."""
        self.event("finding:" + mechanism)
        if not cond:
            self.findings.append((mechanism, what, str(detail)[:1500]))

    # ---- hooks on the real code (removed when the case ends)
    def hook(self, owner, name, make):
        orig = owner.__dict__[name] if isinstance(owner, type) else getattr(owner, name)
        setattr(owner, name, make(orig))
        self._undo.append((owner, name, orig))

    def unhook(self):
        for owner, name, orig in reversed(self._undo):
            setattr(owner, name, orig)
        self._undo = []

    # ---- scratch
    def path(self, suffix=".json"):
        self._nfiles += 1
        return os.path.join(os.getcwd(), f"f{self._nfiles}{suffix}")

    def used_path(self, suffix=".json"):
        """A scratch path at which, every third time, there is an old and longer file."""
        p = self.path(suffix)
        if (self.idx + self._nfiles) % 3 == 0:
            with open(p, "w") as f:
                f.write("[" + "1, " * 20000 + "1]")
            self.event("saving over an old, longer file")
        return p

    # ---- convenience
    def pick(self, seq):
        return seq[self.rng.randrange(len(seq))]

    def chance(self, p):
        return self.rng.random() < p

    def ri(self, a, b):
        return self.rng.randint(a, b)


def _d(d):
    return str(d() if callable(d) else d)[:1500]


def _short(a):
    return np.array2string(np.asarray(a), threshold=40, max_line_width=200)[:900]


class Check:
    def __init__(self, prop, rule, assumptions=()):
        self.id, self.rule, self.assumptions = prop, rule, list(assumptions)
        self.scenarios = {}

    def scenario(self, quick, thorough=None, needs=()):
        def deco(fn):
            self.scenarios[fn.__name__] = (
                fn,
                {"quick": quick, "thorough": thorough or quick * 10},
                tuple(needs),
            )
            return fn

        return deco


def _alarm(signum, frame):
    raise CaseTimeout()


def run_case(check, name, idx, seed, tier, stats, case_limit=200):
    """Returns list of violation dicts (empty if held)."""
    fn = check.scenarios[name][0]
    ctx = Ctx(check, name, idx, seed, tier, stats)
    scratch = tempfile.mkdtemp(prefix="case-")
    old = os.getcwd()
    os.chdir(scratch)
    np.random.seed(ctx.seed % (2**32))
    random.seed(ctx.seed)
    out = []

    def rec(what, detail, mech, tb=""):
        out.append(
            dict(property=check.id, scenario=name, idx=idx, seed=seed, tier=tier,
                 case_seed=ctx.seed, what=what, detail=detail, mechanism=mech, traceback=tb)
        )

    # processor time, so that a loaded machine does not look like a hang; twice that on the clock for waiting
    signal.signal(signal.SIGALRM, _alarm)
    signal.signal(signal.SIGPROF, _alarm)
    signal.alarm(2 * case_limit)
    signal.setitimer(signal.ITIMER_PROF, case_limit)
    try:
        fn(ctx)
    except CaseTimeout:
        stats["timeouts"].append(f"{name}#{idx}")
        rec(f"case did not finish within {case_limit} s of processor time", "", "hang")
    except Violation as v:
        rec(v.what, v.detail, v.mechanism, _repo_tb())
    except MemoryError:
        stats["timeouts"].append(f"{name}#{idx} (memory)")
    except Exception as e:
        rec(f"unexpected {type(e).__name__}", f"{e}"[:1500], None, traceback.format_exc()[-4000:])
    finally:
        signal.alarm(0)
        signal.setitimer(signal.ITIMER_PROF, 0)
        ctx.unhook()
        os.chdir(old)
        shutil.rmtree(scratch, ignore_errors=True)
    for mech, what, detail in ctx.findings:
        rec(what, detail, mech)
    stats["cases"][name] = stats["cases"].get(name, 0) + 1
    return out


def _repo_tb():
    return traceback.format_exc()[-3000:]


def plan(check, tier, only=None):
    """All (scenario, idx), interleaved proportionally so that every prefix is a mix."""
    items = []
    for name, (_, n, _) in check.scenarios.items():
        if only and name not in only:
            continue
        for i in range(n[tier]):
            items.append(((i + 0.5) / n[tier], name, i))
    items.sort(key=lambda t: (t[0], t[1]))
    return [(n, i) for _, n, i in items]


def new_stats():
    return dict(events={}, distinct=set(), samples={}, cases={}, timeouts=[], durations={}, longest=0.0)


def worker(check, tier, seed, w, nw, only, outfile, budget, known):
    stats, viol = new_stats(), []
    t0 = time.time()
    truncated = False
    for k, (name, idx) in enumerate(plan(check, tier, only)):
        if k % nw != w:
            continue
        if time.time() - t0 > budget:
            truncated = True
            break
        t1 = time.time()
        v = run_case(check, name, idx, seed, tier, stats)
        stats["durations"][name] = stats["durations"].get(name, 0.0) + time.time() - t1
        stats["longest"] = max(stats["longest"], time.time() - t1)
        viol.extend(v)
        if sum(1 for x in viol if x["mechanism"] not in known) >= (1 if os.environ.get("VERIF_FAILFAST") else 4) or stats["timeouts"]:
            break
    stats["distinct"] = sorted(stats["distinct"])
    with open(outfile, "w") as f:
        json.dump(dict(stats=stats, violations=viol, truncated=truncated), f)
