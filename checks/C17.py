"""Recorders, save conditions, augmentations, optimizer plumbing: exactly-once call logs."""
import copy
import functools
import logging

import numpy as np

from vlib.harness import Check

CHECK = Check(
    "C17",
    "a case is one random history of calls (values, gradients, failing calls, later mutation of arguments and results) on a "
    "stack of wrappers; histories without a call are trivial",
    ["target functions do not modify their argument; arguments are numbers, tuples, lists or arrays"],
)


class Boom(Exception):
    pass


class Target:
    """The recorded function; logs what it was really called with."""

    def __init__(self, ctx, artifacts, gradient):
        self.calls, self.gcalls, self.arts = [], [], []
        self.ctx, self.label = ctx, "target"
        self.fail_next = False
        t = self

        def value(params):
            t.calls.append((params, copy.deepcopy(params)))
            if t.fail_next:
                t.fail_next = False
                raise Boom()
            s = float(np.sum(np.asarray(params, dtype=float) * 1.5)) + len(t.calls)
            return np.array([s, 2 * s]) if t.array_result else s

        self.array_result = ctx.chance(0.3)

        def with_art(params, store_artifact=None):
            v = value(params)
            if store_artifact is not None:
                d = {}
                forced = False
                for name, force in t.plan:
                    store_artifact(name, (name, len(t.calls)), force=force) if force or ctx.chance(0.5) else store_artifact(name, (name, len(t.calls)))
                    d[name] = (name, len(t.calls))
                    forced |= force
                t.arts.append((d, forced))
            return v

        def grad(params):
            t.gcalls.append((params, copy.deepcopy(params)))
            return np.asarray(params, dtype=float) * 2 + len(t.gcalls)

        self.plan = []
        self.f = with_art if artifacts else value
        self.g = grad if gradient else None

    def build(self):
        from zquantum.core.interfaces.functions import function_with_gradient

        t = self
        form = self.ctx.ri(0, 2)
        if self.g is None:
            if form == 0:
                return self.f
            if form == 1:
                return functools.wraps(self.f)(functools.partial(self.f)) if self.ctx.chance(0.5) else functools.partial(self.f)

            class K:
                label = "target"
                if "store_artifact" in self.f.__code__.co_varnames:

                    def __call__(s, params, store_artifact=None):
                        return t.f(params, store_artifact)

                else:

                    def __call__(s, params):
                        return t.f(params)

            return K()
        if form == 0:
            return function_with_gradient(self.f, self.g)

        class G:
            if "store_artifact" in self.f.__code__.co_varnames:

                def __call__(s, params, store_artifact=None):
                    return t.f(params, store_artifact)

            else:

                def __call__(s, params):
                    return t.f(params)

            def gradient(s, params):
                return t.g(params)

        return G()


def condition(ctx):
    """(save condition of the library or our own, its plain meaning)."""
    from zquantum.core.history.save_conditions import always, every_nth

    r = ctx.ri(0, 5)
    if r == 0:
        return always, lambda v, p, k: True
    if r == 1:
        n = ctx.ri(1, 5) if ctx.chance(0.7) else ctx.pick([7, 12, 50, 100])
        return every_nth(n), lambda v, p, k: k % n == 0
    if r == 2:
        return (lambda value, params, call_number: False), lambda v, p, k: False
    if r == 3:
        m = lambda v, p, k: float(np.sum(np.asarray(v))) > 2
        return (lambda value, params, call_number: m(value, params, call_number)), m
    if r == 4:
        m = lambda v, p, k: float(np.sum(np.asarray(p, dtype=float))) > 0
        return (lambda value, params, call_number: m(value, params, call_number)), m
    m = lambda v, p, k: k in (0, 2, 3, 7)
    return (lambda value, params, call_number: m(value, params, call_number)), m


def argument(ctx):
    r = ctx.ri(0, 4)
    d = ctx.ri(1, 3)
    v = [ctx.ri(-3, 3) if ctx.chance(0.5) else ctx.rng.uniform(-2, 2) for _ in range(d)]
    if r == 0:
        return tuple(v)
    if r == 1:
        return list(v)
    if r == 2:
        return ctx.rng.uniform(-1, 1)
    return np.array(v, dtype=float)


def spoil(x):
    if isinstance(x, np.ndarray):
        x[...] = 777.0
    elif isinstance(x, list):
        x[:] = [777.0] * (len(x) + 1)


def same(a, b):
    if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
        return isinstance(a, np.ndarray) and isinstance(b, np.ndarray) and np.array_equal(a, b)
    return type(a) == type(b) and a == b


def history_is(ctx, got, want, artifacts, what):
    ctx.equal(len(got), len(want), what + ": number of entries")
    for e, w in zip(got, want):
        ctx.equal(e.call_number, w[0], what + ": call number")
        ctx.check(same(e.params, w[1]), what + ": argument at the time of the call", lambda: f"{e} {w}")
        ctx.check(same(e.value, w[2]), what + ": value at the time of the call", lambda: f"{e} {w}")
        if artifacts:
            ctx.equal(dict(e.artifacts), w[3], what + ": artifacts of the call")


class Model:
    """What a recorder's history must be."""

    def __init__(self, meaning):
        self.meaning, self.k, self.h = meaning, 0, []

    def call(self, v, p, arts=None, forced=False):
        if self.meaning(v, p, self.k) or forced:
            self.h.append((self.k, copy.deepcopy(p), copy.deepcopy(v), arts))
        self.k += 1


@CHECK.scenario(quick=1500, thorough=40000, needs=("history: artifacts of the call", "gradient history: value at the time of the call", "return value passed through", "failing call passes through", "deep copy continues on its own"))
def recorders(ctx):
    from zquantum.core.history.recorder import recorder
    from zquantum.core.interfaces.functions import CallableWithGradient

    arts, grad = ctx.chance(0.5), ctx.chance(0.5)
    t = Target(ctx, arts, grad)
    target = t.build()
    cond, meaning = condition(ctx)
    rec = recorder(target, cond) if ctx.chance(0.85) else recorder(target, save_condition=cond)
    if ctx.chance(0.1):
        rec, meaning = recorder(target), lambda v, p, k: True
        cond = rec.predicate
    ctx.check((isinstance(rec, CallableWithGradient)) == grad, "gradient offered exactly if the target has one")
    m, mg = Model(meaning), Model(meaning)
    # a second recorder around the first: sees the same calls, no artifacts
    outer = mo = mog = None
    if ctx.chance(0.3):
        oc, om = condition(ctx)
        outer, mo, mog = recorder(rec, oc), Model(om), Model(om)
    top = outer if outer is not None else rec
    hist = []
    long = ctx.chance(0.02)
    if long:
        ctx.event("hundreds of calls")
    for _ in range(ctx.ri(200, 600) if long else ctx.ri(0, 12)):
        p = argument(ctx)
        p0 = copy.deepcopy(p)
        r = ctx.rng.random()
        if grad and r < 0.3:
            g = top.gradient(p)
            ctx.check(t.gcalls[-1][0] is p or same(t.gcalls[-1][0], p), "gradient argument passed unchanged")
            ctx.check(same(g, np.asarray(p0, dtype=float) * 2 + len(t.gcalls)), "gradient passed through")
            mg.call(g, p0)
            if mog:
                mog.call(g, p0)
            if ctx.chance(0.6):
                spoil(g)
            hist.append("g")
        elif r < 0.4:
            t.fail_next = True
            n = len(t.calls)
            ctx.raises(Boom, lambda: top(p), "failing call passes through")
            ctx.equal(len(t.calls), n + 1, "failing call made once")
            hist.append("x")
        else:
            names = ["a", "b", "energy"]
            t.plan = [(ctx.pick(names), ctx.chance(0.15)) for _ in range(ctx.ri(0, 3))]
            n = len(t.calls)
            v = top(p)
            ctx.equal(len(t.calls), n + 1, "target called exactly once per call")
            ctx.check(t.calls[-1][0] is p or same(t.calls[-1][0], p0), "argument passed unchanged")
            s = float(np.sum(np.asarray(p0, dtype=float) * 1.5)) + len(t.calls)
            ctx.check(same(v, np.array([s, 2 * s]) if t.array_result else s), "return value passed through", lambda: f"{v} {s}")
            d, forced = t.arts[-1] if arts else (None, False)
            m.call(v, p0, d, forced)
            if mo:
                mo.call(v, p0)
            if ctx.chance(0.6):
                spoil(v)
            hist.append("c")
        if ctx.chance(0.6):
            spoil(p)
        if ctx.chance(0.3):
            history_is(ctx, rec.history, m.h, arts, "history")
    ctx.case((hist, arts, grad, outer is not None, str(m.h)), trivial=not hist)
    ctx.sample((hist, arts, grad, m.h))
    history_is(ctx, rec.history, m.h, arts, "history")
    ctx.equal(rec.call_number, m.k, "number of calls")
    if grad:
        history_is(ctx, rec.gradient.history, mg.h, False, "gradient history")
    if outer is not None:
        history_is(ctx, outer.history, mo.h, False, "outer history")
        if grad:
            history_is(ctx, outer.gradient.history, mog.h, False, "outer gradient history")
    # copies
    if outer is None and ctx.chance(0.3) and hist:
        sc = copy.copy(rec)
        history_is(ctx, sc.history, m.h, arts, "history of a copy")
        ctx.equal(sc.call_number, m.k, "call number of a copy")
        if grad:
            history_is(ctx, sc.gradient.history, mg.h, False, "gradient history of a copy")
            ctx.equal(sc.gradient.call_number, mg.k, "gradient call number of a copy")
    from zquantum.core.history.example_functions import Function2, Function5

    if ctx.chance(0.3):
        f = ctx.pick([Function2, Function5])(ctx.pick([2, 0.5]))
        a = recorder(f, cond)
        pts = [np.array([ctx.rng.uniform(-2, 2) for _ in range(3)]) for _ in range(6)]
        for p in pts[:3]:
            a(p)
            a.gradient(p)
        b = copy.deepcopy(a)
        n, ng = len(a.history), len(a.gradient.history)
        ma, mga = Model(meaning), Model(meaning)
        for i, p in enumerate(pts):
            art = {"something": p[0] + p[1]} if isinstance(f, Function5) and p[0] > 0 else {}
            ma.call(f(p), p, art)
            mga.call(f.gradient(p), p)
        for p in pts[3:]:
            b(p)
            b.gradient(p)
        history_is(ctx, b.history, ma.h, isinstance(f, Function5), "deep copy")
        history_is(ctx, b.gradient.history, mga.h, False, "gradient of a deep copy")
        ctx.equal((len(a.history), len(a.gradient.history), a.call_number), (n, ng, 3), "original unaffected by its deep copy")
        ctx.event("deep copy continues on its own")


@CHECK.scenario(quick=300, thorough=6000, needs=("recorded function calls its recorder", "artifacts of nested calls kept apart"))
def reentrant(ctx):
    """A recorded function may itself call the recorder: every call is still one call with a number of its own."""
    from zquantum.core.history.recorder import recorder

    arts, array = ctx.chance(0.5), ctx.chance(0.5)
    branches = [ctx.ri(0, 2) for _ in range(ctx.ri(1, 4))]
    made, asked = [], []
    fails = {k for k in range(12) if ctx.chance(0.1)}

    def work(params, store=None):
        depth, i = int(params[0]), len(made)
        made.append(None)
        if store is not None:
            store("before", i)
        total = float(i)
        if depth < len(branches):
            for b in range(branches[depth]):
                q = np.array([depth + 1.0, 10.0 * i + b])
                try:
                    total += float(np.sum(rec(q)))
                except Boom:
                    total += 0.25
        if store is not None:
            store("after", -i, force=bool(i % 3 == 0))
        if i in fails:
            raise Boom()
        v = np.array([total, 1.0]) if array else total
        made[i] = (np.array(params), copy.copy(v))
        return v

    if arts:
        def target(params, store_artifact=None):
            return work(params, store_artifact)
    else:
        def target(params):
            return work(params)

    mode = ctx.ri(0, 2)

    def meaning(value):
        return mode == 0 or (int(np.sum(value)) % 2 == 0 if mode == 1 else float(np.sum(value)) > 3)

    def cond(value, params, call_number):
        asked.append((call_number, float(np.sum(value))))
        return meaning(value)

    rec = recorder(target, cond)
    outer = []
    for k in range(ctx.ri(1, 3)):
        p = np.array([0.0, -1.0 - k])
        n = len(made)
        try:
            outer.append((n, rec(p)))
        except Boom:
            ctx.check(n in fails, "failing call passes through", lambda: (n, fails))
    ctx.case((branches, arts, array, mode, sorted(fails)), trivial=max(branches[:1] or [0]) == 0)
    for n, v in outer:
        ctx.check(same(v, made[n][1]), "return value passed through", lambda: (v, made[n]))
    done = [(i, m) for i, m in enumerate(made) if m is not None]
    ctx.equal(rec.call_number, len(done), "number of calls")
    ctx.equal(sorted(k for k, _ in asked), list(range(len(done))), "recorded function calls its recorder: each call has a number of its own")
    want = [(p, v, i) for i, (p, v) in done if meaning(v) or (arts and i % 3 == 0)]
    ctx.equal(len(rec.history), len(want), "recorded function calls its recorder: number of entries")
    numbers = {}
    for e in rec.history:
        found = [w for w in want if same(e.params, w[0]) and same(e.value, w[1])]
        ctx.check(bool(found), "recorded function calls its recorder", lambda: (e, want))
        ctx.check(e.call_number not in numbers, "recorded function calls its recorder: each call has a number of its own", lambda: rec.history)
        numbers[e.call_number] = 1
        ctx.check((e.call_number, float(np.sum(e.value))) in asked, "recorded function calls its recorder: number the condition was asked with", lambda: (e, asked))
        if arts:
            ctx.check(any(dict(e.artifacts) == {"before": w[2], "after": -w[2]} for w in found), "artifacts of nested calls kept apart", lambda: (e, found))


@CHECK.scenario(quick=300, thorough=4000, needs=("attribute read through",))
def attributes(ctx):
    """A recorder looks like its target apart from its own five attributes."""
    from zquantum.core.history.recorder import recorder
    from zquantum.core.interfaces.functions import function_with_gradient

    class F:
        alpha = 3

        def __init__(self):
            self.beta = [1, 2]

        def __call__(self, params, store_artifact=None):
            if store_artifact:
                store_artifact("x", 1)
            return params

        def method(self, k):
            return (k, self.alpha, self.beta)

    class G(F):
        def gradient(self, params):
            return params

    class P:
        alpha = 3

        def __init__(self):
            self.beta = [1, 2]

        def __call__(self, params):
            return params

        def method(self, k):
            return (k, self.alpha, self.beta)

    f = ctx.pick([F, G, P])()
    how = ctx.ri(0, 3)
    r = recorder(f)
    if how == 0:
        r = recorder(r)
    elif how == 1:  # a combination with a gradient looks like its function
        r = function_with_gradient(f, lambda params: -params)
        ctx.equal((r(4), r.gradient(4)), (4, -4), "combined function is its parts")
    elif how == 2:
        r = recorder(function_with_gradient(f, lambda params: -params))
    ctx.case((type(f).__name__, how, ctx.idx))
    ctx.equal(r.alpha, 3, "attribute read through")
    ctx.check(r.beta is f.beta, "attribute read through")
    ctx.equal(r.method(7), f.method(7), "method call through")
    x = ctx.ri(0, 99)
    r.alpha = x
    r.gamma = x + 1
    ctx.equal((f.alpha, f.gamma, r.alpha, r.gamma), (x, x + 1, x, x + 1), "attribute written through")
    ctx.check(not hasattr(f, "history") and not hasattr(f, "call_number"), "recorder's own data stays off the target")
    ctx.raises(AttributeError, lambda: r.nothing_like_this, "missing attribute")


@CHECK.scenario(quick=400, thorough=8000, needs=("augmentation acts on the selected calls", "augmented value unchanged", "gradient augmentation acts", "log records"))
def augmentations(ctx):
    from zquantum.core.cost_function_augmentations import ConditionalSideEffect, augment_cost_function, function_logger
    from zquantum.core.history.recorder import recorder

    acted = {}

    def effect(tag):
        cond, meaning = condition(ctx)
        log = acted.setdefault(tag, [])

        class E(ConditionalSideEffect):
            def _act(self, result, params):
                log.append((self.call_number, copy.deepcopy(params), copy.deepcopy(result)))

        return (lambda f: E(f, cond)), Model(meaning), log

    grad = ctx.chance(0.6)
    t = Target(ctx, False, grad)
    target = t.build()
    logger = logging.getLogger(f"c17.{ctx.idx}")
    logger.setLevel(logging.DEBUG)
    logger.propagate = False
    records = []
    h = logging.Handler()
    h.emit = records.append
    logger.addHandler(h)
    cond, meaning = condition(ctx)
    level = ctx.pick([logging.INFO, logging.DEBUG, logging.WARNING])
    lm = Model(meaning)
    fa, ga, models, gmodels = [], [], [], []
    for i in range(ctx.ri(0, 3)):
        a, m, log = effect(("f", i))
        fa.append(a)
        models.append((m, log))
    with_logger = ctx.chance(0.5)
    if with_logger:
        fa.insert(ctx.ri(0, len(fa)), function_logger(cond, logger, level) if ctx.chance(0.7) else function_logger(predicate=cond, logger=logger, level=level, message="no %d is %s"))
    for i in range(ctx.ri(0, 2)):
        a, m, log = effect(("g", i))
        ga.append(a)
        gmodels.append((m, log))
    order = []

    def marker(k):
        def aug(f):
            def g(params):
                order.append(("in", k))
                r = f(params)
                order.append(("out", k))
                return r

            return g

        return aug

    marks = ctx.ri(0, 2)
    for k in range(marks):
        fa.append(marker(k))
    inner_rec = outer_rec = None
    base = target
    rcond, rmean = condition(ctx)
    rm, rg = Model(rmean), Model(rmean)
    if ctx.chance(0.3):
        base = inner_rec = recorder(target, rcond)
    as_iter = ctx.chance(0.2)
    if not fa and not ga:
        ctx.check(augment_cost_function(base) is base, "no augmentation leaves the function alone")
    f = augment_cost_function(base, iter(fa) if as_iter and fa else fa or ctx.pick([None, []]), ga or ctx.pick([None, []]))
    if inner_rec is None and ctx.chance(0.4):
        f = outer_rec = recorder(f, rcond)
    n = 0
    for _ in range(ctx.ri(1, 7)):
        p = argument(ctx)
        p0 = copy.deepcopy(p)
        if grad and ctx.chance(0.35):
            g = f.gradient(p)
            ctx.check(same(g, np.asarray(p0, dtype=float) * 2 + len(t.gcalls)), "augmented gradient unchanged")
            for m, _ in gmodels:
                m.call(g, p0)
            rg.call(g, p0)
            continue
        del order[:]
        fail = ctx.chance(0.1)
        t.fail_next = fail
        if fail:
            ctx.raises(Boom, lambda: f(p), "failing augmented call passes through")
            continue
        v = f(p)
        n += 1
        s = float(np.sum(np.asarray(p0, dtype=float) * 1.5)) + len(t.calls)
        ctx.check(same(v, np.array([s, 2 * s]) if t.array_result else s), "augmented value unchanged")
        for m, _ in models:
            m.call(v, p0)
        lm.call(v, p0)
        rm.call(v, p0)
        ctx.equal(order, [("in", k) for k in range(marks)][::-1] + [("out", k) for k in range(marks)], "augmentations applied left to right")
    ctx.case((len(fa), len(ga), grad, n, str(lm.h)))

    def cmp(log, m, what):
        ctx.equal(len(log), len(m.h), what, lambda: f"{log} {m.h}")
        for a, b in zip(log, m.h):
            ctx.check(a[0] == b[0] and same(a[1], b[1]) and same(a[2], b[2]), what, lambda: f"{a} {b}")

    for m, log in models:
        cmp(log, m, "augmentation acts on the selected calls")
    if grad:
        for m, log in gmodels:
            cmp(log, m, "gradient augmentation acts")
    if with_logger:
        ctx.equal(len(records), len(lm.h), "log records")
        for r, e in zip(records, lm.h):
            ctx.check(r.levelno == level and r.args[0] == e[0] and same(r.args[1], e[2]), "log records", lambda: f"{r.args} {e}")
            ctx.check(str(e[0]) in r.getMessage() and str(e[2]) in r.getMessage(), "log message shows call number and value", r.getMessage())
    else:
        ctx.equal(records, [], "nothing logged without a logger")
    rr = inner_rec if inner_rec is not None else outer_rec
    if rr is not None:
        history_is(ctx, rr.history, rm.h, False, "history with augmentations")
        if grad:
            history_is(ctx, rr.gradient.history, rg.h, False, "gradient history with augmentations")
    logger.removeHandler(h)


@CHECK.scenario(quick=300, thorough=6000, needs=("function reads the attribute of the target",))
def augmented_attributes(ctx):
    from zquantum.core.cost_function_augmentations import augment_cost_function
    from zquantum.core.interfaces.functions import CallableWithGradient

    class F:
        def __init__(self):
            self.number, self.text = 10, "t"

        def __call__(self, x):
            return 2.0 * x

    class FG(F):
        def gradient(self, x):
            return 2.0

    class Aug:
        def __init__(self, f):
            self.f, self.number = f, 99

        def __call__(self, x):
            return self.f(x) + 1

    class Plain:
        def __init__(self, f):
            self.f = f

        def __call__(self, x):
            return self.f(x) * 3

    f = ctx.pick([F, FG])()
    augs = [ctx.pick([Aug, Plain]) for _ in range(ctx.ri(1, 3))]
    a = augment_cost_function(f, augs)
    ctx.case(str(augs) + type(f).__name__)
    v = 2.0 * 5
    for g in augs:
        v = v + 1 if g is Aug else v * 3
    ctx.equal(a(5), v, "augmentations change the value as they say")
    ctx.equal(a.text, "t", "function reads the attribute of the target")
    ctx.equal(a.number, 99 if Aug in augs else 10, "outermost definition of an attribute wins")
    ctx.equal(isinstance(a, CallableWithGradient), isinstance(f, FG), "gradient offered exactly if the function has one (augmented)")
    ctx.raises(AttributeError, lambda: a.nope, "missing attribute (augmented)")
    a.text = "new"
    ctx.equal((a.text, f.text), ("new", "new"), "attribute written to the target")


@CHECK.scenario(quick=400, thorough=8000, needs=("optimizer history", "no history unless asked", "histories extended in order"))
def optimizers(ctx):
    """The optimizer interface: recording happens in minimize, once, and reaches the result."""
    from zquantum.core.history.recorder import recorder
    from zquantum.core.interfaces.optimizer import Optimizer, construct_history_info, extend_histories, optimization_result

    made = []

    class Opt(Optimizer):
        def _minimize(self, cost_function, initial_params, keep_history=False):
            best = None
            x = np.array(initial_params, dtype=float)
            for i in range(self.steps):
                v = cost_function(x.copy())
                vals.append((x.copy(), v))
                if best is None or float(np.sum(v)) < float(np.sum(best[1])):
                    best = (x.copy(), v)
                if hasattr(cost_function, "gradient"):
                    g = cost_function.gradient(x)
                    grads.append((x.copy(), g.copy()))
                    g *= 0.1
                    x -= g
                else:
                    x += 0.25
            return optimization_result(opt_value=best[1], opt_params=best[0], nit=self.steps, nfev=len(vals), **construct_history_info(cost_function, keep_history))

    arts, grad = ctx.chance(0.3), ctx.chance(0.5)
    t = Target(ctx, arts, grad)
    vals, grads = [], []
    cond, meaning = condition(ctx)

    def factory(f):
        made.append(f)
        return recorder(f, cond)

    default = ctx.chance(0.3)
    o = Opt() if default else Opt(recorder=factory)
    if default:
        meaning = lambda v, p, k: True
    o.steps = ctx.ri(1, 5)
    x0 = np.array([ctx.rng.uniform(-1, 1) for _ in range(ctx.ri(1, 3))])
    x00 = x0.copy()
    keep = ctx.chance(0.7)
    target = t.build()
    ctx.case((o.steps, arts, grad, keep, str(x0)))
    r = o.minimize(target, x0, keep_history=keep) if ctx.chance(0.5) or keep else o.minimize(target, x0)
    ctx.check(np.array_equal(x0, x00), "initial parameters unchanged")
    ctx.equal(r.nfev, o.steps, "fields kept in the result")
    if keep:
        m, mg = Model(meaning), Model(meaning)
        for (p, v), a in zip(vals, t.arts if arts else [(None, False)] * len(vals)):
            m.call(v, p, a[0], a[1])
        for p, g in grads:
            mg.call(g, p)
        history_is(ctx, r.history, m.h, arts, "optimizer history")
        ctx.event("optimizer history")
        if grad:
            history_is(ctx, r.gradient_history, mg.h, False, "optimizer gradient history")
        ctx.check(("gradient_history" in r) == grad, "gradient history exactly if there is a gradient")
        if not default:
            ctx.equal(len(made), 1, "recorded once")
        # extending histories over several recorders
        a = recorder(t.build(), cond)
        for _ in range(ctx.ri(0, 3)):
            a(argument(ctx))
            if grad:
                a.gradient(argument(ctx))
        old = {"history": list(r.history)}
        if grad:
            old["gradient_history"] = list(r.gradient_history)
        before = {k: list(v) for k, v in old.items()}
        new = extend_histories(a, old)
        ctx.check(len(new["history"]) == len(old["history"]) + len(a.history) and all(x is y for x, y in zip(new["history"], list(r.history) + a.history)), "histories extended in order")
        if grad:
            ctx.check(all(x is y for x, y in zip(new["gradient_history"], list(r.gradient_history) + a.gradient.history)) and len(new["gradient_history"]) == len(r.gradient_history) + len(a.gradient.history), "gradient histories extended in order")
        ctx.check(all(len(before[k]) == len(old[k]) for k in old) and set(old) == set(before), "extended histories leave the old ones alone")
    else:
        ctx.equal(list(r.history), [], "no history unless asked")
        ctx.check("gradient_history" not in r, "no history unless asked")
        ctx.equal(made, [], "no recorder unless asked")


@CHECK.scenario(quick=300, thorough=5000, needs=("nested minimisation",))
def nested(ctx):
    """A nested optimizer hands everything on: factory, parameters, and the wish for a history."""
    from zquantum.core.history.recorder import recorder
    from zquantum.core.interfaces.optimizer import NestedOptimizer, Optimizer, construct_history_info, extend_histories, optimization_result

    steps, rounds, keep, given = ctx.ri(1, 3), ctx.ri(1, 3), ctx.chance(0.6), ctx.chance(0.5)
    every = ctx.ri(1, 3)
    cond, meaning = (lambda value, params, number: number % every == 0), (lambda v, p, k: k % every == 0)
    x0 = ctx.np.uniform(-1, 1, ctx.ri(1, 3))
    x00 = x0.copy()

    class Inner(Optimizer):
        def _minimize(self, cost_function, initial_params, keep_history=False):
            x = np.array(initial_params, dtype=float)
            for _ in range(steps):
                v = cost_function(x)
                x = x + 0.5
            return optimization_result(opt_value=v, opt_params=x - 0.5, nit=steps, nfev=steps, **construct_history_info(cost_function, keep_history))

    seen = []

    class Outer(NestedOptimizer):
        @property
        def inner_optimizer(self):
            return Inner()

        if given:
            @property
            def recorder(self):
                return lambda f: recorder(f, cond)
        else:
            @property
            def recorder(self):
                return super().recorder

        def _minimize(self, cost_function_factory, initial_params, keep_history=False):
            seen.append((cost_function_factory, initial_params, keep_history))
            histories, nfev = {"history": []}, 0
            for i in range(rounds):
                f = cost_function_factory(i)
                if keep_history:
                    f = self.recorder(f)
                r = self.inner_optimizer.minimize(f, initial_params)
                nfev += r.nfev
                if keep_history:
                    histories = extend_histories(f, histories)
            return optimization_result(opt_value=r.opt_value, opt_params=r.opt_params, nit=rounds, nfev=nfev, **histories)

    def factory(i):
        return lambda params: float(np.sum(params**2) * 10**i)

    ctx.case((steps, rounds, keep, given, ctx.idx))
    o = Outer()
    how = ctx.ri(0, 2)
    r = o.minimize(factory, x0, keep) if how == 0 else o.minimize(factory, x0, keep_history=keep) if how == 1 or keep else o.minimize(factory, x0)
    ctx.check(len(seen) == 1 and seen[0][0] is factory and seen[0][1] is x0 and seen[0][2] is keep, "nested minimisation", lambda: seen)
    ctx.check(np.array_equal(x0, x00), "initial parameters unchanged")
    ctx.equal((r.nit, r.nfev), (rounds, rounds * steps), "fields kept in the result")
    want = [(x00 + 0.5 * j, float(np.sum((x00 + 0.5 * j) ** 2) * 10**i), j) for i in range(rounds) for j in range(steps)] if keep else []
    if given and keep:
        want = [w for w in want if meaning(w[1], w[0], w[2])]
    ctx.equal(len(r.history), len(want), "history of all rounds")
    for e, (p, v, k) in zip(r.history, want):
        ctx.check(np.array_equal(e.params, p) and abs(e.value - v) <= 1e-12 * abs(v) and e.call_number == k, "history of all rounds", lambda: (e, p, v, k))


@CHECK.scenario(quick=100, thorough=500, needs=("nth call selected",))
def conditions(ctx):
    from zquantum.core.history.save_conditions import always, every_nth

    n = ctx.ri(1, 30)
    c = every_nth(n)
    k = ctx.ri(0, 500)
    ctx.case((n, k))
    ctx.equal(bool(c(0.5, np.zeros(1), k)), k % n == 0, "nth call selected")
    ctx.equal([i for i in range(70) if c(None, None, i)], list(range(0, 70, n)), "nth call selected")
    ctx.check(all(always(v, p, i) for i, v, p in [(0, 0, None), (5, None, 3), (k, np.nan, [])]), "always selects every call")


@CHECK.scenario(quick=200, thorough=2000, needs=("kind of callable recognised",))
def callables(ctx):
    from zquantum.core.history.recorder import recorder
    from zquantum.core.interfaces.functions import CallableStoringArtifacts, CallableWithGradient, function_with_gradient, has_store_artifact_param

    def f(x):
        return x + 1

    def fa(x, store_artifact=None):
        if store_artifact:
            store_artifact("k", x, force=True)
        return x + 2

    def g(x):
        return x * 10

    ctx.case(ctx.idx)
    k = ctx.idx % 6
    if k == 0:
        fn, arts = f, False
    elif k == 1:
        fn, arts = fa, True
    elif k == 2:
        fn, arts = functools.partial(fa), True
    elif k == 3:
        fn, arts = np.sin, False
    elif k == 4:
        fn, arts = functools.wraps(f)(lambda *a: f(*a)), False
    else:
        fn, arts = (lambda x, *, store_artifact=None: fa(x, store_artifact)), True
    ctx.equal(has_store_artifact_param(fn), arts, "kind of callable recognised")
    w = function_with_gradient(fn, g)
    ctx.check(isinstance(w, CallableWithGradient), "combined function has a gradient")
    ctx.equal(has_store_artifact_param(w), arts, "combined function stores artifacts exactly if the function does")
    x = ctx.ri(0, 9)
    if k != 5:
        ctx.equal((w(x), w.gradient(x)), (fn(x), x * 10), "combined function is its parts")
        r = recorder(w)
        ctx.equal((r(x), r.gradient(x)), (fn(x), x * 10), "recorded combination is its parts")
        if arts:
            ctx.equal([dict(e.artifacts) for e in r.history], [{"k": x}], "artifacts through a combination")
    else:
        r = recorder(fn)
        ctx.equal(r(x), fn(x), "keyword-only artifact callback")
        ctx.equal([dict(e.artifacts) for e in r.history], [{"k": x}], "keyword-only artifact callback")
