"""P20: callbacks see every result once, in order, as announced, and never change what the miner does."""
import functools
import itertools

from mc.core import Space

PROPERTY = "P20"
ASSUMPTIONS = ["a callback names self first, if at all; callbacks with self and two or more other parameters target methods returning tuples",
               "methods do not return one-element tuples to callbacks of one argument", "assignments to self are written self... = (or an augmented one), not in a list of targets, a loop or a with"]

VALUES = {"none": None, "int": 3, "zero": 0, "text": "xy", "t2": (1, 2), "t2n": (None, [4]), "t3": (7, 8, 9), "l0": [], "l1": [5], "l2": [5, 6], "l3": [(1, 2), 3, 4], "set": {1, 2}, "dict": {"a": 1},
          "nest": ((1, 2), [3]), "arr": "arr", "frame": "frame",
          "t4": (1, None, "c", []), "t6": tuple(range(6)), "t0": (), "false": False, "l9": list(range(9)), "named": "named", "gen": "gen", "func": len, "strings": ("ab", "cd"), "series": "series", "lists": ([1, 2], [3, 4]), "range": range(2)}


class Pair(tuple):
    pass


def value(name):
    v = VALUES[name]
    if not isinstance(v, str):
        return v
    if v == "named":
        import collections
        return collections.namedtuple("Sizes", "data model")(3.5, 4)
    if v == "gen":
        return iter([1, 2])
    if v == "series":
        import pandas as pd
        return pd.Series([1, 2], index=["x", "y"])
    if v == "arr":
        import numpy as np
        return np.array([1, 2])
    if isinstance(v, str) and v == "frame":
        import pandas as pd
        return pd.DataFrame({"x": [1, 2], "y": [3, 4]})
    return v


class Holder:
    def __init__(self, log):
        self.log = log

    def one(self, res):
        self.log.append(("one", res))

    def two(self, a, b):
        self.log.append(("two", a, b))

    def __call__(self, *res):
        self.log.append(("call",) + res)


def callbacks_of(log):
    """name -> (callback, what it must receive from (obj, res), or None when it does not apply)"""
    def c_self(self):
        log.append(("self", self))

    def c_self1(self, res):
        log.append(("self1", self, res))

    def c_self2(self, a, b):
        log.append(("self2", self, a, b))

    def c_self3(self, a, b, c):
        log.append(("self3", self, a, b, c))

    def c_self4(self, a, b, c, d):
        log.append(("self4", self, a, b, c, d))

    def c_self6(self, a, b, c, d, e, f):
        log.append(("self6", self, a, b, c, d, e, f))

    def c_six(a, b, c, d, e, f):
        log.append(("six", a, b, c, d, e, f))

    @functools.wraps(c_self3)
    def c_wrapped(self, *args):
        return c_self3(self, *args)

    def c_self2s(self, a, b, *_):
        log.append(("self2s", self, a, b) + _)

    def c_res(res):
        log.append(("res", res))

    def c_ab(a, b):
        log.append(("ab", a, b))

    def c_abc(a, b, c):
        log.append(("abc", a, b, c))

    def c_ab_(a, b, *rest):
        log.append(("ab_", a, b) + rest)

    def c_star(*args):
        log.append(("star",) + args)

    def c_kw(res, *, k=5):
        log.append(("kw", res, k))

    def c_default(a, b=17):
        log.append(("default", a, b))

    h = Holder(log)
    T = tuple

    def whole(tag):
        return lambda o, r: (tag, r)

    def only(tag, ok):
        return lambda o, r: (tag,) + r if isinstance(r, T) and ok(len(r)) else None
    return {
        "self": (c_self, lambda o, r: ("self", o)),
        "self1": (c_self1, lambda o, r: ("self1", o, r)),
        "self2": (c_self2, lambda o, r: ("self2", o) + r if isinstance(r, T) and len(r) == 2 else None),
        "self3": (c_self3, lambda o, r: ("self3", o) + r if isinstance(r, T) and len(r) == 3 else None),
        "self2s": (c_self2s, lambda o, r: ("self2s", o) + r if isinstance(r, T) and len(r) >= 2 else None),
        "self4": (c_self4, lambda o, r: ("self4", o) + r if isinstance(r, T) and len(r) == 4 else None),
        "self6": (c_self6, lambda o, r: ("self6", o) + r if isinstance(r, T) and len(r) == 6 else None),
        "wrapped": (c_wrapped, lambda o, r: ("self3", o) + r if isinstance(r, T) and len(r) == 3 else None),
        "six": (c_six, only("six", lambda n: n == 6)),
        "res": (c_res, whole("res")),
        "lambda": (lambda r: log.append(("lambda", r)), whole("lambda")),
        "ab": (c_ab, only("ab", lambda n: n == 2)),
        "abc": (c_abc, only("abc", lambda n: n == 3)),
        "ab_": (c_ab_, only("ab_", lambda n: n >= 2)),
        "star": (c_star, lambda o, r: ("star",) + (r if isinstance(r, T) else (r,))),
        "kw": (c_kw, whole("kw") if False else (lambda o, r: ("kw", r, 5))),
        "default": (c_default, lambda o, r: ("default", r, 17) if not isinstance(r, T) else None if not r else ("default",) + r if len(r) == 2 else ("default", r, 17)),
        "bound": (h.one, whole("one")),
        "bound2": (h.two, only("two", lambda n: n == 2)),
        "object": (h, lambda o, r: ("call",) + (r if isinstance(r, T) else (r,))),
        "partial": (functools.partial(lambda t, r: log.append((t, r)), "part"), whole("part")),
        "partial2": (functools.partial(c_abc, "p"), lambda o, r: ("abc", "p") + r if isinstance(r, T) and len(r) == 2 else None),
        "append": (log.append, lambda o, r: r),
    }


NAMES = ["self", "self1", "self4", "self6", "six", "wrapped", "self2", "self3", "self2s", "res", "lambda", "ab", "abc", "ab_", "star", "kw", "default", "bound", "bound2", "object", "partial", "partial2", "append"]


def same(a, b):
    if type(a) is not type(b):
        return False
    if isinstance(a, tuple):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if hasattr(a, "equals"):
        return a.equals(b)
    if hasattr(a, "tolist"):
        return a.tolist() == b.tolist()
    return a is b or a == b


def make(vals, log):
    class Miner:
        def __init__(self):
            self.x = 3
            self.vals = dict(vals)

        def f(self, *args, **kw):
            log.append(("run f", args, tuple(sorted(kw.items()))))
            return self.vals["f"]

        def g(self, *args, **kw):
            log.append(("run g", args, tuple(sorted(kw.items()))))
            return self.vals["g"]

        def both(self):
            self.f(1)
            return self.g()

        @property
        def broken(self):
            raise AttributeError("not fitted")
    return Miner()


def expect(log, want, ctx, what):
    ctx.ok(len(log) == len(want) and all(same(a, b) for a, b in zip(log, want)), f"{what}: calls {log!r}, expected {want!r}")


def check_call(case, ctx):
    """one method, one callback, one result"""
    from skmine.callbacks import CallBacks
    name, val = case
    log = []
    r = value(val)
    m, other = make({"f": r, "g": None}, log), make({"f": r, "g": None}, log)
    cb, exp = callbacks_of(log)[name]
    e = exp(m, r)
    if e is None and name != "append":
        ctx.outcome("n/a")
        return
    ctx.eq(CallBacks(f=cb)(m), None, "result of attaching")
    expect(log, [], ctx, "callback called when attached")
    for k in range(3):
        log.clear()
        got = m.f(k, key=k)
        ctx.ok(got is r, f"result changed by the callback: {got!r}")
        expect(log, [("run f", (k,), (("key", k),)), e], ctx, f"call {k} of f")
        ctx.step()
    log.clear()
    other.f()
    m.g(1)
    expect(log, [("run f", (), ()), ("run g", (1,), ())], ctx, "methods and objects without callback")
    ctx.eq((m.x, other.x), (3, 3), "attributes")
    ctx.state(case)
    ctx.outcome(name)


def calls(q):
    def gen():
        for n in NAMES:
            for v in VALUES:
                yield [n, v]
    return gen


def check_stacks(case, ctx):
    """histories of attachments (several collections, several methods) and calls"""
    from skmine.callbacks import CallBacks
    ops, vf, vg = case
    log = []
    r = {"f": value(vf), "g": value(vg)}
    m = make(r, log)
    attached = {"f": [], "g": []}
    for k, o in enumerate(ops):
        if o[0] == "attach":
            cbs = callbacks_of(log)
            CallBacks(**{meth: cbs[n][0] for meth, n in o[1]})(m)
            for meth, n in o[1]:
                attached[meth].append(cbs[n][1])
            expect(log, [], ctx, "callback called when attached")
        else:
            meths = {"f": ["f"], "g": ["g"], "both": ["f", "g"]}[o[1]]
            want = []
            for meth in meths:
                want.append(("run " + meth, (1,) if o[1] == "both" and meth == "f" else (), ()))
                want += [e(m, r[meth]) for e in attached[meth]]
            got = getattr(m, o[1])()
            ctx.ok(got is r[meths[-1]], f"result {got!r}")
            expect(log, want, ctx, f"step {k} of {ops}")
            log.clear()
            ctx.step()
        ctx.state((ops[:k + 1], vf, vg))
    ctx.outcome((tuple(len(v) for v in attached.values())))


def stacks(q):
    names = ["self1", "res", "star", "self"]
    att = [["attach", [["f", n]]] for n in names] + [["attach", [["g", n]]] for n in names[:2]] + [["attach", [["f", a], ["g", b]]] for a in names[:3] for b in names[1:3]]
    run = [["call", x] for x in ("f", "g", "both")]

    def gen():
        for n in range(2, 5 if q else 6):
            for h in itertools.product(att + run, repeat=n):
                if h[-1][0] == "call" and h[0][0] == "attach":
                    yield [list(h), ["t2", "l2", "int"][n % 3], "t3"]
    return gen


def check_raise(case, ctx):
    """errors of the method and of the callback"""
    from skmine.callbacks import CallBacks
    who, err, val, shape = case
    log = []
    E = {"type": TypeError, "value": ValueError, "key": KeyError}[err]

    class M:
        def f(self):
            log.append("f")
            if who == "method":
                raise E("from the method")
            return value(val)

    def c_res(res):
        log.append("cb")
        if who == "callback":
            raise E("from the callback")

    def c_self1(self, res):
        c_res(res)

    def c_star(*args):
        c_res(args)
    m = M()
    CallBacks(f=dict(res=c_res, self1=c_self1, star=c_star)[shape])(m)
    try:
        m.f()
    except E as e:
        ctx.ok(f"from the {who}" in str(e), f"other error: {e}")
    else:
        ctx.fail("error lost")
    ctx.eq(log, ["f"] if who == "method" else ["f", "cb"], "calls")
    ctx.step()
    ctx.state(case)
    ctx.outcome(who)


def raises(q):
    def gen():
        yield from (list(c) for c in itertools.product(("method", "callback"), ("type", "value", "key"), VALUES, ("res", "self1", "star")))
    return gen


def bad_functions():
    def b1(self, res):
        self.x = 4

    def b2(self):
        self.x += 1

    def b3(self):
        self = None

    def b4(self, res):
        self.x.y = res

    def b5(self, res):
        if res:
            for i in range(3):
                self.vals[i] = res

    def b6(self): self.x=3

    def b7(self, res):
        y = self.x == 3
        self.x = y

    def b8(self, res):
        self["x"] = res

    def b9(self, res):
        self.a.b[3].c   =  res

    def b10(self, res): self.x -= 1

    def b11(self, res): self.x *= 2

    def b12(self, res): self.x /= 2

    def b13(self, res): self.x //= 2

    def b14(self, res): self.x **= 2

    def b15(self, res): self.x %= 2

    def b16(self, res): self.x |= {2}

    def b17(self, res): self.x &= 1

    def b18(self, res): self.x ^= 1

    def b19(self, res): self.x <<= 1

    def b20(self, res): self.x >>= 1

    def b21(self, res): self.x @= res

    def b22(self, *res):
        """a documented callback"""
        y = [r for r in res]
        while y:
            y.pop()
        else:
            self.x_2[0][1] += 3

    def b23(self, res):
        y = self.x = res
    return [b1, b2, b3, b4, b5, b6, b7, b8, b9, b10, b11, b12, b13, b14, b15, b16, b17, b18, b19, b20, b21, b22, b23]


def good_functions():
    def g1(self, res):
        return self.x == res

    def g2(self):
        y = self.x
        return y

    def g3(self, res):
        return self.x <= 3 or self.x >= 5 or self.x != 4

    def g4(res):
        x = res
        return x

    def g5(self, res):
        assert self.x == 3 and self.vals["f"] == res or True

    def g6(self, res):
        myself = self.x
        selfish = [self.x[i] for i in range(3) if self.x[i] == res]
        self_ = {"self": myself}
        return selfish, self_

    def g7(self, res):
        y = self.x << 2
        y = self.x - 1 == y or self.x / 2 >= y
        print(self.x, self.vals["f"], sep=self.x)
        return dict(x=self.x)[self.x] <= self.x[0] != self.vals

    ns = {}
    exec("def dyn(self, res):\n    return res\n", ns)
    return [g1, g2, g3, g4, g5, len, print, ns["dyn"], [].append, functools.partial(max, 1), dict, lambda self: self.x == 2, Holder([]), g6, g7]


def check_validation(case, ctx):
    from skmine.callbacks import CallBacks
    kind, i, pos = case
    ctx.state(case)
    ctx.step()
    ok = {"f": len, "both": len}
    if pos > 2:
        ok.update({n: len for n in ("__init__", "__repr__", "__str__", "__hash__", "__eq__", "__ne__", "__dir__", "__format__", "__lt__", "__le__")})
    if kind in ("bad", "notcallable", "unknown"):
        item = bad_functions()[i] if kind == "bad" else [3, None, "f", [len], {}][i] if kind == "notcallable" else len
        key = "g" if kind != "unknown" else ["nothing", "x", "vals", "broken", "F"][i]
        items = list(ok.items())
        items.insert(pos, (key, item))
        log = []
        m = make({"f": "r", "g": "r"}, log)
        m.both_before = m.f
        before = set(vars(m))
        try:
            c = CallBacks(**dict(items))
            if kind == "unknown":
                ctx.ok(True, "")
                c(m)
        except (TypeError, ValueError) as e:
            want = {"bad": ValueError, "notcallable": TypeError, "unknown": ValueError}[kind]
            ctx.ok(isinstance(e, want), f"{type(e).__name__} instead of {want.__name__}")
        else:
            ctx.fail(f"accepted: {kind} {i}")
        ctx.eq(set(vars(m)), before, "attributes set by a rejected collection")
    elif kind == "good":
        m = make({"f": "rr", "g": "r"}, [])
        CallBacks(f=good_functions()[i])
        if i not in (10,):
            c = CallBacks(f=good_functions()[i])
            ctx.eq(list(c), ["f"], "keys")
    else:
        c = CallBacks(f=len, g=max)
        ops = [lambda: c.__setitem__("f", print), lambda: c.__setitem__("h", 3), lambda: c.update(f=print), lambda: c.update({"k": 4}), lambda: c.setdefault("h", 3), lambda: c.pop("f"), lambda: c.popitem(),
               lambda: c.clear(), lambda: c.__delitem__("f"), lambda: c.__ior__({"f": 3})]
        try:
            ops[i]()
        except (NotImplementedError, TypeError):
            pass
        else:
            ctx.fail("modified in place without error")
        ctx.eq(dict(c), {"f": len, "g": max}, "content")
    ctx.outcome(kind)


def validations(q):
    def gen():
        for pos in (0, 1, 2, 5, 8, 9, 12):
            for i in range(23):
                yield ["bad", i, pos]
            for i in range(5):
                yield ["notcallable", i, pos]
                yield ["unknown", i, pos]
        for i in range(15):
            yield ["good", i, 0]
        for i in range(10):
            yield ["frozen", i, 0]
    return gen


# ---------------------------------------------------------------- on the miners

def check_miners(case, ctx):
    """a miner with callbacks gives what it gives without, and callbacks see what the miner returns"""
    from skmine.callbacks import CallBacks
    kind, D, meths = case
    import pandas as pd

    def new():
        if kind == "slim":
            from skmine.itemsets import SLIM
            return SLIM()
        if kind == "lcm":
            from skmine.itemsets import LCM
            return LCM(min_supp=1)
        from skmine.periodic import PeriodicPatternMiner
        return PeriodicPatternMiner()

    def data():
        if kind == "periodic":
            return pd.Series([e for _, e in D], index=[t for t, _ in D])
        return [list(t) for t in D]
    plain, m = new(), new()
    seen = []
    c = CallBacks(**{x: (lambda x: (lambda *r: seen.append((x, r))))(x) for x in meths})
    c(m)
    a, b = plain.fit(data()), m.fit(data())
    ctx.ok(a is plain and b is m, "fit does not return the miner")
    ra, rb = plain.transform(data()), m.transform(data())
    ctx.step(2)
    ctx.eq(rb.astype(str).values.tolist(), ra.astype(str).values.tolist(), "result with callbacks")
    got = [x for x, _ in seen if x in ("fit", "transform")]
    ctx.eq(got, [x for x in ("fit", "transform") if x in meths], "methods seen")
    for x, r in seen:
        if x == "fit":
            ctx.ok(len(r) == 1 and r[0] is m, "value seen after fit")
        if x == "transform":
            ctx.ok(len(r) == 1 and r[0] is rb, "value seen after transform")
        if x == "evaluate":
            ctx.ok(len(r) >= 2, f"values seen after evaluate: {r!r}")
    if "evaluate" in meths and kind == "slim" and len(plain.codetable_) > len({i for t in D for i in t}):
        ctx.ok(any(x == "evaluate" for x, _ in seen), "no evaluation seen")
    ctx.state(case)
    ctx.outcome((kind, len(rb)))


def miners(q):
    rows = ["ab", "abc", "c", "bc"]
    ms = {"slim": ["fit", "transform", "evaluate", "generate_candidates"], "lcm": ["fit", "transform"], "periodic": ["fit", "transform"]}

    def gen():
        for n in (2, 3) if q else (2, 3, 4):
            for D in itertools.combinations_with_replacement(rows, n):
                for sub in itertools.chain.from_iterable(itertools.combinations(ms["slim"], k) for k in range(1, 5)):
                    yield ["slim", list(D), list(sub)]
                for sub in (["fit"], ["transform"], ["fit", "transform"]):
                    yield ["lcm", list(D), sub]
        for ts in itertools.combinations(range(8), 5):
            yield ["periodic", [[t, "a"] for t in ts], ["fit", "transform"]]
    return gen


def check_prints(case, ctx):
    """mdl_prints says when the compression improves, and how many candidates come"""
    import contextlib
    import io
    from skmine.base import MDLOptimizer
    from skmine.callbacks import mdl_prints
    cur, new, extra, ncand = case

    class M(MDLOptimizer):
        data_size_, model_size_ = cur
        verbose = True

        def evaluate(self, candidate=None):
            return tuple(new) + (("more",) * extra)

        def generate_candidates(self):
            return [(i,) for i in range(ncand)]
    m = M()
    mdl_prints(m)
    out = io.StringIO()
    with contextlib.redirect_stdout(out):
        got = m.evaluate("c")
    ctx.step(2)
    ctx.eq(got, tuple(new) + (("more",) * extra), "result of evaluate")
    gain = sum(cur) - sum(new)
    text = out.getvalue()
    if gain > 0.011:
        ctx.ok(f"{new[0]:.2f}" in text and f"{new[1]:.2f}" in text and text.index(f"{new[0]:.2f}") <= text.index(f"{new[1]:.2f}"), f"printed {text!r}")
        ctx.eq(text.count("\n"), 1, "lines printed")
    elif gain < 0.005:
        ctx.eq(text, "", "printed")
    out = io.StringIO()
    with contextlib.redirect_stdout(out):
        c = m.generate_candidates()
    ctx.eq(c, [(i,) for i in range(ncand)], "candidates")
    ctx.ok(out.getvalue().split()[:1] == [str(ncand)] and out.getvalue().count("\n") == 1, f"printed {out.getvalue()!r}")
    ctx.eq((m.data_size_, m.model_size_), tuple(cur), "sizes of the miner")
    ctx.state(case)
    ctx.outcome(bool(text))


def prints(q):
    vals = [0.0, 1.0, 1.5, 2.0, 3.0, 3.5, 10.25]

    def gen():
        for a, b, c, d in itertools.product(vals, repeat=4):
            yield [[a, b], [c, d], int(a + d) % 3, int(b + c) % 4]
        for e in (0.0, 0.003, 0.012, 0.0145, 0.0199, 0.03, 0.05, 0.5):
            yield [[5.0, 5.0], [5.0 - e, 5.0], 0, 2]
            yield [[5.0, 5.0], [5.0, 5.0 - e], 0, 2]
            yield [[5.0, 5.0], [5.0, 5.0 + e], 0, 2]
            for big in (123456.75, 2.0 ** 30):
                yield [[big, big / 2], [big - e, big / 2], 1, 1000]
                yield [[big, big / 2], [big + 7, big / 2 - 7 - e], 0, 12345]
                yield [[big, big / 2], [big + 7 + e, big / 2 - 7], 0, 0]
                yield [[-big, big / 2], [-big - e, big / 2], 2, 0]
    return gen


def spaces(tier):
    q = tier == "quick"
    return [Space("prints", prints(q), check_prints, "all current and new sizes among 7 values"),
            Space("calls", calls(q), check_call, "23 kinds of callbacks x 28 results x 3 calls"),
            Space("stacks", stacks(q), check_stacks, "all histories of <=4 (5) attachments and calls over two methods, one of which is also called by another"),
            Space("raises", raises(q), check_raise, "3 errors x raised by method or callback x 28 results x 3 kinds of callbacks"),
            Space("validation", validations(q), check_validation, "functions which modify self, objects which are not callable, unknown methods at each position; all in place modifications"),
            Space("miners", miners(q), check_miners, "SLIM, LCM and PeriodicPatternMiner on all databases of 2-3 (4) transactions, with every subset of their methods")]
