"""P19: generated datasets have the announced shape for every random outcome, are reproducible, and descriptions are exact."""
import itertools
import math

from mc.core import Space

PROPERTY = "P19"
ASSUMPTIONS = ["all random outcomes are enumerated at the interface of numpy's RandomState (binomial and choice); other draws come from its seeded generator"]


def nondet():
    import numpy as np

    class Nondet(np.random.RandomState):
        """a RandomState whose draws are decided by a script; every script is explored"""

        def __init__(self, script):
            super().__init__(0)
            self.script = script
            self.pos = 0
            self.log = []       # (choice, number of choices)

        def pick(self, k):
            c = self.script[self.pos] if self.pos < len(self.script) else 0
            self.pos += 1
            self.log.append((c, k))
            return c

        def binomial(self, n, p, size=None):
            if np.ndim(n) or size is None or np.ndim(p):
                return super().binomial(n, p, size)
            return np.array([self.pick(int(n) + 1) for _ in range(int(np.prod(size)))], dtype=int).reshape(size)

        def choice(self, a, size=None, replace=True, p=None):
            if replace or p is not None or size is None or np.ndim(size):
                return super().choice(a, size, replace, p)
            rest = list(range(a)) if np.ndim(a) == 0 else list(a)
            if size > len(rest):
                raise ValueError("Cannot take a larger sample than population when 'replace=False'")
            return np.array([rest.pop(self.pick(len(rest))) for _ in range(int(size))], dtype=int)
    return Nondet


def runs(make):
    """depth-first exploration of every script"""
    Nondet = nondet()
    script = []
    while True:
        r = Nondet(script)
        yield make(r), [c for c, _ in r.log]
        log = r.log
        while log and log[-1][0] + 1 >= log[-1][1]:
            log.pop()
        if not log:
            return
        script = [c for c, _ in log]
        script[-1] += 1


def well_formed(D, n, items, start, ctx, what):
    import numpy as np
    ctx.eq(len(D), n, f"number of transactions {what}")
    for t in D:
        t = list(t)
        ctx.ok(all(isinstance(i, (int, np.integer)) for i in t), f"items are not integers: {t!r} {what}")
        ctx.ok(all(start <= i < start + items for i in t), f"items {t} out of [{start}, {start + items}) {what}")
        ctx.ok(len(set(t)) == len(t), f"repeated item in {t} {what}")


def check_outcomes(case, ctx):
    from skmine.datasets import make_transactions
    n, items, density, start = case
    sizes = set()
    for D, script in runs(lambda r: make_transactions(n, items, density, r, start)):
        ctx.step()
        ctx.state((case, script))
        well_formed(D, n, items, start, ctx, f"with draws {script}")
        ctx.eq(list(D.index), list(range(n)), "index")
        sizes.update(len(t) for t in D)
        ctx.outcome((case, tuple(len(t) for t in D)))
    if n and items * density >= 1:
        ctx.ok(len(sizes) > 1, f"all transactions have size {sizes}")


def outcomes(q):
    def gen():
        for items in range(1, 5):
            for density in (0.1, 0.25, 0.5, 0.75, 0.99):
                for n in range(0, 3 if items > 2 else (4 if q else 5)):
                    if items == 4 and density > 0.6 and n > 1 and q:
                        continue
                    for start in (0, 7):
                        yield [n, items, density, start]
    return gen


def rows(D):
    return [[int(i) for i in t] for t in D]


def check_seeds(case, ctx):
    import numpy as np
    from skmine.datasets import make_transactions
    n, items, density, start, seed = case
    np.random.seed(5)
    before = np.random.get_state()
    D = make_transactions(n, items, density, seed, start)
    after = np.random.get_state()
    ctx.ok(before[0] == after[0] and (before[1] == after[1]).all() and before[2:] == after[2:], "global random state changed by a seeded call")
    ctx.step()
    ctx.state(case)
    well_formed(D, n, items, start, ctx, "")
    np.random.rand(7)
    ctx.eq(rows(make_transactions(n, items, density, seed, start)), rows(D), "second call with the same seed")
    ctx.eq(rows(make_transactions(random_state=np.random.RandomState(seed), n_transactions=n, n_items=items, density=density, item_start=start)),
           rows(D), "RandomState instance with the same seed")
    ctx.eq(rows(make_transactions(n, items, density, seed)), [[i - start for i in t] for t in rows(D)], "item_start shifts items")
    if density <= 0.5 and n >= 200:
        mean = sum(map(len, D)) / n
        sd = math.sqrt(items * density / 2 / n)
        ctx.ok(items * density - 0.5 - 6 * sd <= mean <= items * density + 6 * sd, f"average size {mean} for {items} items, density {density}")
        if density >= 0.2 and items * density >= 1:
            ctx.eq({i for t in rows(D) for i in t}, set(range(start, start + items)), "items in use")
    ctx.outcome((len(D), max(map(len, D), default=0)))


def seeds(q):
    def gen():
        for seed in range(6 if q else 40):
            for n in (0, 1, 2, 5, 30, 300):
                for items in (1, 2, 5, 10, 30):
                    for density in (0.05, 0.2, 0.5, 0.8, 0.99):
                        yield [n, items, density, [0, 3, -4][(seed + n) % 3], seed]
        for n, items, density in ((3000, 100, 0.3), (20000, 12, 0.4), (300, 1000, 0.5), (200, 5000, 0.2), (400, 700, 0.05), (5, 70000, 0.1), (1000, 257, 0.5), (256, 256, 0.25), (1025, 40, 0.9)):
            for start in (0, 1, 2 ** 31 - 5, -2 ** 33, 2 ** 53 + 1):
                for seed in (0, 123456789, 2 ** 32 - 1):
                    yield [n, items, density, start, seed]
    return gen


def check_classification(case, ctx):
    from skmine.datasets import make_classification
    n, items, k, weights, sep, shuffle, densities, seed = case
    kw = dict(n_samples=n, n_items_per_class=items, n_classes=k, class_sep=sep, random_state=seed)
    if weights:
        kw["weights"] = weights
    if densities:
        kw["densities"] = densities
    D, y = make_classification(shuffle=shuffle, **kw)
    ctx.step()
    ctx.state(case)
    ctx.eq((len(D), len(y)), (n, n), "number of samples and labels")
    ctx.eq(list(D.index), list(y.index), "index of samples and labels")
    lo, hi = math.floor(items * sep + 1e-9), math.ceil(items * sep - 1e-9)
    w = weights or [1 / k] * k
    for c in range(k):
        m = list(y).count(c)
        ctx.ok(abs(m - w[c] / sum(w) * n) < 1 + 1e-6, f"{m} samples of class {c}, weight {w[c]} of {n}")
    ctx.ok(set(y) <= set(range(k)), f"labels {set(y)}")
    for t, c in zip(rows(D), list(y)):
        ctx.ok(len(set(t)) == len(t), f"repeated item in {t}")
        ctx.ok(all(c * lo <= i < c * hi + items for i in t), f"items {t} of class {c}, items per class {items}, separation {sep}")
    D2, y2 = make_classification(shuffle=shuffle, **kw)
    ctx.eq((rows(D2), list(y2)), (rows(D), list(y)), "second call with the same seed")
    if shuffle:
        D3, y3 = make_classification(shuffle=False, **kw)
        ctx.eq(list(y3), sorted(y3), "labels without shuffling")
        ctx.eq(sorted(zip(rows(D3), list(y3))), sorted(zip(rows(D), list(y))), "samples with their labels, after shuffling")
        if n >= 20 and len(set(y)) > 1:
            ctx.ok(list(y) != sorted(y), "labels are not shuffled")
    if n >= 200 and densities and all(d <= 0.5 for d in densities):
        for c in range(k):
            ts = [t for t, l in zip(rows(D), list(y)) if l == c]
            mean = sum(map(len, ts)) / len(ts)
            sd = math.sqrt(items * densities[c] / 2 / len(ts))
            ctx.ok(items * densities[c] - 0.5 - 6 * sd <= mean <= items * densities[c] + 6 * sd, f"average size {mean} in class {c}, density {densities[c]}")
            if len(ts) * densities[c] < 30:
                continue
            ctx.eq((min(map(min, filter(None, ts))), max(map(max, filter(None, ts)))), (c * round(items * sep), c * round(items * sep) + items - 1) if lo == hi else
                   (min(map(min, filter(None, ts))), max(map(max, filter(None, ts)))), f"range of items of class {c}")
    ctx.outcome((n, k, sep))


def classifications(q):
    def gen():
        ws = {1: [None, [1.0]], 2: [None, [0.3, 0.7], [0.05, 0.95], [0.0, 1.0], [0.29, 0.71]], 3: [None, [0.2, 0.3, 0.5], [0.333, 0.333, 0.333], [0.01, 0.01, 0.98]], 4: [None]}
        for k, wl in ws.items():
            for w in wl:
                for n in (1, 2, 3, 7, 10, 25, 100):
                    for items in (1, 4, 10, 100):
                        for sep in (0.0, 0.1, 0.2, 0.5, 0.7, 0.9, 1.0):
                            for seed in range(1 if q else 6):
                                yield [n, items, k, w, sep, (n + items + k) % 3 != 0, None if n % 2 else [0.5, 0.2, 0.9, 0.4][:k], seed]
                for sep in (0.0, 0.2, 0.7, 1.0):
                    if not w or min(w) > 0.1:
                        yield [300, 10, k, w, sep, True, [0.5, 0.3, 0.2, 0.4][:k], 3]
                        yield [300, 10, k, w, sep, False, [0.3, 0.5, 0.4, 0.2][:k], 4]
        for k, w in ((3, [0.33] * 3), (3, [0.34, 0.33, 0.34]), (4, [0.26, 0.25, 0.25, 0.25]), (4, [0.248] * 4), (2, [0.5, 0.49]), (6, None), (7, None), (11, None), (3, None)):
            for n in (3, 10, 100, 101, 1000, 4999):
                for sep in (0.0, 0.07, 0.29, 0.57, 1.0):
                    yield [n, 100, k, w, sep, n % 2 == 0, [0.5, 0.3, 0.2, 0.4, 0.5, 0.4, 0.35, 0.25, 0.2, 0.45, 0.1][:k] if n >= 1000 else None, n + k]
        for n in (5001, 12000, 20000):
            yield [n, 20, 3, None, 0.5, True, None, 7]
            yield [n, 20, 2, [0.1, 0.9], 0.25, True, [0.5, 0.3], 8]
            yield [n, 300, 2, [0.25, 0.75], 0.29, True, [0.02, 0.03], 9]
    return gen


def check_errors(case, ctx):
    from skmine.datasets import make_classification, make_transactions
    which, kw = case
    try:
        {"t": make_transactions, "c": make_classification}[which](**kw)
    except (ValueError, AssertionError, TypeError):
        pass
    else:
        ctx.fail(f"accepted {kw}")
    ctx.state(case)
    ctx.step()
    ctx.outcome(which)


def errors(q):
    def gen():
        for d in (0.0, 1.0, -0.5, 1.5, 42, 0, 1):
            yield ["t", dict(n_transactions=4, n_items=3, density=d, random_state=0)]
            for k in (1, 2, 3):
                for j in range(k):
                    yield ["c", dict(n_samples=9, n_items_per_class=4, n_classes=k, densities=[0.5] * j + [d] + [0.4] * (k - j - 1), random_state=0)]
        for w in ([0.5], [0.5, 0.6], [0.2, 0.2], [0.3, 0.3, 0.4], [1.0]):
            yield ["c", dict(n_samples=10, n_items_per_class=4, weights=w, random_state=0)]
        for s in (-0.1, 1.1, 2):
            yield ["c", dict(n_samples=10, n_items_per_class=4, class_sep=s, random_state=0)]
        for k in (0, -1):
            yield ["c", dict(n_samples=10, n_items_per_class=4, n_classes=k, random_state=0)]
    return gen


# ---------------------------------------------------------------- descriptions

def check_describe(case, ctx):
    import pandas as pd
    from skmine.datasets.utils import describe
    ts, kind = case
    conv = {"list": list, "tuple": tuple, "set": frozenset}[kind]
    D = pd.Series([conv(t) for t in ts], index=range(10, 10 + 3 * len(ts), 3) if len(ts) % 2 else None, dtype=object)
    got = describe(D)
    ctx.step()
    ctx.state(case)
    n = len({i for t in ts for i in t})
    avg = sum(len(conv(t)) for t in ts) / len(ts)
    ctx.eq(set(got), {"n_items", "n_transactions", "avg_transaction_size", "density"}, "keys")
    ctx.eq((got["n_items"], got["n_transactions"]), (n, len(ts)), "counts")
    ctx.ok(abs(got["avg_transaction_size"] - avg) < 1e-9, f"average size {got['avg_transaction_size']}, expected {avg}")
    if n:
        ctx.ok(abs(got["density"] - avg / n) < 1e-9, f"density {got['density']}, expected {avg / n}")
    ctx.eq([conv(t) for t in ts], list(D), "input after describe")
    ctx.outcome((n, round(avg, 6)))


def describes(q):
    ts = [c for k in range(4) for c in itertools.combinations(range(3), k)]

    def gen():
        for n in range(1, 5 if q else 6):
            for D in itertools.product(ts, repeat=n):
                yield [[list(t) for t in D], ["list", "tuple", "set"][sum(map(len, D)) % 3]]
        for D in itertools.product([["a"], ["b", "x y"], [], ["a", "b"], ["zz", "a", 3]], repeat=3):
            yield [list(D), "list"]
        for n in (30, 101, 300, 1001, 5000, 20000):
            for kind in ("list", "tuple", "set"):
                yield [[[(i * 7 + j * j) % (n // 3) for j in range(i % 5)] for i in range(n)], kind]
                yield [[[i % 7] for i in range(n - 1)] + [[f"last{j}" for j in range(9)]], kind]
        for k in (255, 256, 257, 70000):
            yield [[list(range(k))], "list"]
            yield [[[k, -k], list(range(k)), []], "tuple"]
        yield [[[1, 1.5, "1", True, None, ("a",)], [2 ** 70, 2 ** 70 + 1]], "list"]
    return gen


def check_logs(case, ctx):
    import pandas as pd
    from skmine.datasets.utils import describe_logs
    evs, ts, kind = case
    unit = pd.Timedelta("90s")
    idx = [pd.Timestamp("2020-02-28 23:59:00") + t * unit for t in ts] if kind == "date" else ts
    got = describe_logs(pd.Series(evs, index=idx))
    ctx.step()
    ctx.state(case)
    by = {}
    for e, t in zip(evs, ts):
        by.setdefault(e, []).append(t)
    avg = sum(max(v) - min(v) for v in by.values()) / len(by)
    ctx.eq(got["n_events"], len(by), "number of events")
    ctx.ok(abs(got["avg_nb_points_per_event"] - len(evs) / len(by)) < 1e-9, f"points per event {got}")
    delta = got["avg_delta_per_event"] / unit if kind == "date" else got["avg_delta_per_event"]
    ctx.ok(abs(delta - avg) < 1e-6, f"average delta {delta}, expected {avg}")
    ctx.outcome((len(by), round(avg, 6)))


def logs(q):
    def gen():
        for n in range(1, 4 if q else 5):
            for evs in itertools.product("abc", repeat=n):
                for ts in itertools.product([0, 1, 5, 12], repeat=n):
                    yield [list(evs), list(ts), "date" if (sum(ts) + n) % 2 else "int"]
        for n in (40, 300, 3000, 70000):
            for k in (1, 7, 100, 1000):
                for kind in ("date", "int"):
                    yield [[f"event {i % k}" for i in range(n)], [(i * 7919) % 50021 for i in range(n)], kind]
                    yield [[i * i % k for i in range(n)], [i // 3 for i in range(n)][::-1], kind]
        yield [["a", "A", "a ", "", "nan", "NA"] * 3, list(range(18)), "int"]
    return gen


def spaces(tier):
    q = tier == "quick"
    return [Space("outcomes", outcomes(q), check_outcomes, "all outcomes of all random draws, <=4 items, <=2-4 transactions, 5 densities, 2 first items", timeout=300),
            Space("seeds", seeds(q), check_seeds, "6 (40) seeds x 6 sizes x 5 alphabets x 5 densities; up to 20000 transactions or 70000 items, first items beyond 32 and 53 bits"),
            Space("classification", classifications(q), check_classification, "7 sizes x 4 alphabets x 7 separations x 12 weight vectors over 1-4 classes; weights that do not add up to 1 exactly, 3..11 classes, up to 20000 samples"),
            Space("errors", errors(q), check_errors, "densities, weights, separations and numbers of classes out of range, at each position"),
            Space("describe", describes(q), check_describe, "all datasets of <=4 (5) transactions over 3 items, texts, up to 20000 transactions or 70000 items"),
            Space("describe-logs", logs(q), check_logs, "all logs of <=3 (4) lines over 3 events and 4 times, integers and dates; up to 70000 lines and 1000 events")]
