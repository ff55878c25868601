"""P11: MDLP discretisation: cut points are those of the entropy/MDL recursion, column by column, and transform applies them."""
import itertools
import math

from mc.core import Space

PROPERTY = "P11"
ASSUMPTIONS = ["finite numeric features, integer labels; ties between equal entropies (1e-9) and near-equal acceptance tests accept either outcome",
               "equal values with different labels may be ordered either way (documented effect of random_state)"]
EPS = 1e-9


def ent(ys):
    n = len(ys)
    c = {}
    for v in ys:
        c[v] = c.get(v, 0) + 1
    return -sum(k / n * math.log2(k / n) for k in c.values()), len(c)


def outcomes(ys, lo, hi, memo):
    """every set of cut indices the recursion may return on the slice [lo, hi) of a fixed order"""
    if (lo, hi) in memo:
        return memo[lo, hi]
    n = hi - lo
    cands = []
    for k in range(lo + 1, hi):
        if ys[k - 1] != ys[k]:
            cands.append((((k - lo) * ent(ys[lo:k])[0] + (hi - k) * ent(ys[k:hi])[0]) / n, k))
    res = set()
    if not cands:
        res.add(frozenset())
    else:
        best = min(cands)[0]
        e0, k0 = ent(ys[lo:hi])
        for e, k in cands:
            if e > best + EPS:
                continue
            e1, k1 = ent(ys[lo:k])
            e2, k2 = ent(ys[k:hi])
            delta = math.log2(3 ** k0 - 2) - (k0 * e0 - k1 * e1 - k2 * e2)
            margin = (e0 - e) - (math.log2(n - 1) + delta) / n
            if margin < EPS:
                res.add(frozenset())
            if margin > -EPS:
                for a in outcomes(ys, lo, k, memo):
                    for b in outcomes(ys, k, hi, memo):
                        res.add(a | b | {k})
    memo[lo, hi] = res
    return res


def orders(xs, ys):
    """every label sequence compatible with sorting by value"""
    groups = {}
    for x, y in zip(xs, ys):
        groups.setdefault(x, []).append(y)
    keys = sorted(groups)
    perms = [sorted(set(itertools.permutations(groups[k]))) if len(set(groups[k])) > 1 else [tuple(groups[k])] for k in keys]
    vals = [k for k in keys for _ in groups[k]]
    for combo in itertools.product(*perms):
        yield vals, [v for g in combo for v in g]


def possible(xs, ys):
    res = set()
    for vals, labs in orders(xs, ys):
        for cuts in outcomes(labs, 0, len(labs), {}):
            res.add(tuple(sorted({(vals[k - 1] + vals[k]) / 2 for k in cuts})))
    return res


def close(a, b):
    return len(a) == len(b) and all(abs(x - y) <= 1e-6 * max(1, abs(y)) for x, y in zip(a, b))


def check_cuts(got, xs, ys, ctx, what):
    got = [float(c) for c in got]
    ctx.ok(all(a < b for a, b in zip(got, got[1:])), f"{what}: cut points are not increasing: {got}")
    poss = possible(xs, ys)
    ctx.ok(any(close(got, p) for p in poss), f"{what}: cut points {got}, expected one of {sorted(poss)[:5]}")


def bins(cuts, xs):
    return [sum(1 for c in cuts if c < x) for x in xs]


def probes(cuts, xs):
    base = sorted(set(xs)) + [float(c) for c in cuts]
    out = set(base)
    for v in base:
        out |= {v - 1e-3, v + 1e-3}
    return sorted(out | {min(base) - 100, max(base) + 100})


def disc(**kw):
    from skmine.preprocessing import MDLPDiscretizer
    return MDLPDiscretizer(**kw)


def check_matrix(case, ctx):
    """cols: list of columns; y; container; column dtype; random state; n_jobs"""
    import numpy as np
    import pandas as pd
    cols, y, cont, dtype, seed, n_jobs = case
    n = len(y)
    X = np.array(cols, dtype=dtype).T
    names = [["c", "a", "b", "d"][j] if j < 4 else f"x{j}" for j in range(len(cols))]
    index = [10 - 3 * i for i in range(n)]
    yy = np.array(y)
    if cont == "df":
        X = pd.DataFrame(X, columns=names, index=index)
        keep = X.copy()
        yy = pd.Series(y, index=index)
    else:
        keep = X.copy()
    ykeep = list(yy)
    d = disc(random_state=seed, n_jobs=n_jobs)
    ctx.ok(d.fit(X, yy) is d, "fit does not return the estimator")
    ctx.step()
    ctx.state(case)
    keys = names if cont == "df" else list(range(len(cols)))
    ctx.eq(list(d.cut_points_), keys, "keys of the cut points")
    for j, k in enumerate(keys):
        check_cuts(d.cut_points_[k], cols[j], y, ctx, f"column {k}")
    view = d.discover()
    ctx.ok(list(view.index) == keys and all(list(view[k]) == list(d.cut_points_[k]) for k in keys), "discover differs from cut_points_")
    again = disc(random_state=seed, n_jobs=1).fit(X, yy)
    ctx.ok(all(list(again.cut_points_[k]) == list(d.cut_points_[k]) for k in keys), "not reproducible with the same random_state")
    # training data, then arbitrary data
    pr = [probes(d.cut_points_[k], cols[j]) for j, k in enumerate(keys)]
    m = max(map(len, pr))
    new = np.array([[p[i % len(p)] for p in pr] for i in range(m)])
    for rows in (np.array(cols, dtype=float).T, new, new[:1]):
        want = [bins([float(c) for c in d.cut_points_[k]], [float(v) for v in rows[:, j]]) for j, k in enumerate(keys)]
        got = d.transform(rows.copy())
        ctx.step()
        ctx.ok(isinstance(got, np.ndarray) and got.shape == rows.shape, "shape of the transformed array")
        ctx.eq([[int(v) for v in got[:, j]] for j in range(len(keys))], want, "bins of an array")
        if cont == "df":
            k = len(keys)
            for perm in itertools.permutations(range(k)) if k < 5 else [range(k), range(k)[::-1], [*range(1, k), 0], [*range(0, k, 2), *range(1, k, 2)]]:
                idx = [5 * i + 2 for i in range(len(rows))][::-1]
                df = pd.DataFrame(rows, columns=names, index=idx)[[names[p] for p in perm]]
                kd = df.copy()
                g = d.transform(df)
                ctx.step()
                ctx.eq(list(g.columns), [names[p] for p in perm], "columns of the transformed frame")
                ctx.eq(list(g.index), idx, "index of the transformed frame")
                for p in perm:
                    ctx.eq([int(v) for v in g[names[p]]], want[p], f"bins of column {names[p]} (columns {list(g.columns)})")
                ctx.ok(df.equals(kd), "transform modified its input")
            try:
                d.transform(pd.DataFrame(rows, columns=[c + "x" for c in names]))
            except ValueError:
                pass
            else:
                ctx.fail("unknown columns are accepted")
    # a fit_transform is a fit then a transform
    ft = disc(random_state=seed, n_jobs=n_jobs).fit_transform(X, yy)
    ref = d.transform(X)
    ctx.ok(np.array_equal(np.asarray(ft), np.asarray(ref)), "fit_transform differs from fit then transform")
    ctx.eq(list(yy), ykeep, "the labels were modified")
    ctx.ok(keep.equals(X) if cont == "df" else np.array_equal(keep, X), "fit or transform modified its input")
    # refit on other data
    d.fit(X[::-1] if cont != "df" else X.iloc[::-1], np.array(y)[::-1])
    for j, k in enumerate(keys):
        check_cuts(d.cut_points_[k], cols[j], y, ctx, f"refit, column {k}")
    ctx.outcome([list(map(float, d.cut_points_[k])) for k in keys])


def growth(n, k):
    """restricted growth strings: labelings up to renaming"""
    def rec(pre, m):
        if len(pre) == n:
            yield pre
            return
        for v in range(min(m + 1, k)):
            yield from rec(pre + [v], max(m, v + 1))
    yield from rec([], 0)


def exhaustive(q):
    def gen():
        for n in range(1, 8 if q else 9):
            for lab in growth(n, 3):
                for ties in itertools.product((0, 1), repeat=n - 1):
                    if n >= 7 and sum(ties) < n - 2:
                        continue
                    xs = [0]
                    for t in ties:
                        xs.append(xs[-1] + t)
                    yield [[xs], lab, "array", "float64", 0, 1]
    return gen


DTYPES = ["float64", "int64", "uint8", "int8", "float32", "int32"]
LABELS = [[0, 1, 2, 3], [3, 1, 0, 2], [-1, 1, 0, -7], [10, 1000, 20, 5]]


def runs(q):
    def gen():
        i = 0
        lens = (1, 3, 6) if q else (1, 2, 3, 6, 10)
        for r in range(1, 5 if q else 6):
            for ls in itertools.product(lens, repeat=r):
                for labs in growth(r, 3):
                    if any(a == b for a, b in zip(labs, labs[1:])):
                        continue
                    i += 1
                    lm = LABELS[i % 4]
                    y = [lm[v] for v, k in zip(labs, ls) for _ in range(k)]
                    n = len(y)
                    xs = [2 * j + 60 + (j >= ls[0]) * 20 for j in range(n)]        # separable, gap after the first run
                    zs = [(7 * j) % n for j in range(n)] if n % 7 else [(5 * j) % n for j in range(n)]
                    ws = [j // 4 for j in range(n)][::-1] if r <= 3 else [1] * n    # ties within blocks
                    if sum(len({y[j] for j in range(n) if ws[j] == w}) > 1 for w in set(ws)) > 2 or (
                            len(set(ws)) == 1 and n > 8):
                        ws = [n + (j // 2 if y[j] == y[j // 2 * 2] else -j) for j in range(n)]
                    cols = [xs, zs, ws]
                    yield [cols, y, ["df", "array"][i % 2], DTYPES[i // 2 % 6], [0, 42, None][i % 3] if i % 3 != 2 else 7, 1]
        for k in (2, 38, 39, 40, 41, 45, 60, 90):       # number of classes
            for m in (6, 20):
                y = [c for c in range(k) for _ in range(m)]
                yield [[list(range(k * m)), list(range(k * m))[::-1]], y, "df", "int64", 3, 1]
        # two-level structure on the values around half of the integer range
        for lo in (100, 120, 200):
            y = [0] * 8 + [1] * 8 + [0] * 8
            yield [[[lo + 2 * j for j in range(24)]], y, "array", "uint8", 0, 1]
            yield [[[min(lo, 170) - 100 + 2 * j for j in range(24)]], y, "df", "int8", 0, 1]
        yield [[[2 * j for j in range(20)], [j % 5 for j in range(20)]], [0] * 10 + [1] * 10, "df", "int64", 0, 2]
    return gen


def scale(q):
    def gen():
        i = 0
        for n in (30, 50, 64, 100, 127, 128, 129, 200, 255, 256, 257, 300, 600):       # rows; runs of equal length
            for run in (1, 5, 10, 25, 100):
                if n // run > 60:
                    continue
                i += 1
                k = 2 + i % 3
                y = [(j // run) % k for j in range(n)]
                yield [[list(range(n)), [n - 3 * j for j in range(n)]], [LABELS[i % 4][v] for v in y], ["df", "array"][i % 2], ["float64", "int64", "float32", "int32"][i % 4], i, 1]
        for k in range(1, 41, 3):                                                      # number of cut points
            y = [j // 30 % 2 if k % 2 else j // 30 % 3 for j in range(30 * (k + 1))]
            yield [[[2 * j for j in range(len(y))]], y, "array", "int64", 1, 1]
        for c in (5, 8, 9, 10, 11, 12, 16, 17, 33):                                     # columns
            n = 29
            yield [[[(j * (1 + v % 28)) % n * (v + 1) for j in range(n)] for v in range(c)], [j // 10 for j in range(n)], ["df", "array"][c % 2], "float64", 3, 1 + c % 2]
        y = [0] * 9 + [1] * 9 + [2] * 9
        for s in (1e-300, 1e-30, 1e-9, 1e-3, 0.1, 1 / 3, 1, 7, 1e6, 1e12, 1e100, 1e300):   # magnitude and offset of the values
            for o in (0, -13, 1000):
                yield [[[s * (j + o) for j in range(27)], [-s * (j + o) for j in range(27)]], y, ["df", "array"][int(o) % 2], "float64", 5, 1]
        for lo in (2 ** 31 - 14, 2 ** 33, 2 ** 52, -2 ** 40, -2 ** 31 - 14):
            yield [[[lo + j for j in range(27)]], y, "array", "int64", 5, 1]
        for dt, lo in (("uint16", 65480), ("int16", 32700), ("int16", -32768), ("uint32", 2 ** 32 - 60), ("int32", 2 ** 31 - 60), ("uint8", 200), ("int8", -128), ("float16", 10)):
            yield [[[lo + 2 * j for j in range(27)]], y, ["df", "array"][lo % 2], dt, 5, 1]
        for lab in ([0, 10 ** 6, 5], [-10 ** 9, 10 ** 9, 0], [2 ** 40, 2 ** 40 + 1, -1], [127, 128, 129], [255, 256, 257], [1, 0, -1]):
            yield [[[2 * j for j in range(27)]], [lab[v] for v in y], "df", "int64", 5, 1]
    return gen


def check_perm(case, ctx):
    """the rows come in every possible order: through the data, and through the shuffling by random_state"""
    import numpy as np
    xs, ys, order, via = case
    ctx.state((xs, ys))
    if via == "data":
        d = disc(random_state=1).fit(np.array([[xs[i]] for i in order]), np.array([ys[i] for i in order]))
    else:
        class RS(np.random.RandomState):
            def permutation(self, n):
                return np.array(order)
        d = disc(random_state=RS(0)).fit(np.array(xs, dtype=float).reshape(-1, 1), np.array(ys))
    ctx.step()
    check_cuts(d.cut_points_[0], xs, ys, ctx, f"order {order} via {via}")
    ctx.outcome((xs, ys, list(map(float, d.cut_points_[0]))))


def perms(q):
    sets = [([0, 1, 2, 3], [0, 0, 1, 1]), ([0, 1, 1, 2], [0, 0, 1, 1]), ([0, 0, 1, 1, 1], [0, 0, 1, 1, 1]),
            ([0, 0, 1, 1, 2], [0, 1, 1, 0, 1]), ([-5, -1, 0, 0.5, 3], [2, 2, 2, 0, 0])]
    if not q:
        sets += [([0, 0, 1, 1, 2, 2], [0, 0, 1, 1, 2, 2]), ([0, 1, 2, 2, 3, 4], [0, 0, 0, 1, 1, 1])]

    def gen():
        for xs, ys in sets:
            for o in itertools.permutations(range(len(xs))):
                for via in ("data", "rs"):
                    yield [xs, ys, list(o), via]
    return gen


def spaces(tier):
    q = tier == "quick"
    return [Space("columns", exhaustive(q), check_matrix, "every column of <=7 (8) rows (all tie patterns up to 6 rows) x every labeling by <=3 classes"),
            Space("runs", runs(q), check_matrix, "every sequence of <=4 (5) label runs with lengths in {1,3,6} ({1,2,3,6,10}), three columns each (separable, "
                  "shuffled, tied) x 6 dtypes x array/DataFrame x every column order at transform time; 2..90 classes; n_jobs 1 and 2",
                  timeout=200),
            Space("scale", scale(q), check_matrix, "30..600 rows, 1..40 cut points, up to 33 columns, values from 1e-300 to 1e300 and at the limits of "
                  "integer types, labels up to 2**40", timeout=300),
            Space("row-orders", perms(q), check_perm, "every order of the rows (4..5 (6) rows with ties), in the data and in the shuffle")]
