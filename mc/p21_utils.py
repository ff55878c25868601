"""P21: the set, graph, array and validation utilities compute what they announce, for every input, and leave it alone."""
import itertools

from mc.core import Space

PROPERTY = "P21"
ASSUMPTIONS = ["graphs given to bron_kerbosch are symmetric, without self-loops", "arrays of integers, floats without NaN, or booleans"]


def itemsets_of(n):
    return [frozenset(c) for k in range(n + 1) for c in itertools.combinations(range(n), k)]


def check_filter(case, ctx):
    from skmine.utils import filter_maximal, filter_minimal
    sets, kind = case
    conv = {"frozenset": frozenset, "set": set}[kind]
    fam = [frozenset(s) for s in sets]
    for f, better in ((filter_maximal, lambda a, b: a > b), (filter_minimal, lambda a, b: a < b)):
        given = [conv(s) for s in fam]
        src = iter(given) if len(fam) % 2 else given
        got = [frozenset(s) for s in f(src)]
        ctx.step()
        want = {s for s in fam if not any(better(o, s) for o in fam)}
        ctx.eq(set(got), want, f"{f.__name__}")
        if len(set(fam)) == len(fam):
            ctx.eq(len(got), len(want), f"number of itemsets of {f.__name__}")
        ctx.eq([frozenset(s) for s in given], fam, "input")
        ctx.eq([len(s) for s in got], sorted(len(s) for s in got), f"order of {f.__name__}")
        ctx.outcome((f.__name__, len(got)))
    ctx.state(case)


def filters(q):
    def gen():
        s3 = itemsets_of(3)
        for n in range(9):
            for fam in itertools.combinations(s3, n):
                for kind in ("frozenset", "set"):
                    yield [[sorted(s) for s in fam], kind]
                    yield [[sorted(s) for s in fam[::-1]], kind]
        for n in range(1, 5):
            for fam in itertools.product(s3, repeat=n):
                yield [[sorted(s) for s in fam], "set" if n % 2 else "frozenset"]
        s4 = itemsets_of(4)
        for n in range(3, 7 if q else 10):
            for fam in itertools.combinations(s4, n):
                yield [[sorted(s) for s in fam], "frozenset"]
        for n in (20, 64, 100, 130):          # many itemsets, long itemsets
            for fam in ([list(range(i)) for i in range(n)], [[j for j in range(n // 4) if j != i % (n // 4)] for i in range(n)], [[i, i + 1] for i in range(n)] + [[i] for i in range(n)],
                        [list(c) for c in itertools.combinations(range(9), 4)] + [list(c) for c in itertools.combinations(range(9), 3)], [list(range(i, i + 1 + i % 7)) for i in range(n)],
                        [[0, j, k] for j in range(1, n // 4) for k in range(j + 1, n // 4)] + [[j, k] for j in range(1, n // 4) for k in range(j + 1, n // 4)] + [[n]]):
                yield [fam, "frozenset"]
                yield [fam[::-1], "set"]
    return gen


def check_cliques(case, ctx):
    from skmine.utils import bron_kerbosch
    n, edges, names, conv = case
    if edges == "complete":                       # too many steps to list: the search goes down the whole clique first
        g = {i: [j for j in range(n) if j != i] for i in range(n)}
        ctx.eq(sorted(next(iter(bron_kerbosch(g)))), list(range(n)), "first clique of a complete graph")
        ctx.step()
        ctx.state(case)
        return
    lab = (lambda i: f"{chr(97 + i % 26)}{i}") if names else (lambda i: i)
    mk = {"list": list, "set": set, "dict": lambda x: {k: {} for k in x}}[conv]
    adj = {i: {j for e in edges for j in e if i in e and j != i} for i in range(n)}
    g = {lab(i): mk([lab(j) for j in sorted(adj[i])]) for i in range(n)}
    import copy
    before = copy.deepcopy(g)
    got = list(bron_kerbosch(g))
    ctx.step()
    ctx.eq(g, before, "graph after the call")
    want = set()
    if n > 10:
        import networkx as nx
        big = nx.Graph([tuple(e) for e in edges])
        want = {frozenset(map(lab, c)) for c in nx.find_cliques(big) if len(c) > 2}
    for k in range(3, n + 1 if n <= 10 else 0):
        for c in itertools.combinations(range(n), k):
            if all(b in adj[a] for a, b in itertools.combinations(c, 2)) and not any(all(x in adj[v] for x in c) for v in range(n) if v not in c):
                want.add(frozenset(map(lab, c)))
    ctx.eq(sorted(map(sorted, got)), sorted(map(sorted, want)), "maximal cliques")
    ctx.eq(sorted(map(sorted, bron_kerbosch(g))), sorted(map(sorted, want)), "maximal cliques, second call")
    ctx.state(case)
    ctx.outcome(tuple(sorted(map(len, want))))


def cliques(q):
    def gen():
        i = 0
        for n in range(0, 7):
            pairs = list(itertools.combinations(range(n), 2))
            for m in range(2 ** len(pairs)):
                i += 1
                yield [n, [list(p) for k, p in enumerate(pairs) if m >> k & 1], i % 2, ["list", "set", "dict"][i % 3]]
        for n in range(7, 14 if q else 16):                      # large cliques: complete graphs without some edges
            full = [list(p) for p in itertools.combinations(range(n), 2)]
            for drop in ([], [[0, 1]], [[0, n - 1]], [[0, 1], [0, 2]], [[0, 1], [2, 3]], [[0, 1], [2, 3], [4, 5]], [[0, 1], [1, 2], [0, 2]], [[0, k] for k in range(3, n)],
                         [[a, b] for a in range(n // 2) for b in range(n // 2 + 1, n)]):
                i += 1
                yield [n, [e for e in full if e not in drop], i % 2, ["list", "set", "dict"][i % 3]]
        for k in (3, 4, 5, 6):
            for m in (2, 3, 7, 12, 20, 33, 50):                  # many cliques: apart, in a chain sharing a vertex or an edge
                for shared in (0, 1, 2):
                    edges = [[a + j * (k - shared), b + j * (k - shared)] for j in range(m) for a, b in itertools.combinations(range(k), 2)]
                    i += 1
                    yield [max(map(max, edges)) + 1, [e for j, e in enumerate(edges) if e not in edges[:j]], i % 2, ["list", "set", "dict"][i % 3]]
        for n in range(14, 23):
            yield [n, "complete", 0, "list"]
        for parts in ([3, 3, 3], [3, 3, 3, 3], [2, 2, 2, 2, 2], [1, 4, 2, 3], [2] * 6):   # complete multipartite: many overlapping maximal cliques
            part = [p for p, c in enumerate(parts) for _ in range(c)]
            i += 1
            yield [len(part), [[a, b] for a, b in itertools.combinations(range(len(part)), 2) if part[a] != part[b]], i % 2, ["list", "set", "dict"][i % 3]]
    return gen


def check_intersect(case, ctx):
    import numpy as np
    from skmine.utils import intersect2d
    a, b, dtype = case
    w = len((a + b)[0])
    A, B = (np.array(x, dtype=dtype).reshape(-1, w) for x in (a, b))
    A0, B0 = A.copy(), B.copy()
    rows = sorted(set(map(tuple, A.tolist())) & set(map(tuple, B.tolist())))
    got, i, j = intersect2d(A, B)
    ctx.step(2)
    ctx.eq([tuple(r) for r in got.tolist()], rows, "common rows")
    ctx.eq(got.shape, (len(rows), w), "shape")
    ctx.eq(list(map(int, i)), [list(map(tuple, A.tolist())).index(r) for r in rows], "indices in the first array")
    ctx.eq(list(map(int, j)), [list(map(tuple, B.tolist())).index(r) for r in rows], "indices in the second array")
    only = intersect2d(A.tolist() if len(a) else A, B, return_indices=False)
    ctx.eq([tuple(r) for r in only.tolist()], rows, "common rows without indices")
    ctx.ok((A == A0).all() and (B == B0).all(), "input modified")
    ctx.state(case)
    ctx.outcome((len(rows), w))


def intersects(q):
    def gen():
        r2 = [[0, 1], [1, 0], [1, 1], [0, 2]]
        for n in range(4):
            for m in range(4):
                if n + m == 0:
                    continue
                for a in itertools.product(r2, repeat=n):
                    for b in itertools.product(r2, repeat=m):
                        yield [[list(r) for r in a], [list(r) for r in b], "int64" if (n + m) % 2 else "float64"]
        r1 = [[0], [1], [2]]
        r3 = [[0, 0, 1], [0, 1, 0], [1, 0, 0], [0, 0, 2]]
        for rs in (r1, r3):
            for a in itertools.product(rs, repeat=2):
                for b in itertools.product(rs, repeat=3):
                    yield [[list(r) for r in a], [list(r) for r in b], "int32"]
        big = [[2 ** 53, 2 ** 53 + 1], [2 ** 53 + 1, 2 ** 53], [2 ** 53 + 2, 2 ** 53], [-2 ** 63, 2 ** 63 - 1]]
        small = [[0, 255], [255, 0], [254, 1], [127, 128]]
        neg = [[-1, 0], [0, -1], [-2, 5], [-10, 10]]
        frac = [[0.1, 0.2], [0.1, 0.30000000000000004], [0.1, 0.3], [-0.5, 1e300]]
        text = [["a", "b"], ["b", "a"], ["ab", ""], ["a", "10"]]
        for rs, dt in ((big, "int64"), (small, "uint8"), (neg, "int16"), (frac, "float64"), (text, "U2"), ([[True, False], [False, True], [True, True]], "bool")):
            for n, m in ((1, 1), (2, 2), (1, 3), (3, 2)):
                for a in itertools.product(rs, repeat=n):
                    for b in itertools.product(rs, repeat=m):
                        yield [[list(r) for r in a], [list(r) for r in b], dt]
        for n in (10, 64, 100, 255, 256, 257, 1000, 3000):
            for w in (1, 2, 5, 9):
                yield [[[(i * j + i) % 97 for j in range(w)] for i in range(n)], [[(3 * i * j + 2 * i) % 97 for j in range(w)] for i in range(n // 2)], "int64"]
    return gen


def check_window(case, ctx):
    import numpy as np
    from skmine.utils import sliding_window_view
    shape, window, axis, order = case
    n = 1
    for s in shape:
        n *= s
    x = np.arange(n).reshape(shape)
    if order == "F":
        x = np.asfortranarray(x)
    elif order == "step":
        x = np.arange(2 * n).reshape(shape[:-1] + [shape[-1] * 2])[..., ::2]
    x0 = x.copy()
    win = tuple(window) if isinstance(window, list) else (window,)
    axes = tuple(range(len(shape))) if axis is None else tuple(axis) if isinstance(axis, list) else (axis,)
    ok = len(win) == len(axes) and all(-len(shape) <= a < len(shape) for a in axes) and all(w >= 0 for w in win)
    trimmed = list(shape)
    if ok:
        for a, w in zip(axes, win):
            if trimmed[a] < w:
                ok = False
                break
            trimmed[a] -= w - 1
    try:
        v = sliding_window_view(x, tuple(window) if isinstance(window, list) else window, axis=tuple(axis) if isinstance(axis, list) else axis)
    except (ValueError, np.AxisError):
        ctx.ok(not ok, f"rejected")
        ctx.step()
        ctx.outcome("rejected")
        ctx.state(case)
        return
    ctx.ok(ok, "accepted")
    ctx.eq(v.shape, tuple(trimmed) + win, "shape")
    for k, idx in enumerate(np.ndindex(*v.shape)):
        if v.size > 20000 and k % (v.size // 5000):
            if k > 10 ** 6:
                break
            continue
        src = list(idx[:len(shape)])
        for a, o in zip(axes, idx[len(shape):]):
            src[a] += o
        ctx.eq(int(v[idx]), int(x[tuple(src)]), f"window value at {idx}")
    ctx.ok(not v.flags.writeable, "the view can be written")
    ctx.ok(type(v) is np.ndarray, "type of the view")
    ctx.ok((x == x0).all(), "input modified")

    class Sub(np.ndarray):
        pass
    again = (tuple(window) if isinstance(window, list) else window, tuple(axis) if isinstance(axis, list) else axis)
    u = sliding_window_view(x.view(Sub), *again)
    ctx.ok(type(u) is np.ndarray and u.shape == v.shape, "subclasses are passed through")
    u = sliding_window_view(x.view(Sub), *again, subok=True)
    ctx.ok(type(u) is Sub and u.shape == v.shape and not u.flags.writeable, "subok")
    u = sliding_window_view(x.tolist(), *again) if len(shape) == 1 and 0 < n < 400 else v
    ctx.ok(u.shape == v.shape and (u == v).all(), "windows of a list")
    if v.size and v.size < 20000:
        u = sliding_window_view(x, *again, writeable=True)
        ctx.ok(u.flags.writeable and not (u != v).any(), "writeable")
        at = tuple(s - 1 for s in u.shape)
        src = list(at[:len(shape)])
        for a, o in zip(axes, at[len(shape):]):
            src[a] += o
        u[at] = -5
        ctx.eq(sorted(x.ravel().tolist()), sorted([int(z) for i, z in np.ndenumerate(x0) if i != tuple(src)] + [-5]), "array after a write in a window")
        ctx.eq(int(x[tuple(src)]), -5, "cell after a write in a window")
    if v.size:
        ctx.ok(np.shares_memory(v, x), "not a view")
    ctx.step()
    ctx.state(case)
    ctx.outcome((v.shape))


def windows(q):
    def gen():
        for n in range(0, 7):
            for w in range(-1, 8):
                for o in ("C", "step"):
                    if n or o == "C":
                        yield [[n], w, None, o]
                        yield [[n], [w], 0, o]
                        yield [[n], w, -1, o]
                        yield [[n], w, 1, o]
                for w2 in range(0, 4):
                    yield [[n], [w, w2], [0, 0], "C"]
                    yield [[n], [w, w2], None, "C"]
        m = 4 if q else 5
        for a, b in itertools.product(range(1, m + 1), repeat=2):
            for w in range(0, m + 1):
                for o in ("C", "F", "step"):
                    for ax in (0, 1, -1, -2, None, 2):
                        yield [[a, b], w, ax, o]
                    for w2 in range(0, m + 1):
                        for ax in (None, [0, 1], [1, 0], [-1, 0], [1, 1]):
                            yield [[a, b], [w, w2], ax, o]
        for shape in itertools.product(range(1, 4), repeat=3):
            for ax in (0, 1, 2, -1, -3, None, 3):
                for w in range(0, 4):
                    yield [list(shape), w, ax, ("C", "F", "step")[w % 3]]
            for ax in ([0, 1], [2, 0], [-1, 1], [0, 0], [2, 2]):
                for w in itertools.product(range(1, 4), repeat=2):
                    yield [list(shape), list(w), ax, "C"]
            for w in itertools.product(range(1, 4), repeat=3):
                for ax in (None, [2, 1, 0], [0, 2, 0]):
                    yield [list(shape), list(w), ax, "F"]
        for shape, w, ax in (([300], 7, None), ([300], [7, 5], [0, 0]), ([40, 30], [9, 11], None), ([40, 30], [9, 11], [1, 0]), ([6, 7, 8], [3, 2, 5], [2, 0, 1]), ([70000], 65530, 0)):
            yield [shape, w, ax, "C"]
    return gen


def check_args(case, ctx):
    """the checks of parameters accept exactly the announced values"""
    import numpy as np
    from skmine import utils
    what, i = case
    ctx.step()
    ctx.state(case)
    if what == "supp":
        v, rel, absolute = MIN_SUPP[i]
        for flag, want in ((True, absolute), (False, rel)):
            try:
                utils._check_min_supp(v, accept_absolute=flag)
                got = None
            except (ValueError, TypeError) as e:
                got = type(e)
            ctx.eq(got, want, f"_check_min_supp({v!r}, accept_absolute={flag})")
    elif what == "growth":
        v, ok = GROWTH[i]
        try:
            ctx.eq(utils._check_growth_rate(v), v, "growth rate")
            got = True
        except ValueError:
            got = False
        ctx.eq(got, ok, f"_check_growth_rate({v!r})")
    elif what == "seed":
        s = [0, 1, 2 ** 31, np.int64(5), np.int32(7), np.uint8(9)][i]
        a, b = utils._check_random_state(s), utils._check_random_state(s)
        ref = np.random.RandomState(int(s))
        x = ref.randint(1000, size=5).tolist()
        ctx.eq((a.randint(1000, size=5).tolist(), b.randint(1000, size=5).tolist()), (x, x), "draws")
    elif what == "rs":
        r = np.random.RandomState(3)
        ctx.ok(utils._check_random_state(r) is r, "instance replaced")
        g = utils._check_random_state([None, np.random][i])
        np.random.seed(4)
        x = g.randint(1000, size=5).tolist()
        np.random.seed(4)
        ctx.eq(np.random.randint(1000, size=5).tolist(), x, "global state")
    elif what == "badseed":
        try:
            utils._check_random_state(["a", 1.5, [3], object()][i])
        except ValueError:
            return
        ctx.fail("accepted")
    ctx.outcome(what)


V, T = ValueError, TypeError
MIN_SUPP = [(1, V, None), (5, V, None), (10 ** 9, V, None), (0, V, V), (-1, V, V), (0.0, None, None), (0.5, None, None), (1.0, None, None), (1e-12, None, None), (-0.1, V, V), (1.0000001, V, V), (1 + 2 ** -52, V, V), (-5e-324, V, V), (5e-324, None, None), (1 - 2 ** -53, None, None), (2 ** 70, V, None), (-2 ** 70, V, V), (-1e-12, V, V),
            (2.0, V, V), ("1", T, T), (None, T, T), ([1], T, T)]
GROWTH = [(1, False), (1.0, False), (0.5, False), (-2, False), (0, False), (1.0000001, True), (1 + 2 ** -52, True), (1 - 2 ** -53, False), (float('-inf'), False), (2 ** 70, True), (float('nan'), False), (2, True), (1.2, True), (10 ** 6, True), (float("inf"), True)]


def args(q):
    def gen():
        for k, n in (("supp", len(MIN_SUPP)), ("growth", len(GROWTH)), ("seed", 6), ("rs", 2), ("badseed", 4)):
            for i in range(n):
                yield [k, i]
    return gen


def check_data(case, ctx):
    """_check_D / _check_D_y: conversion to a positional frame, rejection of missing and infinite values"""
    import numpy as np
    import pandas as pd
    import scipy.sparse
    from skmine.utils import _check_D_y
    kind, cells, shape, y, opt = case
    val = {"0": 0.0, "1": 1.0, "n": np.nan, "i": np.inf, "m": -np.inf, "2": 2.5}
    a = np.array([val[c] for c in cells]).reshape(shape)
    X = {"array": a, "frame": pd.DataFrame(a, index=[7 * i % 5 + 3 for i in range(shape[0])], columns=[f"c{j}" for j in range(shape[1])]), "sparse": None}[kind]
    if kind == "sparse":
        X = scipy.sparse.csr_matrix(a)
    yv = {"none": None, "series": pd.Series(range(shape[0])), "array": np.arange(shape[0]), "list": list(range(shape[0]))}[y]
    pd.options.mode.use_inf_as_na = opt
    try:
        try:
            D, y2 = _check_D_y(X, yv)
            err = None
        except (TypeError, ValueError) as e:
            err = type(e)
        ctx.step()
        ctx.eq(pd.options.mode.use_inf_as_na, opt, "option of pandas")
    finally:
        pd.options.mode.use_inf_as_na = False
    want = ValueError if shape[1] == 0 or set(cells) & set("nim") else TypeError if y == "list" else None
    ctx.eq(err, want, "error")
    ctx.state(case)
    ctx.outcome((kind, want))
    if err:
        return
    ctx.eq(np.asarray(D).tolist(), a.tolist(), "values")
    ctx.eq(list(D.index), list(range(shape[0])), "index")
    ctx.eq(list(D.columns), list(X.columns) if kind == "frame" else list(range(shape[1])), "columns")
    if kind == "frame":
        ctx.eq(list(X.index), [7 * i % 5 + 3 for i in range(shape[0])], "index of the input")
    ctx.ok(y2 is yv, "labels")


def datas(q):
    def gen():
        for kind in ("array", "frame", "sparse"):
            for shape in ([1, 1], [2, 1], [1, 2], [2, 2], [3, 1]):
                n = shape[0] * shape[1]
                for cells in itertools.product("01nim" if n < 4 else "0ni", repeat=n):
                    for y in ("none", "series", "array", "list"):
                        yield [kind, "".join(cells), shape, y, False]
                    if kind == "frame":
                        yield [kind, "".join(cells), shape, "none", True]
            if kind != "sparse":
                yield [kind, "", [2, 0], "none", False]
            for n in (100, 257, 3000, 20000, 70000):
                for bad in "1nim":
                    for at in (0, n // 2, n - 1):
                        yield [kind, "0" * at + bad + "2" * (n - at - 1), [n, 1], "series", False]
                        if n <= 3000:
                            yield [kind, "0" * at + bad + "2" * (n - at - 1), [1, n], "none", False]
                yield [kind, "012" * n, [n, 3], "array", False]
    return gen


def check_mask(case, ctx):
    import numpy as np
    import pandas as pd
    from skmine.utils import supervised_to_unsupervised
    y, shape = case
    D = pd.DataFrame({"a": range(len(y)), "b": [x * 2 for x in range(len(y))]}, index=[f"r{i % 2}" for i in range(len(y))])
    Y = np.array(y).reshape((-1, 1) if shape else (-1,))
    got = supervised_to_unsupervised(D, Y)
    ctx.step()
    ctx.state(case)
    ctx.eq(got.values.tolist(), [[i, 2 * i] for i, v in enumerate(y) if v], "rows")
    ctx.eq(list(got.index), [f"r{i % 2}" for i, v in enumerate(y) if v], "index")
    ctx.outcome(len(got))


def masks(q):
    def gen():
        for n in range(1, 7):
            for y in itertools.product((0, 1), repeat=n):
                for s in (0, 1):
                    yield [list(y), s]
                    yield [[bool(v) for v in y], s]
        for n in range(1, 5):
            for y in itertools.product((0, 2, -1, 7), repeat=n):
                yield [list(y), n % 2]
            for y in itertools.product((0.0, 0.5, -1.0, 1e-300, float("inf")), repeat=n):
                yield [list(y), n % 2]
        for n in (100, 257, 3000, 70000):
            yield [[i % 3 for i in range(n)], 0]
            yield [[i % 7 == 3 for i in range(n)], 1]
            yield [[0] * (n - 1) + [5], 1]
    return gen


def spaces(tier):
    q = tier == "quick"
    return [Space("filters", filters(q), check_filter, "all families of subsets of 3 items (any order for <=4, with repeats), families of <=6 (9) subsets of 4 items, chains, stars and antichains of up to 900 itemsets"),
            Space("cliques", cliques(q), check_cliques, "all graphs of <=6 nodes, complete graphs of 7..13 (15) nodes without some edges, the first clique of complete graphs of 14..22 nodes, up to 50 cliques apart or in chains, multipartite graphs"),
            Space("intersect2d", intersects(q), check_intersect, "all pairs of arrays of <=3 rows from 4, width 2; width 1 and 3; large, signed, fractional, textual and boolean cells, up to 3000 rows"),
            Space("sliding-window", windows(q), check_window, "all windows and axes of vectors of <=6, matrices of <=4x4 (5x5) and arrays of <=3x3x3, three memory layouts, lists, subclasses, writeable views; a few large arrays"),
            Space("arguments", args(q), check_args, "boundary values of supports, growth rates and seeds"),
            Space("data", datas(q), check_data, "all arrays, frames and sparse matrices of <=4 cells with missing and infinite values"),
            Space("masks", masks(q), check_mask, "all label vectors of <=6")]
