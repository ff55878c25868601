"""P10: emerging patterns: the borders delimit exactly the emerging itemsets and discover enumerates their interior."""
import itertools

from mc import dbs
from mc.core import Space

PROPERTY = "P10"
ASSUMPTIONS = ["binary target, both collections contain a non-empty transaction, min_growth_rate*min_supp <= 1",
               "emerging = relative support >= min_growth_rate*min_supp in the collection of the larger label and "
               "< min_supp in the other one; the left and right borders themselves are not enumerated by discover "
               "(pinned by the existing tests)"]

PARAMS = [[0.1, 2], [0.5, 1.5], [0.3, 3], [0.5, 2], [1 / 3, 2], [0.34, 1.01], [0.2, 1.2], [1 / 7, 3], [0.15, 5 / 3]]


def freq(itemset, db, ms):
    n = sum(1 for t in db if itemset <= t)
    return n >= 1 and n >= ms * len(db) - 1e-9


def interleave(pos, neg, how):
    rows = [(t, 0) for t in neg] , [(t, 1) for t in pos]
    if how == "neg_first":
        return rows[0] + rows[1]
    if how == "pos_first":
        return rows[1] + rows[0]
    out = []
    for a, b in itertools.zip_longest(*rows):
        out += [x for x in (a, b) if x is not None]
    return out


def targets(y, kind, index):
    import numpy as np
    import pandas as pd
    if kind == "list":
        return list(y)
    if kind == "array":
        return np.array(y)
    if kind == "bool":
        return np.array(y, dtype=bool)
    if kind == "series":
        return pd.Series(y, index=index)
    if kind == "category":
        return pd.Series([["drink", "food"][v] for v in y], index=index, dtype="category")
    if kind == "int59":
        return [[5, 9][v] for v in y]
    if kind == "negative":
        return np.array([[-3, -1][v] for v in y])
    if kind == "float":
        return np.array([[0.25, 1e9][v] for v in y])
    if kind == "upper":
        return np.array([["Z", "a"][v] for v in y])
    raise ValueError(kind)


def check(case, ctx):
    import pandas as pd
    from skmine.emerging import MBDLLBorder
    neg_d, pos_d, namer, params, how, ykind, n_jobs = case
    neg = dbs.name(dbs.structured(neg_d), namer)
    pos = dbs.name(dbs.structured(pos_d), namer)
    if not any(neg) or not any(pos):
        return
    rows = interleave(pos, neg, how)
    index = [3 * i + 1 for i in range(len(rows))] if how == "zip" else list(range(len(rows)))
    D = pd.Series([list(t) for t, _ in rows], index=index)
    y = targets([v for _, v in rows], ykind, index)
    keep = [list(t) for t in D]
    negs, poss = [frozenset(t) for t in neg], [frozenset(t) for t in pos]
    items = sorted({i for t in poss for i in t})
    for ms, g in params:
        m = MBDLLBorder(min_growth_rate=g, min_supp=ms, n_jobs=n_jobs)
        m.fit(D, y)
        ctx.step()
        ctx.state((case[:3], ms, g))
        borders = [([frozenset(x) for x in L], frozenset(R)) for L, R in m.borders_]
        subs = {frozenset(c) for _, R in borders for k in range(1, len(R) + 1) for c in itertools.combinations(R, k)}
        if len(items) <= 12:
            subs = {frozenset(c) for k in range(1, len(items) + 1) for c in itertools.combinations(items, k)}
        emerging = {x for x in subs if freq(x, poss, g * ms) and not freq(x, negs, ms)}
        inside = {x for x in subs if any(x <= R and any(e <= x for e in L) for L, R in borders)}
        if inside != emerging:
            ctx.fail(f"min_supp={ms} growth={g}: borders wrongly include {[sorted(x) for x in inside - emerging][:3]} "
                     f"and miss {[sorted(x) for x in emerging - inside][:3]}")
        for L, R in borders:
            for a in L:
                ctx.ok(not any(b < a for b in L) and L.count(a) == 1, f"left border is not minimal: {L}")
        strict = {x for x in subs if any(x < R and any(e < x for e in L) for L, R in borders)}
        longest = max([len(R) for _, R in borders], default=0)
        for size in (1, 2, 3, None) if longest < 6 else (1, 2, 3, None, 5, longest - 2, longest - 1, longest):
            got = list(m.discover() if size is None else m.discover(min_size=size))
            ctx.step()
            sets = set()
            for p in got:
                ctx.ok(len(set(p)) == len(p), f"repeated item in pattern {p}")
                sets.add(frozenset(p))
            want = {x for x in strict if len(x) >= (size or 3)}
            if sets != want:
                ctx.fail(f"min_supp={ms} growth={g} discover(min_size={size}): extra {[sorted(x) for x in sets - want][:3]}, "
                         f"missing {[sorted(x) for x in want - sets][:3]}")
        both = MBDLLBorder(min_growth_rate=g, min_supp=ms, n_jobs=n_jobs).fit_discover(D, y, min_size=2)
        ctx.eq({frozenset(p) for p in both}, {x for x in strict if len(x) >= 2}, "fit_discover(min_size=2)")
        ctx.outcome((sorted(map(sorted, emerging)), sorted(map(sorted, strict))))
    ctx.eq([list(t) for t in D], keep, "the caller's data was modified")


YK = ["list", "array", "bool", "series", "category", "int59", "negative", "float", "upper"]
TYPES = ("float", "mixnum", "negint", "blank", "onechar", "bytes", "npint", "npstr", "bool", "date", "decimal", "neg", "huge")


def scale(q):
    def gen():
        i = 0
        for r in range(5, 13 if q else 15):                          # long right borders
            for neg in (["compl", r], ["ring", r, 3], ["chain", r - 1], ["blocks", r // 2, 2, 1], ["window", r - 3, 3], ["shift", 1, ["compl", r]], ["shift", 20, ["chain", 2]]):
                for pos in (["masks", [2 ** r - 1] * 2], ["cat", ["dup", 3, ["masks", [2 ** r - 1]]], ["window", 3, r - 2]]):
                    i += 1
                    yield [neg, pos, "int", [[0.1, 2], [0.05, 3]][i % 2:][:1], ["neg_first", "pos_first", "zip"][i % 3], YK[i % 9], 1]
        for n in (5, 8, 11, 16, 17, 30, 40):                          # many borders
            for neg in (["blocks", 2 * n, 2, 1], ["ring", 4 * n, 2], ["ring", 4 * n, 3], ["shift", 2, ["blocks", n, 4, 1]]):
                i += 1
                yield [neg, ["blocks", n, 4, 1], "int", [[0.4 / (2 * n), 2], [0.02 / n, 1.5]], ["neg_first", "pos_first", "zip"][i % 3], YK[i % 9], 1]
        for n in (20, 64, 100, 128, 129, 255, 256, 257, 1000):         # many transactions
            for k in (1, 2, 3):
                i += 1
                yield [["cat", ["dup", n - k, ["masks", [1]]], ["dup", k, ["masks", [31]]]], ["cat", ["dup", n - 3 * k, ["masks", [2]]], ["dup", 3 * k, ["masks", [15]]]], "int",
                       [[k / n, 3], [k / n, 2.9], [k / n + 1e-3 / n, 2], [k / n - 1e-3 / n, 2], [k / n, 3.0001]], ["neg_first", "pos_first", "zip"][i % 3], YK[i % 9], 1]
        for nm in TYPES:
            for a, b in ((["masks", [7, 11]], ["masks", [15, 15]]), (["masks", [3, 12]], ["masks", [31, 15]]), (["masks", [1, 2]], ["masks", [3, 3, 2]])):
                i += 1
                yield [a, b, nm, PARAMS[:4], ["neg_first", "pos_first", "zip"][i % 3], YK[i % 9], 1]
    return gen


def check_borders(case, ctx):
    """the two steps by themselves, on families of itemsets: border_diff and borders_to_patterns"""
    from skmine.emerging.mbdldorber import border_diff, borders_to_patterns, mbdllborder
    U, S = set(case[0]), [set(s) for s in case[1]]
    subs = [frozenset(c) for k in range(0, len(U) + 1) for c in itertools.combinations(sorted(U), k)]
    L, R = border_diff(set(U), [set(s) for s in S])
    ctx.step()
    want = {x for x in subs if x and not any(x <= s for s in S)}
    mini = {x for x in want if not any(y < x for y in want)}
    ctx.eq((sorted(map(sorted, L)), set(R)), (sorted(map(sorted, mini)), U), "borders of the difference")
    for size in (None, 1, 2, 3, 5):
        got = [frozenset(p) for p in borders_to_patterns([set(x) for x in L], U, min_size=size)]
        ctx.step()
        low = size or min(map(len, L), default=1)
        ctx.eq(sorted(map(sorted, got)), sorted(sorted(x) for x in subs if x < U and len(x) >= low and any(m < x for m in mini)), f"patterns of at least {size}")
        ctx.eq([len(p) for p in got], sorted((len(p) for p in got), reverse=True), "bigger patterns first")
    ctx.state(case)
    ctx.outcome((len(L), len(want)))


def border_cases(q):
    def gen():
        for n in range(1, 5):
            pool = [list(c) for k in range(0, n) for c in itertools.combinations(range(n), k)]
            for k in range(0, 4 if n < 4 else 3 if q else 4):
                for S in itertools.combinations(pool, k):
                    if all(not set(a) < set(b) for a in S for b in S):
                        yield [list(range(n)), [list(s) for s in S]]
        for n in range(5, 11 if q else 13):
            for d in (["compl", n], ["ring", n, 2], ["ring", n, 3], ["window", n - 2, 3], ["blocks", n // 2, 2, 1], ["ksub", n, 2] if n < 7 else ["ring", n, 4]):
                rows = [t for j, t in enumerate(dbs.structured(d)) if t not in dbs.structured(d)[:j]]
                yield [list(range(n)), rows]
                yield [list(range(n))[::-1], rows[::-1]]
    return gen


def small(q):
    def gen():
        it = itertools.product(dbs.multisets(3, 2), dbs.multisets(3, 3))
        for i, (a, b) in enumerate(it):
            yield [["masks", a], ["masks", b], ["int", "str"][i % 2], PARAMS, ["neg_first", "pos_first", "zip"][i % 3], YK[i % 9], 1]
        # right borders of size 4: the interior of the intervals is only visible from there on
        negs = list(dbs.multisets(4, 1 if q else 2)) + [[7, 11], [7, 13, 14], [3, 12], [3, 5, 6], [9, 6], [11, 13], [15, 16],
                                                       [16], [7, 11, 13, 14]]
        poss = [[15], [15, 15], [15, 15, 15, 7], [15, 15, 14, 3], [7, 14, 15], [31, 15], [31], [30, 15], [15, 51], [31, 47]]
        for i, (a, b) in enumerate(itertools.product(negs, poss)):
            yield [["masks", a], ["masks", b], ["int", "words", "numstr", "oct"][i % 4], PARAMS[:5],
                   ["neg_first", "pos_first", "zip"][i % 3], YK[i % 9], 1]
    return gen


def struct(q):
    def gen():
        ds = [d for d in dbs.STRUCTURED_SMALL if len({i for t in dbs.structured(d) for i in t}) <= 8
              and len(dbs.structured(d)) <= 40 and any(dbs.structured(d))]
        step = 5 if q else 1
        for i, (a, b) in enumerate(itertools.product(ds, ds)):
            if a != b and i % step == 0:
                yield [a, b, ["int", "str", "numstr"][i % 3], PARAMS[i % 6:i % 6 + 2] if q else PARAMS,
                       ["neg_first", "pos_first", "zip"][i % 3], YK[i % 9], 1]
        for a, b in ([["masks", [7, 11]], ["masks", [15, 15]]], [["masks", [3, 12]], ["masks", [31, 15]]]):
            yield [a, b, "int", PARAMS[:1], "zip", "array", 2]
    return gen


def spaces(tier):
    q = tier == "quick"
    return [Space("pairs", small(q), check, "every pair of collections of <=2 x <=3 transactions over 3 items, plus 4-6 item right "
                  "borders against every single (pair) transaction, x 5-8 (min_supp, growth) settings x min_size 1,2,3"),
            Space("structured", struct(q), check, "pairs of structured families (<=8 items), orders, target containers, n_jobs 1 and 2",
                  timeout=200),
            Space("borders", border_cases(q), check_borders, "all antichains of <=3 itemsets against 1..4 items, rings and windows of up to 10 (12) items"),
            Space("scale", scale(q), check, "right borders of 5..12 (14) items, up to 40 borders, up to 1000 transactions per collection with thresholds "
                  "around the exact supports, 13 more item types, 9 kinds of targets", timeout=300)]
