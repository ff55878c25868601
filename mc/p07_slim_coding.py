"""P07: encoding new data with a fitted SLIM model: covers, code lengths, decision values."""
import itertools
import math

from mc import dbs, slimref
from mc.core import Space
from mc.p04_slim_lossless import SLIM, TYPES

PROPERTY = "P07"
ASSUMPTIONS = ["new data has the same kind of format as the training data", "code lengths compared at relative 2e-4",
               "rows whose exact code length is 0 (a model with a single code) are outside the statement"]


def expected(slim, rows):
    order = [frozenset(k) for k in slim.codetable_]
    usage = {k: len(v) + 1 for k, v in slimref.table(slim).items()}
    tot = sum(usage.values())
    cov, rest = slimref.greedy_cover(order, rows)
    res = []
    for r in range(len(rows)):
        used = [x for x in order if r in cov[x]]
        ln = sum(-math.log2(usage[x] / tot) for x in used)
        res.append((frozenset(used), ln if used else math.inf))
    return res


def check_rows(slim, data, rows, ctx, what):
    exp = expected(slim, rows)
    mat = slim.cover(data)
    ctx.step()
    ctx.eq(len(mat), len(rows), f"{what}: number of covered rows")
    for r, (used, ln) in enumerate(exp):
        got = [frozenset(c) for c, v in zip(mat.columns, mat.iloc[r].tolist()) if v]
        ctx.ok(len(got) == len(set(got)), f"{what}: row {r} uses an itemset twice")
        items = [i for x in got for i in x]
        ctx.ok(len(items) == len(set(items)), f"{what}: row {r} is covered with overlaps {got}")
        ctx.eq(set(got), set(used), f"{what}: cover of row {r} {sorted(map(str, rows[r]))}")
    cl = slim.get_code_length(data)
    dec = slim.decision_function(data)
    ctx.step(2)
    ctx.eq((len(cl), len(dec)), (len(rows), len(rows)), f"{what}: number of code lengths")
    for r, (used, ln) in enumerate(exp):
        g, p = float(cl.iloc[r]), float(dec.iloc[r])
        if used and ln < 1e-9:
            continue
        ctx.ok(g == ln or slimref.close(g, ln, 2e-4, 1e-4), f"{what}: code length of row {r} {sorted(map(str, rows[r]))} is {g}, "
               f"expected {ln}")
        want = 0.0 if math.isinf(ln) else math.exp(-0.2 * g)
        ctx.ok(abs(p - want) <= 1e-5 + 1e-4 * want, f"{what}: decision value of row {r} is {p}, expected {want}")
    return exp


def check_new(case, ctx):
    desc, namer, pruning, tabular = case
    base = dbs.structured(desc)
    if not any(base):
        return
    n = max(i for t in base for i in t) + 1
    db = dbs.name(base, namer)
    known = sorted({i for t in db for i in t})
    if n <= 4:
        new = [list(c) for k in range(0, n + 1) for c in itertools.combinations(range(n + 1), k)]   # item n is unknown
    else:
        new = [t for t in base] + [t[:-1] for t in base[:6]] + [t + [n] for t in base[:6]] + [[n], []] + \
              [list(range(k)) for k in range(n)]
    new = dbs.name(new, namer)
    ctx.state((desc, namer, pruning, tabular))
    if tabular:
        import pandas as pd
        cols = sorted(set(i for t in new for i in t), reverse=True)
        fr = pd.DataFrame([[i in t for i in known] for t in db], columns=known).astype(int)
        s = SLIM(pruning=pruning).fit(fr)
        data = pd.DataFrame([[i in t for i in cols] for t in new], columns=cols).astype(int)
        data.index = [5 * i + 2 for i in range(len(new))]
        one = lambda t: pd.DataFrame([[i in t for i in cols]], columns=cols).astype(int)
    else:
        s = SLIM(pruning=pruning).fit(db)
        data = new
        one = lambda t: [t]
    ctx.step()
    rows = [frozenset(t) for t in new]
    what = f"{'tabular' if tabular else 'transactions'} pruning={pruning}"
    exp = check_rows(s, data, rows, ctx, what)
    # a transaction's encoding does not depend on the batch it comes in
    batch = s.get_code_length(data)
    for r in range(0, len(new), 1 if n <= 3 else 5):
        if not new[r] and not tabular:
            continue
        alone = float(s.get_code_length(one(new[r])).iloc[0])
        ctx.step()
        ctx.ok(alone == float(batch.iloc[r]) or slimref.close(alone, float(batch.iloc[r]), 1e-5, 1e-5),
               f"{what}: code length of {new[r]} is {alone} alone but {float(batch.iloc[r])} in a batch")
    ctx.outcome([round(l, 3) if not math.isinf(l) else -1 for _, l in exp])


def cases(q):
    def gen():
        for tab in (False, True):
            for pruning in (False, True):
                for m in dbs.multisets(3, 4 if q else 5):
                    yield [["masks", m], "str", pruning, tab]
                for m in dbs.multisets(4, 2 if q else 3, lo=2):
                    yield [["masks", m], "int", pruning, tab]
                for d in dbs.STRUCTURED_SMALL:
                    if len({i for t in dbs.structured(d) for i in t}) <= (8 if q else 20):
                        yield [d, "numstr", pruning, tab]
                for d in dbs.SLIM_SCALE:
                    yield [d, "int", pruning, tab]
                for nm in TYPES:
                    for m in ([3, 3, 6], [7, 3, 3, 1], [5, 5, 6, 7, 2]):
                        yield [["masks", m], nm, pruning, tab]
    return gen


def check_batch(case, ctx):
    """large batches: every row is encoded as it is alone"""
    desc, n, tabular = case
    db = dbs.structured(desc)
    its = sorted({i for t in db for i in t})
    pool = [list(c) for k in range(0, 4) for c in itertools.combinations(its[:5], k)] + [t for t in db] + [its, [97, 98], its[1:] + [99]]
    new = [pool[(7 * i + i // len(pool)) % len(pool)] for i in range(n - 1)] + [its]
    if tabular:
        import pandas as pd
        s = SLIM().fit(pd.DataFrame([[i in t for i in its] for t in db], columns=its).astype(int))
        cols = its + [97, 98, 99]
        sets = [set(t) for t in new]
        data = pd.DataFrame([[i in t for i in cols] for t in sets], columns=cols).astype(int)
    else:
        s = SLIM().fit(db)
        data = new
    exp = {k: v for k, v in zip(map(tuple, pool), expected(s, [frozenset(t) for t in pool]))}
    mat, cl = s.cover(data), s.get_code_length(data)
    ctx.step(2)
    ctx.eq((len(mat), len(cl)), (n, n), "rows")
    cols = [frozenset(c) for c in mat.columns]
    vals, cl = mat.values, cl.tolist()
    for r, t in enumerate(new):
        used, ln = exp[tuple(t)]
        ctx.ok({c for c, v in zip(cols, vals[r]) if v} == used, f"cover of row {r} of {n}: {t}")
        ctx.ok(cl[r] == ln or slimref.close(cl[r], ln, 2e-4, 1e-4), f"code length of row {r} of {n}: {t} is {cl[r]}, expected {ln}")
    ctx.state(case)
    ctx.outcome((n, round(sum(x for x in cl if x < math.inf), 1)))


def batch_cases(q):
    def gen():
        for d in (["dup", 3, ["masks", [3, 6, 7, 1]]], ["blocks", 3, 4, 3], ["nested", 3, 3, 3]):
            for n in (1, 2, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 299, 300, 511, 513, 1000, 1025, 2000, 4097) + (
                    (10001, 32769, 65537) if d[0] == "dup" else ()):
                for tab in (False, True):
                    yield [d, n, tab]
    return gen


def check_items(case, ctx):
    """declared items: code lengths of unseen-but-declared items are finite"""
    masks, items, pruning = case
    db = dbs.name([dbs.mask(m) for m in masks], "str")
    if not any(db):
        return
    its = dbs.name([items], "str")[0]
    s = SLIM(pruning=pruning, items=its).fit(db)
    new = dbs.name([list(c) for k in range(1, 4) for c in itertools.combinations(range(5), k)], "str")
    ctx.state(case)
    exp = check_rows(s, new, [frozenset(t) for t in new], ctx, f"declared items {its}")
    ctx.outcome([round(l, 3) if not math.isinf(l) else -1 for _, l in exp])


def item_cases(q):
    def gen():
        for m in dbs.multisets(3, 3 if q else 4):
            for items in ([0, 1, 2, 3], [3], [4, 3, 2, 1, 0]):
                for pruning in (True, False):
                    yield [m, items, pruning]
    return gen


def spaces(tier):
    q = tier == "quick"
    return [
        Space("new-data", cases(q), check_new,
              "models fitted on every multiset of <=4 (5) transactions over 3 items, 2 (2..3) over 4 items and structured "
              "families, itemsets of up to 33 items, 13 item types, pruning on/off, transactional and tabular; new data = every subset of the items plus an unknown item",
              timeout=200),
        Space("batches", batch_cases(q), check_batch, "batches of 1..65537 rows, transactional and tabular, three models", timeout=300),
        Space("declared-items", item_cases(q), check_items,
              "every multiset of <=3 (4) transactions over 3 items x 3 declared item lists x every <=3-subset of 5 items"),
    ]
