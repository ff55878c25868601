"""P09: SLIM feature extraction: shape, stop items, cell semantics."""
import itertools

from mc import dbs, slimref
from mc.core import Space
from mc.p04_slim_lossless import SLIM, TYPES

PROPERTY = "P09"
ASSUMPTIONS = ["transactional data; the batch to transform is not empty"]


def check_vec(case, ctx):
    desc, namer, k, strategy, pruning, stop = case
    import math
    from skmine.feature_extraction import SLIMVectorizer
    base = dbs.structured(desc)
    db = dbs.name(base, namer)
    stops = dbs.name([stop], namer)[0] if stop is not None else None
    left = [[i for i in t if i not in (stops or ())] for t in db]
    if not any(left):
        return
    n = max(i for t in base for i in t) + 1
    if n <= 4:
        new = [list(c) for j in range(1, n + 2) for c in itertools.combinations(range(n + 1), j)]
    else:
        new = base + [t[:-1] for t in base if len(t) > 1][:8] + [[n], [0, n]]
    new = dbs.name(new, namer)
    ctx.state(case)
    kw = dict(k=k, strategy=strategy, pruning=pruning)
    if stops is not None:
        kw["stop_items"] = (list, set, tuple, frozenset)[(len(db) + k) % 4](stops)
    v = SLIMVectorizer(**kw)
    v.fit(db)
    ctx.step()
    # the model must be the SLIM model of the data without the stop items
    ref = SLIM(pruning=pruning).fit([set(t) for t in left] if stops is not None else db)
    tab = slimref.table(v)
    ctx.ok(tab == slimref.table(ref), f"the model differs from SLIM on the filtered data: {tab}")
    usage = {x: len(t) for x, t in tab.items()}
    order = [frozenset(x) for x in ref.codetable_]
    singles = [[t] for t in new[:: 1 + len(new) // 8]]
    for batch in [new, new[:1], db, new[::-1], (new * 300)[:300] if len(order) < 8 else new[:2]] + singles:
        mat = v.transform(batch)
        ctx.step()
        ctx.eq(len(mat), len(batch), "number of rows")
        cols = [frozenset(c) for c in mat.columns]
        ctx.ok(len(set(cols)) == len(cols), "repeated feature")
        for c in cols:
            ctx.ok(not (c & set(stops or ())), f"stop item in feature {sorted(c)}")
            ctx.ok(c in usage, f"feature {sorted(c)} is not a learnt itemset")
        present = {i for t in batch for i in t if i not in (stops or ())}
        cand = [x for x in order if x <= present]
        # the k most used itemsets among those made of present items, most used first; ties may come in any order
        ctx.ok(set(cols) <= set(cand), f"features {cols} are not all made of items of the batch")
        ctx.eq([usage[c] for c in cols], sorted((usage[x] for x in cand), reverse=True)[:k],
               f"usages of the features (k={k})")
        tot = sum(usage[x] for x in cand)
        cov, _ = slimref.greedy_cover(cols, [frozenset(t) - set(stops or ()) for t in batch])
        for r in range(len(batch)):
            got = mat.iloc[r].tolist()
            exp = []
            for x in cols:
                on = r in cov[x]
                if strategy == "one-hot":
                    exp.append(1.0 if on else 0.0)
                else:
                    exp.append(usage[x] / tot if on and tot else 0.0)
            for g, e, x in zip(got, exp, cols):
                ctx.ok(abs(g - e) <= 1e-5, f"row {batch[r]}, feature {sorted(x)}: {g}, expected {e}")
        ctx.outcome((strategy, [sorted(map(str, c)) for c in cols], repr(mat.values.tolist())[:200]))


def cases(q):
    def gen():
        for m in dbs.multisets(3, 3 if q else 4):
            for k in (1, 2, 5):
                for strategy in ("codes", "one-hot"):
                    yield [["masks", m], "str", k, strategy, False, None]
            for stop in ([], [0], [2, 1], [9]):
                yield [["masks", m], "int", 3, "codes", True, stop]
        for d in dbs.STRUCTURED_SMALL:
            if len({i for t in dbs.structured(d) for i in t}) <= (7 if q else 15):
                for k in (2, 10):
                    for strategy in ("codes", "one-hot"):
                        for pruning in (False, True):
                            yield [d, "numstr", k, strategy, pruning, None]
                yield [d, "int", 4, "one-hot", False, [1]]
        for d in dbs.SLIM_SCALE + [["ksub", 40, 1], ["chain", 25], ["ring", 60, 2], ["lfsr", 30, 20, 2]]:
            for k in (1, 3, 6, 8, 9, 10, 11, 12, 16, 17, 20, 33, 50, 100) if d[0] in ("ksub", "lfsr", "ring") or d[:3] == ["blocks", 40, 2] or not q else (11, 40):
                for strategy in ("codes", "one-hot"):
                    yield [d, "int", k, strategy, False, None]
            yield [d, "int", 30, "codes", True, [2, 5, 99]]
        for nm in TYPES:
            for m in ([3, 3, 6], [7, 3, 3, 1], [5, 5, 6, 7, 2]):
                yield [["masks", m], nm, 3, "codes", False, None]
                yield [["masks", m], nm, 3, "one-hot", True, [0]]
                yield [["masks", m], nm, 5, "codes", True, [1, 2]]
    return gen


def spaces(tier):
    q = tier == "quick"
    return [Space("models", cases(q), check_vec,
                  "every multiset of <=3 (4) transactions over 3 items x k in {1,2,5} x strategy, x 4 stop lists, structured "
                  "families; transformed batches: every subset of the items plus an unknown one, single rows, training data")]
