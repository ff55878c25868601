"""P04: a fitted SLIM code table encodes the training data without loss, whatever the data, its format and parameters."""
import itertools

from mc import dbs, slimref
from mc.core import Space

PROPERTY = "P04"
ASSUMPTIONS = ["items are hashable and mutually comparable scalars; at least one transaction is non-empty"]


def SLIM(**kw):
    from skmine.itemsets import SLIM as S
    return S(**kw)


def norm(db):
    return [sorted(set(t)) for t in db]


def verify(slim, db, ctx, what):
    tab = slimref.table(slim)
    slimref.check_partition(tab, [frozenset(t) for t in db], ctx, what)
    rec = slim.reconstruct()
    ctx.step()
    ctx.eq([list(t) for t in rec], norm(db), f"{what}: reconstruction")
    df = slim.transform(db, singletons=True, return_tids=True, drop_null_usage=True)
    ctx.step()
    got = {}
    for it, tids in zip(df["itemset"], df["tids"]):
        k = frozenset(it)
        ctx.ok(k not in got and len(it) == len(k), f"{what}: {it} listed twice")
        ctx.eq(list(it), sorted(it), f"{what}: items of a reported itemset are not sorted")
        got[k] = frozenset(tids)
    ctx.ok(got == {k: v for k, v in tab.items() if v}, f"{what}: reported patterns differ from the code table")
    return tab


def check_db(case, ctx):
    desc, namer = case
    base = dbs.structured(desc)
    db = dbs.name(base, namer)
    if not any(db):
        return
    for pruning in (True, False):
        ctx.state((desc, namer, pruning))
        s = SLIM(pruning=pruning).fit(db)
        ctx.step()
        tab = verify(s, db, ctx, f"pruning={pruning}")
        ctx.outcome(sorted((sorted(map(str, k)), sorted(v)) for k, v in tab.items()))
        # usage view, non-singleton view, null usage view
        full = s.transform(db, drop_null_usage=False)
        ctx.eq({frozenset(i): int(u) for i, u in zip(full["itemset"], full["usage"])}, {k: len(v) for k, v in tab.items()},
               f"pruning={pruning}: usage report")
        ns = s.transform(db, singletons=False)
        ctx.eq({frozenset(i): int(u) for i, u in zip(ns["itemset"], ns["usage"])},
               {k: len(v) for k, v in tab.items() if v and len(k) > 1}, f"pruning={pruning}: non-singleton usage report")
        ctx.step(2)


TYPES = ("float", "mixnum", "negint", "blank", "onechar", "bytes", "npint", "npstr", "bool", "date", "decimal", "neg", "huge")
FORMATS = ["frame_bool", "frame_int", "frame_idx", "array", "array_float", "series", "tuples", "sets", "strings", "revitems",
           "dups", "frame_cols"]


def as_format(masks, n_items, fmt):
    """-> (data, expected list of transactions)"""
    import numpy as np
    import pandas as pd
    rows = [dbs.mask(m) for m in masks]
    mat = np.array([[i in r for i in range(n_items)] for r in rows])
    cols = ["c", "a", "b", "d"][:n_items]
    if fmt == "frame_bool":
        return pd.DataFrame(mat, columns=cols), [[cols[i] for i in r] for r in rows]
    if fmt == "frame_int":
        return pd.DataFrame(mat.astype(int), columns=cols), [[cols[i] for i in r] for r in rows]
    if fmt == "frame_idx":
        return (pd.DataFrame(mat.astype(int), columns=cols, index=[7 - 2 * i for i in range(len(rows))]),
                [[cols[i] for i in r] for r in rows])
    if fmt == "frame_cols":   # integer column names in decreasing order
        names = [10 * (n_items - i) for i in range(n_items)]
        return pd.DataFrame(mat, columns=names), [[names[i] for i in r] for r in rows]
    if fmt == "sparse_frame":
        return (pd.DataFrame({c: pd.arrays.SparseArray(mat[:, i].astype(int)) for i, c in enumerate(cols)}),
                [[cols[i] for i in r] for r in rows])
    if fmt == "array":
        return mat, rows
    if fmt == "array_float":
        return mat.astype(float), rows
    named = [[cols[i] for i in r] for r in rows]
    if fmt == "series":
        return pd.Series(named, index=[3 * i + 1 for i in range(len(rows))]), named
    if fmt == "tuples":
        return [tuple(r) for r in named], named
    if fmt == "sets":
        return [set(r) for r in named], named
    if fmt == "strings":
        return ["".join(r) for r in named], named
    if fmt == "revitems":
        return [r[::-1] for r in named], named
    if fmt == "dups":
        return [r + r[:1] for r in named], named
    raise ValueError(fmt)


def check_format(case, ctx):
    masks, n_items, fmt = case
    data, db = as_format(masks, n_items, fmt)
    if not any(db):
        return
    for pruning in (True, False):
        ctx.state((masks, fmt, pruning))
        s = SLIM(pruning=pruning).fit(data)
        ctx.step()
        tab = slimref.table(s)
        slimref.check_partition(tab, [frozenset(t) for t in db], ctx, f"{fmt} pruning={pruning}")
        ctx.eq([list(t) for t in s.reconstruct()], norm(db), f"{fmt} pruning={pruning}: reconstruction")
        ctx.step()
        ctx.outcome(sorted((sorted(map(str, k)), sorted(v)) for k, v in tab.items()))


def format_cases(q):
    def gen():
        for fmt in FORMATS:
            for masks in dbs.sequences(3, 2 if q else 3, lo=1):
                yield [masks, 3, fmt]
            for masks in dbs.multisets(3, 4, lo=4):
                yield [masks, 3, fmt]
    return gen


def check_params(case, ctx):
    """items supplied up front, time limit hit immediately, file output"""
    import os
    masks, namer, pruning, max_time, items = case
    db = dbs.name([dbs.mask(m) for m in masks], namer)
    if not any(db):
        return
    extra = dbs.name([items], namer)[0] if items is not None else None
    ctx.state(case)
    s = SLIM(pruning=pruning, max_time=max_time, items=extra).fit(db)
    ctx.step()
    tab = verify(s, db, ctx, f"params {case[1:]}")
    if extra is not None:
        for i in extra:
            ctx.ok(frozenset([i]) in tab, f"declared item {i!r} has no code")
    for tids in (False, True):
        out = os.path.join(ctx.scratch, "slim.txt")
        r = s.transform(db, return_tids=tids, out=out)
        ctx.step()
        ctx.ok(r is None, "file output must return None")
        df = s.transform(db, return_tids=True)
        exp = []
        for it, t in zip(df["itemset"], df["tids"]):
            exp.append(f"({len(t)}) " + " ".join(map(str, it)))
            if tids:
                exp.append(" ".join(map(str, t)))
        ctx.eq(open(out).read().split("\n")[:-1], exp, f"file output (tids={tids})")
        os.remove(out)
    ctx.outcome((repr(tab)))


def param_cases(q):
    def gen():
        for masks in dbs.multisets(3, 3 if q else 4):
            for namer in ("int", "str"):
                for pruning in (True, False):
                    for max_time in (-1, 0):
                        for items in (None, [0, 1, 2, 3, 5]):
                            yield [masks, namer, pruning, max_time, items]
    return gen


def db_cases(q):
    def gen():
        for m in dbs.sequences(3, 3 if q else 4):
            yield [["masks", m], "int"]
        for m in dbs.multisets(4, 3 if q else 5, lo=2):
            yield [["masks", m], "str"]
        for m in dbs.multisets(3, 5 if q else 7, lo=4):
            yield [["masks", m], "oct"]
        small = [d for d in dbs.STRUCTURED_SMALL if len({i for t in dbs.structured(d) for i in t}) <= (10 if q else 40)]
        for d in small:
            for nm in ("int", "numstr", "oct"):
                yield [d, nm]
        for d in small:
            yield [["rev", d], "int"]
        for d in dbs.SLIM_LARGE if q else dbs.SLIM_LARGE + dbs.SLIM_LARGER:
            yield [d, "int"]
        for d in dbs.SLIM_SCALE:
            yield [d, "int"]
        for nm in TYPES:
            for m in ([3, 3, 6], [7, 3, 3, 1], [5, 5, 6, 7, 2], [1, 2], [15, 15, 3, 8]):
                yield [["masks", m], nm]
    return gen


def spaces(tier):
    q = tier == "quick"
    return [
        Space("databases", db_cases(q), check_db,
              "every sequence of <=3 (4) transactions over 3 items incl. empty, every multiset of 2..3 (5) over 4 items, of "
              "4..5 (7) over 3 items with colliding integer hashes, structured families, itemsets of up to 33 items and up to 40 itemsets, 13 more item types; pruning on and off", timeout=240),
        Space("formats", format_cases(q), check_format,
              "every sequence of <=2 (3) transactions over 3 items and every 4-multiset, in 12 tabular/transactional formats"),
        Space("parameters", param_cases(q), check_params,
              "every multiset of <=3 (4) transactions over 3 items x pruning x time limit {none, immediate} x declared items "
              "x item type, plus file output"),
    ]
