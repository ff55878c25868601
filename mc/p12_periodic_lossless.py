"""P12: periodic pattern mining is lossless: patterns plus residuals are exactly the input occurrences."""
import itertools
import os

from mc import logs, trees
from mc.core import Space

PROPERTY = "P12"
ASSUMPTIONS = ["naive timestamps or integer times within 64 bits, hashable and comparable events, at least two occurrences",
               "an event log is a set of (time, event) occurrences: exact duplicates count once"]


def stamp(t, kind):
    """model time (int) -> (index value, integer in the unit the miner returns)"""
    import numpy as np
    if kind in ("int", "range"):
        return t
    unit = {"day": 86400 * 10 ** 9, "hour": 3600 * 10 ** 9, "min": 60 * 10 ** 9, "s": 10 ** 9, "ms": 10 ** 6, "us": 1000, "ns": 1,
            "s_unit": 10 ** 9, "ms_unit": 10 ** 6, "old": 60 * 10 ** 9}[kind]
    base = np.datetime64("1969-12-30T00:00:00", "ns") if kind == "old" else np.datetime64("2020-04-16T00:00:00", "ns")
    return base + np.timedelta64(t * unit, "ns")


def series(rows, kind, namer):
    import numpy as np
    import pandas as pd
    times = [stamp(t, kind) for t, _ in rows]
    evs = [logs.NAMES[logs.DTYPES.get(namer, namer)](e) for _, e in rows]
    if kind == "int":
        idx = pd.Index(times, dtype="int64")
    elif kind == "range":
        idx = pd.RangeIndex(len(times))
    else:
        idx = pd.DatetimeIndex(np.array(times, dtype="datetime64[ns]"))
        if kind.endswith("_unit"):
            idx = idx.as_unit(kind[:-5])
    if namer in logs.DTYPES:
        if namer == "category+":     # declared values which do not occur, in another order than the sorted one
            return pd.Series(pd.Categorical(evs, categories=["zz0"] + sorted(set(evs), reverse=True) + ["aa"]), index=idx)
        return pd.Series(evs, index=idx, dtype=namer)
    return pd.Series(evs, index=idx)


def occs(S):
    """the reference view of a log: a set of (nanoseconds or integer, event)"""
    import pandas as pd
    idx = S.index
    if isinstance(idx, pd.DatetimeIndex):
        idx = idx.as_unit("ns")
    return {(int(t), e) for t, e in zip(idx.astype("int64"), S.tolist())}


def frame_occs(df, is_dt, ctx, what):
    import pandas as pd
    if len(df) == 0:
        return []
    ctx.ok({"time", "event"} <= set(df.columns), f"{what}: columns {list(df.columns)}")
    ctx.ok(pd.api.types.is_datetime64_any_dtype(df["time"]) == is_dt, f"{what}: time column has type {df['time'].dtype}")
    t = df["time"].astype("datetime64[ns]") if is_dt else df["time"]
    return list(zip([int(x) for x in t.astype("int64")], df["event"].tolist()))


def miner(**kw):
    from skmine.periodic import PeriodicPatternMiner
    return PeriodicPatternMiner(**kw)


def sortedness(rows, sort, ctx, what):
    if sort == "time":
        ctx.ok([r[0] for r in rows] == sorted(r[0] for r in rows), f"{what} is not sorted by time")
    elif sort == "event":
        ctx.ok([r[1] for r in rows] == sorted(r[1] for r in rows), f"{what} is not sorted by event")


def verify(m, data, is_dt, ctx, what, full=True):
    rec = frame_occs(m.reconstruct(), is_dt, ctx, what)
    res = frame_occs(m.get_residuals(), is_dt, ctx, what)
    ctx.step(2)
    ctx.ok(len(set(rec)) == len(rec), f"{what}: reconstruct() repeats an occurrence")
    ctx.ok(len(set(res)) == len(res), f"{what}: get_residuals() repeats an occurrence: {res}")
    R, U = set(rec), set(res)
    ctx.ok(R <= data, f"{what}: reconstructed occurrences that are not in the data: {sorted(R - data)[:4]}")
    ctx.ok(U <= data, f"{what}: residuals that are not in the data: {sorted(U - data)[:4]}")
    ctx.ok(not (R & U), f"{what}: occurrences both covered and residual: {sorted(R & U)[:4]}")
    ctx.ok(R | U == data, f"{what}: lost occurrences {sorted(data - R - U)[:4]}")
    if full:
        for sort in ("time", "event", "construction_order"):
            a = frame_occs(m.reconstruct(sort=sort), is_dt, ctx, what)
            b = frame_occs(m.get_residuals(sort=sort), is_dt, ctx, what)
            ctx.step(2)
            ctx.eq(set(a), R, f"{what}: occurrences with sort={sort}")
            ctx.eq(sorted(b), sorted(res), f"{what}: residuals with sort={sort}")
            sortedness(a, sort, ctx, f"{what}: reconstruct(sort={sort})")
            sortedness(b, sort, ctx, f"{what}: get_residuals(sort={sort})")
            ctx.eq(set(frame_occs(m.reconstruct(sort=sort, drop_duplicates=False), is_dt, ctx, what)), R, "keeping duplicates")
            ctx.eq(sorted(frame_occs(m.reconstruct(sort=sort, drop_duplicates=True), is_dt, ctx, what)), sorted(R), "dropping duplicates")
    return R, U


def check_log(case, ctx):
    desc, kind, namer, order, cplx, auto, dups = case
    rows = logs.ORDERS[order](sorted(set(logs.log(desc))))
    if dups:
        rows = rows + rows[::3]
        if dups == "adj":
            rows = sorted(rows)
    if len(rows) < 2:
        return
    S = series(rows, kind, namer)
    keep = S.copy()
    data = occs(S)
    ctx.state(case)
    m = miner(complex=cplx, auto_time_scale=auto)
    ctx.ok(m.fit(S) is m, "fit does not return the estimator")
    ctx.step()
    is_dt = kind not in ("int", "range")
    R, U = verify(m, data, is_dt, ctx, "after fit")
    ctx.ok(S.equals(keep) and (S.index == keep.index).all(), "the caller's series was modified")
    # queries do not disturb each other, and fitting again starts afresh
    m.transform(S)
    ctx.eq(verify(m, data, is_dt, ctx, "after transform", False), (R, U), "answers after transform")
    m.fit(S)
    ctx.eq(verify(m, data, is_dt, ctx, "after refit", False), (R, U), "answers after a refit")
    ctx.outcome((sorted(map(str, R)), sorted(map(str, U))))


KINDS = ["int", "min", "hour", "day", "s", "ms", "us", "ns", "old", "s_unit", "ms_unit"]


def small(q):
    def gen():
        i = 0
        n1 = 10 if q else 12
        for mask in range(3, 2 ** n1):
            if bin(mask).count("1") < 2:
                continue
            i += 1
            if mask & 1:     # translation of the grid is explored by the other families
                yield [["sub", [mask], [7, 3, 1, 11][i % 4], [None, 1000, 100000, 60][i % 4]], ["int", "min", "ms"][i % 3], "str",
                       ["time", "rev", "mix"][i % 3], True, True, False]
        n2 = 4 if q else 5
        for a, b in itertools.product(range(1, 2 ** n2), repeat=2):
            i += 1
            yield [["sub", [a, b], [5, 10, 1][i % 3], [5000, None, 300][i % 3]], ["int", "hour", "s", "day"][i % 4],
                   ["str", "int", "numstr", "rint"][i % 4], ["time", "event", "mix", "rev"][i % 4], i % 5 != 0, i % 7 != 0,
                   ["", "end", "adj"][i % 3]]
    return gen


def structured(q):
    def gen():
        i = 0
        for d in logs.SIMPLE + logs.COMPLEX:
            kinds = KINDS if not q else [KINDS[i % len(KINDS)], KINDS[(i + 3) % len(KINDS)], KINDS[(i + 7) % len(KINDS)]]
            for kind in kinds:
                i += 1
                for cplx in (True, False):
                    if len(logs.log(d)) > 30 and kind in ("ns", "us"):
                        continue
                    yield [d, kind, ["str", "int", "numstr", "rint"][i % 4], ["time", "event", "mix", "rev"][i % 4], cplx,
                           i % 4 != 1, ["", "end", "adj"][i % 3]]
        for d in logs.SIMPLE[:4]:
            yield [d, "range", "str", "time", True, True, ""]
    return gen


def check_long(case, ctx):
    desc, kind, order, cplx = case
    S = series(logs.ORDERS[order](sorted(set(logs.log(desc)))), kind, "str")
    data = occs(S)
    m = miner(complex=cplx).fit(S)
    ctx.step()
    ctx.state(case)
    R, U = verify(m, data, kind != "int", ctx, "after fit", False)
    m.transform(S)
    ctx.eq(verify(m, data, kind != "int", ctx, "after transform", False), (R, U), "answers after transform")
    ctx.outcome((len(R), len(U)))


def long_logs(q):
    def gen():
        for i, d in enumerate(logs.HUGE[:2] if q else logs.HUGE):
            yield [d, ["int", "min"][i % 2], ["time", "mix"][i % 2], False]
        for i, d in enumerate(logs.LONG):
            yield [d, ["int", "min", "s"][i % 3], ["time", "mix"][i % 2], i % 2 == 0]
            if not q:
                yield [d, ["s", "int", "min"][i % 3], ["rev", "event"][i % 2], i % 2 == 1]
    return gen


def types(q):
    def gen():
        ds = [logs.SIMPLE[i] for i in (4, 15, 16, 17)] + [logs.COMPLEX[i] for i in (4, 12, 26, 28)] + [logs.SCALE[0], logs.SCALE[3]]
        for i, d in enumerate(ds):
            for j, namer in enumerate(list(logs.NAMES) + list(logs.DTYPES)):
                if namer in ("int8", "uint8") and d is logs.SCALE[3]:
                    continue
                for k, kind in enumerate(("int", "min", "s_unit")):
                    if q and (i + j + k) % 3:
                        continue
                    yield [d, kind, namer, ["time", "event", "mix", "rev"][(i + j) % 4], True, j % 4 != 0, ["", "end", "adj"][(i + k) % 3]]
    return gen


def scale(q):
    def gen():
        for i, d in enumerate(logs.SCALE):
            for k, kind in enumerate(("int", "min", "day", "ms", "old")):
                if q and k and (i + k) % 4:
                    continue
                yield [d, kind, ["str", "int", "numstr", "rint"][(i + k) % 4], ["time", "event", "mix", "rev"][(i + k) % 4], k != 3, i % 3 != 0, ["", "end", "adj"][i % 3]]
        # one occurrence which is not on the unit of all the others: first, last, or in the middle, after 3..130 others
        for i, (u, k, at) in enumerate(itertools.product((10, 60, 3600, 86400, 600), (3, 11, 70) if q else (3, 11, 70, 130, 260), (0, 1, 2))):
            for unit in ("s", "int", "ms") if not q else (["s", "int", "ms"][i % 3],):
                yield [["cat", ["mul", u, ["cyc", 0, 1, 7, k, [0]]], ["raw", [[[1, u * 7 * (k // 2) + 1, u * 7 * (k + 2) + 1][at], i % 2]]]], unit, "str", "time", False, True, ""]
        ds = [logs.SIMPLE[1], logs.SIMPLE[16], logs.SIMPLE[17], logs.COMPLEX[3], logs.COMPLEX[12], logs.COMPLEX[31], ["sub", [0b1011011, 0b110111], 3, None]]
        for i, d in enumerate(ds):
            for j, off in enumerate(logs.OFFSETS):
                yield [["add", off, d], "int", "str", ["time", "mix"][i % 2], True, (i + j) % 2 == 0, ""]
            for j, f in enumerate(logs.FACTORS):
                yield [["mul", f, d], "int", "str", ["time", "mix"][i % 2], True, (i + j) % 3 != 0, ""]
                for off in (f, -f * 7, 1):
                    yield [["add", off, ["mul", f, d]], "int", "int", "time", True, True, "end"]
            for unit in ("s", "ms", "us", "ns", "s_unit"):
                for f in (60, 3600, 86400, 1000, 10 ** 6, 10 ** 9, 100, 36000, 7200):
                    if q and (f + i) % 3 or len(str(f)) + {"s": 9, "s_unit": 9, "ms": 6, "us": 3, "ns": 0}[unit] > 15:
                        continue
                    yield [["mul", f, d], unit, "str", "time", True, True, ""]
    return gen


def check_trees(case, ctx):
    """any model read from a file: its patterns and its residuals are exactly the log of the file"""
    models, namer, is_dt, extra = case
    f = os.path.join(ctx.scratch, "model.json")
    models = [(t, t0, trees.errors(trees.totree(t), e)) for t, t0, e in models]
    data, _ = trees.write(f, models, trees.data_of(models, extra), logs.NAMES[namer], is_dt, 9 if is_dt else 0, 60 if is_dt else 1)
    m = miner()
    m.import_patterns(f)
    ctx.step()
    ctx.state(case)
    verify(m, data, is_dt, ctx, "imported")


def tree_cases(q):
    def gen():
        i = 0
        for t in trees.all_trees(q):
            for e in (trees.ERRS[i % 8], trees.ERRS[(i + 3) % 8]) if q else trees.ERRS:
                i += 1
                yield [[[t, 100 + i % 7, e]], ["str", "int", "numstr"][i % 3], i % 2 == 0, i % 5 != 0]
        base = [t for t in trees.all_trees(True) if trees.perref.size(trees.totree(t)) < 60][::9]
        for n in (2, 3, 5, 10, 11, 12, 25, 101):
            for off in range(3):    # overlapping patterns
                i += 1
                yield [[[base[(j * 7 + off) % len(base)], 100 + (37 * j) % 50, trees.ERRS[j % 8]] for j in range(n)], "str", off == 1, off != 2]
    return gen


def spaces(tier):
    q = tier == "quick"
    return [Space("trees", tree_cases(q), check_trees, "models read from files: every pattern tree of at most 3 levels and 3 leaves or 2 levels and 4 leaves (4 and 4, 3 levels 5), "
                  "x numbers x corrections; trees of 4..6 levels, 5..26 children, 10..101 repetitions; 1..101 overlapping patterns", timeout=120),
            Space("types", types(q), check_log, "logs with every kind of event (text, blank and odd text, numbers, booleans, dates, bytes, categories, nullable types)", timeout=300),
            Space("scale", scale(q), check_log, "2..33 events, concatenations of up to 7 events, many cycles of an event, a single instant; logs moved by -2^60..2^60 and stretched by up to 10^12, "
                  "every unit of time", timeout=300),
            Space("long", long_logs(q), check_long, "logs of 99..420 and 2000..3050 occurrences of an event: perfect and irregular cycles, phase shifts around the sizes of the blocks", timeout=700),
            Space("grids", small(q), check_log, "every non-trivial subset of a 10 (12) instant grid for one event, every pair of subsets of a "
                  "4 (5) instant grid for two events, x grid steps, far anchors, index kinds, orders, duplicates", timeout=120),
            Space("structured", structured(q), check_log, "simple, nested, concatenated and irregular logs x index kinds (integers, "
                  "datetimes from ns to days, pre-1970, second units) x events types x row orders x duplicates x complex x auto_time_scale",
                  timeout=400)]
