"""P13: the pattern table is a faithful, self-contained description of the discovered patterns."""
import itertools
import os

from mc import logs, perref, trees
from mc.core import Space
from mc.p12_periodic_lossless import frame_occs, miner, occs, series

PROPERTY = "P13"
ASSUMPTIONS = ["naive timestamps or integer times within 64 bits, microsecond resolution or coarser for datetimes (the pattern is displayed with microseconds)",
               "event names without brackets at their start"]


def to_int(x):
    import numpy as np
    import pandas as pd
    if isinstance(x, pd.Timedelta):
        return int(x.value)
    if isinstance(x, pd.Timestamp):
        return int(x.as_unit("ns").value)
    if isinstance(x, (np.datetime64, np.timedelta64)):
        return int(x.astype("datetime64[ns]" if isinstance(x, np.datetime64) else "timedelta64[ns]").astype("int64"))
    if x != int(x):
        raise ValueError(f"{x!r} is not an integer")
    return int(x)


def table(m, is_dt, ctx, what, **kw):
    """{pattern id: (t0, pattern text, r, p, E or sum_E)} in row order"""
    df = m.transform(None, **kw)
    if len(df) == 0:
        return []
    last = "sum_E" if kw.get("dE_sum", True) else "E"
    ctx.eq(sorted(df.columns), sorted(["t0", "pattern", "repetition_major", "period_major", last]), f"{what}: columns")
    out = []
    for i in range(len(df)):
        row = df.iloc[i]
        v = row[last]
        v = to_int(v) if last == "sum_E" else [to_int(e) for e in v]
        out.append((int(df.index[i]), to_int(row["t0"]), row["pattern"], int(row["repetition_major"]), to_int(row["period_major"]), v))
    return out


def check_drawing(m, pid, tree, t0, names, is_dt, auto, ctx, what):
    """the drawn tree shows the start, every block (period, repetitions), every event and every non-zero distance"""
    import datetime
    import re

    def d(x):
        return str(datetime.timedelta(microseconds=x // 1000)) if is_dt and auto else str(x)
    blocks, leaves, dists = [], [], []

    def go(n, root):
        if n[0] == "e":
            leaves.append(str(n[1]))
            return
        start = ""
        if root:
            start = str(datetime.datetime(1970, 1, 1) + datetime.timedelta(microseconds=t0 // 1000)) if is_dt and auto else str(t0)
            start = "\U0001d70f=" + start + "\n"
        blocks.append(f"{start}p={d(n[2])}\nr={n[1]}")
        for j, (dd, k) in enumerate(n[3]):
            if j and dd:
                dists.append(d(dd))
            go(k, False)
    go(tree, True)
    src = "".join(m.draw_pattern(pid).body)
    val = r'(?:"([^"]*)"|([^\s\]]+))'
    got_b, got_l, got_d, edges = [], [], [], 0
    for x in re.finditer(r'\t(\d+) (?:-> (\d+) )?\[([^\]]*)\]', src):
        at = {k: (a or b) for k, a, b in re.findall(r"(\w+)=" + val, x.group(3))}
        if x.group(2) is None:
            (got_b if at.get("shape") == "box" else got_l).append(at["label"])
        elif at.get("style") == "dotted":
            got_d += [at["label"]] if at["label"] not in ("0", "0:00:00") else []   # distances of zero may be shown or not
        else:
            edges += 1
    ctx.step()
    ctx.eq(sorted(got_b), sorted(blocks), f"{what}: blocks of the drawing")
    ctx.eq(sorted(got_l), sorted(leaves), f"{what}: events of the drawing")
    ctx.eq(sorted(got_d), sorted(dists), f"{what}: distances of the drawing")
    ctx.eq(edges, len(blocks) + len(leaves) - 1, f"{what}: edges of the drawing")


def check_table(m, names, data, is_dt, ctx, what, mined=True):
    ids = range(len(m.miners_.getPatterns()))
    rows = table(m, is_dt, ctx, what, dE_sum=False)
    ctx.step()
    ctx.eq(sorted(r[0] for r in rows), list(ids), f"{what}: pattern ids of the table")
    ctx.ok([r[1] for r in rows] == sorted(r[1] for r in rows), f"{what}: the table is not in chronological order")
    ctx.eq(sorted(table(m, is_dt, ctx, what, dE_sum=False, chronological_order=False)), sorted(rows), f"{what}: table in mining order")
    ctx.eq([r[0] for r in table(m, is_dt, ctx, what, dE_sum=False, chronological_order=False)], list(ids), f"{what}: ids in mining order")
    sums = table(m, is_dt, ctx, what)
    ctx.step(2)
    union = set()
    for r, s in zip(sorted(rows), sorted(sums)):
        pid, t0, text, rep, per, E = r
        ctx.eq(s, (pid, t0, text, rep, per, sum(abs(e) for e in E)), f"{what}: row with the sum of corrections")
        try:
            tree = perref.parse(text, names, is_dt)
            dec = perref.decode(tree, t0, E)
        except (ValueError, StopIteration) as e:
            ctx.fail(f"{what}: row {pid} cannot be decoded: {e!r} ({text}, {len(E)} corrections)")
        ctx.eq((tree[1], tree[2]), (rep, per), f"{what}: repetition and period of {text}")
        real = frame_occs(m.reconstruct([pid], sort="construction_order"), is_dt, ctx, what)
        ctx.step()
        ctx.eq(dec, real, f"{what}: occurrences of {text} from {t0} with {E}")
        ctx.ok(set(real) <= data, f"{what}: {text} has occurrences which are not in the data")
        ctx.ok(not mined or len(set(real)) >= 2 and rep >= 2, f"{what}: {text} does not repeat")
        check_drawing(m, pid, tree, t0, names, is_dt, m.auto_time_scale, ctx, what)
        union |= set(real)
        ctx.outcome((perref.depth(tree), len(tree[3]), rep, min(len(set(E)), 5)))
    ctx.eq(set(frame_occs(m.reconstruct(), is_dt, ctx, what)), union, f"{what}: union of the patterns")
    return rows


def norm(rows, shift=0, mul=1):
    return [(i, (t0 - shift) // mul, r, p // mul, [e // mul for e in E]) for i, t0, _, r, p, E in rows]


def fit(rows, kind, namer, **kw):
    return miner(**kw).fit(series(rows, kind, namer))


def check_log(case, ctx):
    desc, kind, namer, cplx, auto = case
    rows = sorted(set(logs.log(desc)))
    if len(rows) < 2:
        return
    is_dt = kind not in ("int", "int_")
    S = series(rows, kind.rstrip("_"), namer)
    data = occs(S)
    names = {str(e): e for e in S.tolist()}
    ctx.state(case)
    m = miner(complex=cplx, auto_time_scale=auto).fit(S)
    ctx.step()
    t = check_table(m, names, data, is_dt, ctx, "table")
    # asking again, in another order, gives the same table
    m.get_residuals()
    ctx.eq(check_table(m, names, data, is_dt, ctx, "second call"), t, "table of the second call")
    # the presentation of the same log does not matter
    for order, dup in (("mix", True), ("rev", False)):
        r2 = logs.ORDERS[order](rows)
        if dup:
            r2 = r2 + r2[::2]
        m2 = fit(r2, kind.rstrip("_"), namer, complex=cplx, auto_time_scale=auto)
        ctx.step()
        ctx.eq(table(m2, is_dt, ctx, order, dE_sum=False), t, f"table of the same log given in {order} order")
    if kind == "int":
        # origin of time, and common factor removed by the automatic scale
        for shift in (100000, -700):
            m2 = fit([(a + shift, e) for a, e in rows], kind, namer, complex=cplx, auto_time_scale=False)
            m3 = fit(rows, kind, namer, complex=cplx, auto_time_scale=False)
            ctx.step(2)
            ctx.eq(norm(table(m2, is_dt, ctx, "shift", dE_sum=False), shift), norm(table(m3, is_dt, ctx, "", dE_sum=False)),
                   f"patterns of the log shifted by {shift}")
        base = [(a - rows[0][0] + 1, e) for a, e in rows]   # starts at 1: nothing to remove
        m4 = fit(base, kind, namer, complex=cplx, auto_time_scale=True)
        ref = table(m4, is_dt, ctx, "base", dE_sum=False)
        for mul in (10, 1000, 60 * 10 ** 9):
            m5 = fit([(a * mul, e) for a, e in base], kind, namer, complex=cplx, auto_time_scale=True)
            ctx.step()
            sc = check_table(m5, names, occs(series([(a * mul, e) for a, e in base], kind, namer)), is_dt, ctx, f"scale {mul}")
            ctx.eq(norm(sc, 0, mul), norm(ref), f"patterns of the log multiplied by {mul}")


KINDS = ["int", "min", "hour", "day", "s", "ms", "us", "old", "s_unit"]


def grids(q):
    def gen():
        i = 0
        for mask in range(7, 2 ** (11 if q else 13), 2):
            i += 1
            yield [["sub", [mask], [7, 3, 1, 10][i % 4], [None, 1000, 100000, 600][i % 4]], ["int", "min", "int", "ms"][i % 4], "str", True, i % 6 != 0]
        for a, b in itertools.product(range(1, 2 ** (5 if q else 6)), repeat=2):
            i += 1
            yield [["sub", [a, b], [5, 10, 1][i % 3], [5000, None, 300][i % 3]], ["int", "hour", "int", "day"][i % 4], ["str", "int"][i % 2], True, i % 7 != 0]
    return gen


def structured(q):
    def gen():
        i = 0
        for d in logs.SIMPLE + logs.COMPLEX:
            for kind in ["int"] + (KINDS[1:] if not q else [KINDS[1 + i % 8], KINDS[1 + (i + 3) % 8]]):
                i += 1
                if len(logs.log(d)) > 30 and kind == "us":
                    continue
                yield [d, kind, ["str", "int", "numstr", "rint"][i % 4], i % 8 != 3, i % 5 != 1]
        if not q:
            for d in logs.LARGE[:3]:
                yield [d, "int", "str", True, True]
    return gen


def types(q):
    def gen():
        ds = [logs.SIMPLE[i] for i in (4, 15, 16, 17)] + [logs.COMPLEX[i] for i in (4, 12, 26, 28)] + [logs.SCALE[0], logs.SCALE[3]]
        for i, d in enumerate(ds):
            for j, namer in enumerate(list(logs.NAMES) + list(logs.DTYPES)):
                if namer in ("int8", "uint8") and d is logs.SCALE[3] or namer in ("odd", "bytes"):
                    continue
                for k, kind in enumerate(("int", "min", "s_unit")):
                    if q and (i + j + k) % 4:
                        continue
                    yield [d, kind, namer, True, j % 4 != 0]
    return gen


def scale(q):
    def gen():
        for i, d in enumerate(logs.SCALE):
            for k, kind in enumerate(("int", "min", "day", "ms", "old")):
                if q and k and (i + k) % 6:
                    continue
                yield [d, kind, ["str", "int", "numstr", "rint"][(i + k) % 4], k != 3, i % 3 != 0]
        ds = [logs.SIMPLE[1], logs.SIMPLE[16], logs.SIMPLE[17], logs.COMPLEX[3], logs.COMPLEX[12], logs.COMPLEX[31], ["sub", [0b1011011, 0b110111], 3, None]]
        for i, d in enumerate(ds):
            for j, off in enumerate(logs.OFFSETS):
                if not q or (i + j) % 3 == 0:
                    yield [["add", off, d], "int_", "str", True, (i + j) % 2 == 0]
            for j, f in enumerate(logs.FACTORS):
                for off in (0, f, -f * 7, 1):
                    if not q or (i + j + off) % 3 == 0:
                        yield [["add", off, ["mul", f, d]], "int_", "int", True, off != 1]
            for unit in ("s", "ms", "us", "s_unit"):
                for f in (60, 3600, 86400, 1000, 10 ** 6, 10 ** 9, 100, 36000, 7200):
                    if q and (f + i) % 3 or len(str(f)) + {"s": 9, "s_unit": 9, "ms": 6, "us": 3}[unit] > 15:
                        continue
                    yield [["mul", f, d], unit, "str", True, True]
    return gen


def check_trees(case, ctx):
    """patterns of any shape, read from a file: the table and the drawing describe them"""
    models, namer, scale, auto = case
    f = os.path.join(ctx.scratch, "model.json")
    models = [(t, t0, trees.errors(trees.totree(t), e)) for t, t0, e in models]
    is_dt, nz, div = SCALES[scale]
    data, names = trees.write(f, models, trees.data_of(models), logs.NAMES[namer], is_dt, nz, div)
    m = miner(auto_time_scale=auto)
    m.import_patterns(f)
    ctx.step()
    ctx.state(case)
    rows = check_table(m, names, data, is_dt, ctx, "imported", False)
    u = 10 ** nz * div
    ctx.eq([(r[1], r[5]) for r in sorted(rows)], [(t0 * u, [e * u for e in E]) for _, t0, E in models], "starts and corrections")


SCALES = {"int": (False, 0, 1), "int3": (False, 3, 1), "min": (True, 9, 60), "day": (True, 9, 86400), "s": (True, 9, 1), "ms": (True, 6, 1)}


def tree_cases(q):
    def gen():
        i = 0
        for t in trees.all_trees(q):
            for k, e in enumerate(trees.ERRS):
                if q and k and (i + k) % 3:
                    continue
                i += 1
                yield [[[t, 100 + i % 7, e]], ["str", "int", "numstr"][i % 3], ["int", "min", "ms", "int3", "day", "s"][i % 6], i % 5 != 0]
        # several patterns: ids, order of the rows
        base = [t for t in trees.all_trees(True) if trees.perref.size(trees.totree(t)) < 60][::9]
        for n in (2, 3, 5, 10, 11, 12, 25, 101):
            for off in range(3):
                i += 1
                yield [[[base[(j * 7 + off) % len(base)], 100 + (37 * j) % 50, trees.ERRS[j % 8]] for j in range(n)], "str", ["int", "min"][off % 2], True]
    return gen


def spaces(tier):
    q = tier == "quick"
    return [Space("trees", tree_cases(q), check_trees, "every pattern tree of at most 3 levels and 3 leaves or 2 levels and 4 leaves (4 and 4, 3 levels 5), x numbers x corrections; "
                  "trees of 4..6 levels, 5..26 children, 10..101 repetitions; 1..101 patterns", timeout=120),
            Space("types", types(q), check_log, "logs with every kind of event (text, blank text, numbers, booleans, dates, categories, nullable types); each also reordered, with duplicates, moved and stretched", timeout=300),
            Space("scale", scale(q), check_log, "2..33 events, concatenations of up to 7 events, many cycles of an event, a single instant; logs moved by -2^60..2^60 and stretched by up to 10^12, "
                  "every unit of time", timeout=300),
            Space("grids", grids(q), check_log, "every subset of a 11 (13) instant grid for one event, every pair of subsets of a 5 (6) instant grid for two, "
                  "x steps, anchors, index kinds, auto_time_scale; each also shifted, scaled, reordered and with duplicates", timeout=120),
            Space("structured", structured(q), check_log, "simple, nested, concatenated and irregular logs x index kinds x event types; "
                  "each also shifted, scaled, reordered and with duplicates", timeout=400)]
