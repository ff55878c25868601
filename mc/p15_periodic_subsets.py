"""P15: any selection of patterns and its complement partition the data; exporting and importing patterns is lossless."""
import itertools
import os

from mc import logs, trees
from mc.core import Space
from mc.p12_periodic_lossless import frame_occs, miner, occs, series, sortedness
from mc.p13_periodic_table import table

PROPERTY = "P15"
ASSUMPTIONS = ["events that JSON can hold (strings, numbers, booleans)", "naive timestamps or integer times"]


def select(m, data, is_dt, ctx, what, limit=6):
    """every subset of the pattern ids (all subsets up to `limit` patterns, else all of size <= 2 and their complements)"""
    n = len(m.miners_.getPatterns())
    each = [set(frame_occs(m.reconstruct([i]), is_dt, ctx, what)) for i in range(n)]
    ctx.step(n)
    if n <= limit:
        subsets = [s for k in range(0, n + 1) for s in itertools.permutations(range(n), k) if k <= 2 or list(s) == sorted(s)]
    else:
        subsets = [s for k in (0, 1, 2) for s in itertools.combinations(range(n), k)]
        subsets += [tuple(sorted(set(range(n)) - set(s), reverse=True)) for s in subsets]
    out = {}
    for s in subsets:
        ids = list(s)
        want = set().union(*[each[i] for i in s])
        for sort in ("time", "event", "construction_order") if len(s) == 1 else ("time",):
            rec = frame_occs(m.reconstruct(ids, sort=sort), is_dt, ctx, what)
            res = frame_occs(m.get_residuals(ids, sort=sort), is_dt, ctx, what)
            ctx.step(2)
            ctx.eq(set(rec), want, f"{what}: occurrences of patterns {ids}")
            ctx.ok(sort == "construction_order" or len(set(rec)) == len(rec), f"{what}: reconstruct({ids}) repeats an occurrence")
            ctx.ok(len(set(res)) == len(res), f"{what}: get_residuals({ids}) repeats an occurrence")
            ctx.eq(set(res), data - want, f"{what}: complement of patterns {ids}")
            sortedness(rec, sort, ctx, f"{what}: reconstruct({ids}, sort={sort})")
            sortedness(res, sort, ctx, f"{what}: get_residuals({ids}, sort={sort})")
        ctx.eq(ids, list(s), "list of ids of the caller")
        out[frozenset(s)] = want
    ctx.eq(set(frame_occs(m.reconstruct(), is_dt, ctx, what)), set().union(*each), f"{what}: occurrences of all patterns")
    ctx.eq(set(frame_occs(m.get_residuals(), is_dt, ctx, what)), data.difference(*each), f"{what}: residuals of all patterns")
    return out


def check(case, ctx):
    desc, kind, namer, cplx, auto, auto2 = case
    rows = sorted(set(logs.log(desc)))
    if len(rows) < 2:
        return
    S = series(rows, kind, namer)
    data = occs(S)
    is_dt = kind != "int"
    ctx.state(case)
    m = miner(complex=cplx, auto_time_scale=auto).fit(S)
    ctx.step()
    sel = select(m, data, is_dt, ctx, "fitted")
    n = len(m.miners_.getPatterns())
    t = table(m, is_dt, ctx, "fitted", dE_sum=False)
    f = os.path.join(ctx.scratch, "patterns-é.json")
    f2 = os.path.join(ctx.scratch, "again.json")
    for name in (f, f2):
        if os.path.exists(name):
            os.unlink(name)
    m.export_patterns(f)
    ctx.step()
    ctx.eq(table(m, is_dt, ctx, "exported", dE_sum=False), t, "table after exporting")
    raw = open(f).read()
    # a fresh miner, and a miner which already holds another model
    other = miner(complex=True, auto_time_scale=auto2).fit(series([(0, 0), (7, 0), (14, 0), (21, 0), (28, 1), (35, 0)], "day", "numstr"))
    other.transform(None)
    for m2, what in ((miner(complex=True, auto_time_scale=auto2), "fresh import"), (other, "import over another model")):
        m2.import_patterns(f)
        ctx.step()
        ctx.eq(len(m2.miners_.getPatterns()), n, f"{what}: number of patterns")
        ctx.eq(table(m2, is_dt, ctx, what, dE_sum=False), t, f"{what}: table")
        sel2 = select(m2, data, is_dt, ctx, what, limit=3)
        for s in sel2.keys() & sel.keys():
            ctx.eq(sel2[s], sel[s], f"{what}: occurrences of patterns {sorted(s)}")
        m2.export_patterns(f2)
        ctx.step()
        ctx.eq(open(f2).read(), raw, f"{what}: exporting again")
    m.fit(S)
    ctx.eq(table(m, is_dt, ctx, "refit", dE_sum=False), t, "table after a refit")
    ctx.eq(open(f).read(), raw, "file after importing it")
    ctx.outcome((n, len(data)))


def check_trees(case, ctx):
    """patterns of any shape survive reading, selecting, writing and reading again"""
    models, namer, is_dt = case
    f, f2 = os.path.join(ctx.scratch, "model.json"), os.path.join(ctx.scratch, "copy.json")
    models = [(t, t0, trees.errors(trees.totree(t), e)) for t, t0, e in models]
    data, names = trees.write(f, models, trees.data_of(models), logs.NAMES[namer], is_dt, 9 if is_dt else 0, 3600 if is_dt else 1)
    m = miner()
    m.import_patterns(f)
    ctx.step()
    ctx.state(case)
    sel = select(m, data, is_dt, ctx, "imported", limit=3)
    t = table(m, is_dt, ctx, "imported", dE_sum=False)
    ctx.eq(len(t), len(models), "number of patterns")
    m.export_patterns(f2)
    m2 = miner()
    m2.import_patterns(f2)
    ctx.step(2)
    ctx.eq(table(m2, is_dt, ctx, "imported again", dE_sum=False), t, "table after writing and reading")
    sel2 = select(m2, data, is_dt, ctx, "imported again", limit=2)
    for s in sel2.keys() & sel.keys():
        ctx.eq(sel2[s], sel[s], f"occurrences of patterns {sorted(s)} after writing and reading")
    ctx.outcome(len(data))


def tree_cases(q):
    def gen():
        i = 0
        for t in trees.all_trees(q):
            for e in (trees.ERRS[i % 8],) if q else trees.ERRS:
                i += 1
                yield [[[t, 100 + i % 7, e]], ["str", "int", "numstr"][i % 3], i % 2 == 0]
        base = [t for t in trees.all_trees(True) if trees.perref.size(trees.totree(t)) < 40][::9]
        for n in (2, 3, 5, 6, 11):
            for off in range(3 if n < 6 else 1):
                i += 1
                yield [[[base[(j * 7 + off) % len(base)], 100 + (37 * j) % 50, trees.ERRS[j % 8]] for j in range(n)], "str", off == 1]
    return gen


KINDS = ["int", "min", "hour", "day", "s", "ms", "us", "old", "s_unit"]


def grids(q):
    def gen():
        i = 0
        for mask in range(3, 2 ** (8 if q else 11)):
            if bin(mask).count("1") < 2:
                continue
            i += 1
            yield [["sub", [mask], [7, 3, 1, 10][i % 4], [None, 1000, 100000, 600][i % 4]], ["int", "min", "int", "ms"][i % 4], ["str", "int"][i % 2],
                   True, i % 6 != 0, i % 5 != 0]
        for a, b in itertools.product(range(1, 2 ** (4 if q else 5)), repeat=2):
            i += 1
            yield [["sub", [a, b], [5, 10, 1][i % 3], [5000, None, 300][i % 3]], ["int", "hour", "int", "day"][i % 4], ["str", "int", "numstr", "rint"][i % 4],
                   True, i % 7 != 0, i % 3 != 0]
    return gen


def structured(q):
    def gen():
        i = 0
        for d in logs.SIMPLE + logs.COMPLEX:
            for kind in (KINDS if not q else ["int", KINDS[1 + i % 8]]):
                i += 1
                if len(logs.log(d)) > 30 and kind == "us":
                    continue
                yield [d, kind, ["str", "int", "numstr", "rint"][i % 4], i % 8 != 3, i % 5 != 1, i % 3 != 1]
        ds = [logs.SIMPLE[i] for i in (4, 16)] + [logs.COMPLEX[i] for i in (12, 26)] + [logs.SCALE[0], logs.SCALE[3]]
        for i, d in enumerate(ds):
            for j, namer in enumerate(logs.JSONABLE + list(logs.DTYPES)):
                if not (namer in ("int8", "uint8") and d is logs.SCALE[3] or q and (i + j) % 2):
                    yield [d, ["int", "min"][(i + j) % 2], namer, True, True, True]
        for i, d in enumerate(logs.SCALE):
            if not q or len(logs.log(d)) < 70:
                yield [d, ["int", "min", "day"][i % 3], "str", True, True, True]
        for d in ds[:4]:
            for i, (op, v) in enumerate([("add", v) for v in logs.OFFSETS] + [("mul", v) for v in logs.FACTORS]):
                yield [[op, v, d], "int", ["str", "int"][i % 2], True, i % 3 != 0, True]
        # many events, whose names sort differently as numbers and as text
        for k in (2, 5, 11, 12):
            d = ["cat"] + [["cyc", e, 13 * e, 50 + 7 * e, 6, [0]] for e in range(k)]
            for namer in ("str", "int", "numstr", "rint"):
                for kind in ("int", "min"):
                    yield [d, kind, namer, True, True, True]
    return gen


def spaces(tier):
    q = tier == "quick"
    return [Space("trees", tree_cases(q), check_trees, "models read from files: every pattern tree of at most 3 levels and 3 leaves or 2 levels and 4 leaves (4 and 4, 3 levels 5) "
                  "x corrections; trees of 4..6 levels, 5..26 children, 10..101 repetitions; 1..11 patterns, their selections", timeout=300),
            Space("grids", grids(q), check, "every subset of an 8 (11) instant grid for one event, every pair of subsets of a 4 (5) instant grid for two; for each mined model all "
                  "selections of patterns, export, import in a fresh and in a used miner, second export", timeout=120),
            Space("structured", structured(q), check, "structured logs x index kinds x event types (text, odd text, numbers, booleans, categories, nullable types), 2..33 events, times of up to 2^60; all selections (small models) or all of size <= 2 and complements; export/import cycles",
                  timeout=400)]
