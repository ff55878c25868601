"""P01: LCM returns exactly the closed frequent itemsets, each once, with exact support and tids."""
from fractions import Fraction

from mc import dbs
from mc.core import Space

PROPERTY = "P01"
ASSUMPTIONS = ["items are hashable, mutually comparable scalars (not sequences); at least one transaction is non-empty; min_supp > 0",
               "reference: closed sets of positive support are exactly the intersections of transactions"]


def LCM(**kw):
    from skmine.itemsets import LCM as L
    return L(**kw)


def compare(df, ref, ctx, what, with_tids):
    rows = list(zip(df["itemset"].tolist(), df["support"].tolist()))
    got = {}
    for it, sup in rows:
        k = frozenset(it)
        ctx.ok(len(k) == len(it), f"{what}: repeated item inside itemset {it!r}")
        ctx.ok(k not in got, f"{what}: itemset {sorted(k)!r} returned twice")
        got[k] = int(sup)
    want = {k: len(v) for k, v in ref.items()}
    if got != want:
        miss = [sorted(k) for k in want if k not in got][:3]
        extra = [sorted(k) for k in got if k not in want][:3]
        wrong = [(sorted(k), got[k], want[k]) for k in got if k in want and got[k] != want[k]][:3]
        ctx.fail(f"{what}: missing={miss} extra={extra} wrong support (itemset, got, expected)={wrong}")
    if with_tids:
        for it, tids in zip(df["itemset"].tolist(), df["tids"].tolist()):
            ctx.ok(set(tids) == set(ref[frozenset(it)]) and len(tids) == len(ref[frozenset(it)]),
                   f"{what}: tids of {it!r} are {sorted(tids)[:20]!r}, expected {sorted(ref[frozenset(it)])[:20]!r}")


def check_db(case, ctx, Miner=None, reference=dbs.closed_frequent):
    desc, namer = case[0], case[1]
    Miner = Miner or LCM
    db = dbs.name(dbs.structured(desc), namer)
    n = len(db)
    if not any(db):
        return
    import copy
    keep = copy.deepcopy(db)
    supports = sorted({len(v) for v in dbs.tidsets(db).values()})
    if n <= 8:
        levels = list(range(1, n + 2))
    else:
        levels = sorted({1, 2, 3} | set(supports[-3:]) | {s + 1 for s in supports[-2:]} | {supports[len(supports) // 2]})
    ref1 = reference(db, 1) if reference is dbs.closed_frequent else None
    for ms in levels:
        if ref1 is not None:
            ref = {k: v for k, v in ref1.items() if len(v) >= ms}
        else:
            ref = reference(db, ms)
        ctx.state((desc, namer, ms))
        m = Miner(min_supp=ms)
        m.fit(db)
        df = m.transform(db, return_tids=bool(ms % 2) or n > 8)
        ctx.step(2)
        compare(df, ref, ctx, f"min_supp={ms}", "tids" in df)
        ctx.outcome(sorted((sorted(map(str, k)), len(v)) for k, v in ref.items()))
    ctx.eq(db, keep, "the caller's database was modified")


def float_cases(nmax):
    def gen():
        for n in range(1, nmax + 1):
            for k in range(1, n + 1):
                yield [n, k]
    return gen


def check_float(case, ctx, Miner=None):
    """item 0 occurs in exactly k of n transactions, item 1 in all of them; relative thresholds around k/n"""
    n, k = case
    Miner = Miner or LCM
    db = [[0, 1] if t < k else [1] for t in range(n)]
    exact = Fraction(k, n)
    for ms, incl in [(k / n, True)] + [e for eps in (1e-3, 1e-4, 1e-5, 1e-6, 1e-7) for e in (
            (min(1.0, (k + eps) / n), k == n), (max(1e-9, (k - eps) / n), True))] + [
            (min(1.0, k / n + 1e-3), k == n), (max(1e-9, k / n - 1e-3), True)]:
        df = Miner(min_supp=ms).fit_transform(db)
        got = {frozenset(i): s for i, s in zip(df["itemset"].tolist(), df["support"].tolist())}
        ctx.step()
        ctx.state((n, k, ms))
        ctx.eq((frozenset([0, 1]) in got), bool(incl), f"itemset of relative support {exact} kept at min_supp={ms!r}")
    lo = int(100 * k / n)
    for p in (lo, lo + 1):   # two-decimal thresholds
        if not 0 < p <= 100:
            continue
        ms = p / 100
        df = Miner(min_supp=ms).fit_transform(db)
        got = {frozenset(i): s for i, s in zip(df["itemset"].tolist(), df["support"].tolist())}
        ctx.step()
        ctx.state((n, k, ms))
        ctx.eq((frozenset([0, 1]) in got), exact >= Fraction(p, 100),
               f"itemset of relative support {exact} kept at min_supp={ms!r}")
        ctx.outcome((n, frozenset([0, 1]) in got))


def check_relative_db(case, ctx, Miner=None, reference=dbs.closed_frequent):
    """every relative threshold that separates two supports of a database: on each support and between them"""
    masks = case
    Miner = Miner or LCM
    db = [dbs.mask(m) for m in masks]
    if not any(db):
        return
    n = len(db)
    for half in range(1, 2 * n + 1):
        ms = half / (2 * n)
        ref = reference(db, (half + 1) // 2)
        ctx.state((masks, half))
        df = Miner(min_supp=ms).fit_transform(db)
        ctx.step()
        compare(df, ref, ctx, f"min_supp={ms!r} on {n} transactions", False)
        ctx.outcome(sorted((sorted(k), len(v)) for k, v in ref.items()))


def relative_db_cases(q):
    def gen():
        yield from dbs.multisets(3, 4 if q else 6, lo=2)
        yield from dbs.multisets(4, 2 if q else 4, lo=2)
        for n in (5, 6, 7, 9, 10, 11, 13):
            for a in ([3, 1, 2], [7, 3, 5, 6], [7, 1], [15, 7, 11, 3]):
                yield (a * n)[:n]
                yield (a * n)[n:2 * n]
    return gen


TYPES = ("int", "str", "numstr", "float", "mixnum", "negint", "blank", "onechar", "bytes", "npint", "npstr", "bool", "date",
         "decimal", "neg", "huge", "oct")
FORMATS = ["listlist", "listtuple", "series", "series_idx", "listset", "dups", "str", "revitems"]


def as_format(db, fmt):
    import pandas as pd
    if fmt == "listlist":
        return [list(t) for t in db]
    if fmt == "listtuple":
        return [tuple(t) for t in db]
    if fmt == "series":
        return pd.Series([list(t) for t in db])
    if fmt == "series_idx":
        return pd.Series([list(t) for t in db], index=[17 - 3 * i for i in range(len(db))])
    if fmt == "listset":
        return [set(t) for t in db]
    if fmt == "dups":
        return [list(t) + list(t)[:1] for t in db]
    if fmt == "revitems":
        return [list(t)[::-1] for t in db]
    if fmt == "str":
        return ["".join(str(i) for i in t) for t in db]


def check_format(case, ctx, Miner=None, reference=dbs.closed_frequent):
    masks, namer, fmt = case
    Miner = Miner or LCM
    db = dbs.name([dbs.mask(m) for m in masks], namer)
    if not any(db):
        return
    data = as_format(db, fmt)
    for ms in range(1, len(db) + 1):
        ctx.state((masks, namer, fmt, ms))
        df = Miner(min_supp=ms).fit_transform(data, return_tids=True)
        ctx.step()
        ref = reference(db, ms)
        compare(df, ref, ctx, f"format={fmt} min_supp={ms}", True)
        ctx.outcome(sorted((sorted(map(str, k)), len(v)) for k, v in ref.items()))


def format_cases(maxlen):
    def gen():
        for fmt in FORMATS:
            for namer in (("str", "onechar") if fmt == "str" else TYPES):
                for masks in dbs.sequences(3, maxlen, lo=1, empty=False):
                    yield [masks, namer, fmt]
    return gen


def db_spaces(tier, check, label):
    q = tier == "quick"

    def seqs():
        for m in dbs.sequences(3, 4 if q else 5):
            yield [["masks", m], "int"]
        for m in dbs.sequences(4, 2 if q else 3):
            yield [["masks", m], "str"]

    def msets():
        for m in dbs.multisets(4, 5 if q else 6, lo=3):
            yield [["masks", m], "int"]
        for m in dbs.multisets(5, 3 if q else 4, lo=2):
            yield [["masks", m[::-1]], "int"]

    def struct():
        for d in dbs.STRUCTURED_SMALL:
            for nm in ("int", "numstr", "negint"):
                yield [d, nm]
        for d in dbs.STRUCTURED_SMALL:
            yield [["rev", d], "int"]
            yield [["rot", 1, d], "int"]
        for d in dbs.STRUCTURED_LARGE:
            yield [d, "int"]
        if not q:
            for s in range(1, 200):
                for n, m in ((8, 7), (15, 9), (25, 10)):
                    yield [["lfsr", n, m, s], "int"]
    return [
        Space("sequences", seqs, check, "every sequence of <=4 (thorough 5) transactions over 3 items incl. empty ones, "
              "and of <=2 (3) over 4 items; every absolute threshold 1..n+1"),
        Space("multisets", msets, check, "every multiset of 3..5 (6) non-empty transactions over 4 items and of 2..3 (4) "
              "over 5 items; every threshold"),
        Space("structured", struct, check, "structured families (all k-subsets, chains, grids, rings, blocks, "
              "duplications up to 131074 transactions, fixed pseudo-random databases up to 300x16), three item namings"),
        Space("scale", lambda: ([d, nm] for d in dbs.SCALE for nm in (("int",) if q else ("int", "numstr", "negint"))), check,
              "one dimension at a time: itemsets of every length up to 70 that are extended, 3..300 items, up to 1081 results, "
              "all intervals of 4..24 items, transaction numbers around powers of two", timeout=300),
    ]


def spaces(tier):
    q = tier == "quick"
    return db_spaces(tier, check_db, "LCM") + [
        Space("relative", float_cases(45 if q else 130), check_float,
              "every pair k<=n<=45 (130): relative thresholds k/n, k/n+-0.001 and the two-decimal thresholds around k/n"),
        Space("relative-db", relative_db_cases(q), check_relative_db,
              "every multiset of 2..4 (6) transactions over 3 items, of 2 (4) over 4 items and cyclic databases of 5..13 "
              "transactions; relative thresholds exactly on and halfway between consecutive supports"),
        Space("formats", format_cases(2 if q else 3), check_format,
              "every sequence of <=2 (3) non-empty transactions over 3 items in 8 container formats x 17 item types"),
    ]
