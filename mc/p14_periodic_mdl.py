"""P14: periodic patterns pay for themselves: code lengths follow the definition and compression never gets worse."""
import itertools

from mc import logs, perref, trees
from mc.core import Space
from mc.p12_periodic_lossless import miner

PROPERTY = "P14"
ASSUMPTIONS = ["integer times (P13 relates datetimes to integer times)",
               "code lengths compared at relative 1e-9"]


def close(a, b):
    return abs(a - b) <= 1e-9 * max(1.0, abs(a), abs(b))


def mine(rows, cplx):
    import pandas as pd
    S = pd.Series([e for _, e in rows], index=pd.Index([t for t, _ in rows], dtype="int64"))
    return miner(complex=cplx, auto_time_scale=False).fit(S)


def tree_of(p, nid=0):
    """the reference tree of a Pattern object"""
    n = p.nodes[nid]
    if "children" not in n:
        return ("e", n["event"])
    return ("n", int(n["r"]), int(n["p"]), [(int(d) if j else 0, tree_of(p, c)) for j, (c, d) in enumerate(n["children"])])


def check(case, ctx):
    desc, cplx = case
    rows = sorted(set(logs.log(desc)))
    if len(rows) < 2:
        return
    m = mine(rows, cplx)
    ctx.step()
    nb, a, b = perref.data_stats(rows)
    if a == b:
        return
    evs = sorted(nb)
    num = {e: i for i, e in enumerate(evs)}
    nbn = {num[e]: c for e, c in nb.items()}
    ctx.state(case)
    alone = sum(perref.cost_single(nb, e, b - a) for _, e in rows)
    ds = m.data_details_
    ctx.ok(close(ds.codeLengthResiduals(), alone), f"code length of the residuals alone: {ds.codeLengthResiduals()} instead of {alone}")
    left = {(t, num[e]) for t, e in rows}
    total = 0.0
    for pid, (p, t0, E) in enumerate(m.miners_.getPatterns()):
        tree = tree_of(p)
        E = [int(e) for e in E]
        dec = perref.decode(tree, int(t0), E)
        want = perref.code_length(tree, int(t0), E, nbn, a, b)
        got = p.codeLength(t0, E, ds.getDetails())
        ctx.step()
        ctx.ok(close(got, want), f"code length of {p} at {t0} with {E}: {got} instead of {want}")
        if not cplx:
            ctx.ok(perref.depth(tree) == 1 and len(tree[3]) == 1, f"{p} is not a simple cycle")
        if perref.depth(tree) == 1 and len(tree[3]) == 1 and E:
            ts = [t for t, _ in dec]
            ctx.ok(ts == sorted(ts), f"{p}: occurrences out of order")
            diffs = sorted(y - x for x, y in zip(ts, ts[1:]))
            best = sum(abs(d - diffs[len(diffs) // 2]) for d in diffs)
            ctx.ok(sum(map(abs, E)) == best, f"{p}: corrections {E} add up to more than {best}, what the best period gives")
        new = left & set(dec)
        gain = sum(perref.cost_single(nbn, e, b - a) for _, e in new)
        ctx.ok(len(new) >= 3, f"{p} covers {len(new)} new occurrences only")
        ctx.ok(want < gain + 1e-9, f"{p} costs {want} bits for occurrences which cost {gain} bits alone")
        left -= new
        total += want
        ctx.outcome((perref.depth(tree), len(tree[3]), tree[1], min(sum(map(abs, E)), 9)))
    total += sum(perref.cost_single(nbn, e, b - a) for _, e in left)
    ctx.ok(close(m.miners_.codeLength(ds), total), f"total code length {m.miners_.codeLength(ds)} instead of {total}")
    ctx.ok(total <= alone + 1e-9, f"the patterns expand the data: {total} > {alone}")
    stat, _ = m.miners_.output_detailed(ds)
    ctx.ok(close(stat["Code length patterns"] + stat["Code length residuals"], total), f"statistics {stat} instead of {total}")
    ctx.eq((stat["Total patterns nb"], stat["Total residual nb"]), (len(m.miners_.getPatterns()), len(left)), "counts in the statistics")


def check_trees(case, ctx):
    """code length of a pattern of any shape"""
    from skmine.periodic.data_sequence import DataSequence
    tree, t0, e, extra = case
    tree = trees.totree(tree)
    E = trees.errors(tree, e)
    rows = trees.data_of([(tree, t0, E)], extra)
    nb, a, b = perref.data_stats(rows)
    evs = sorted(nb)
    if a == b or evs != list(range(len(evs))):
        return
    ds = DataSequence([(t, e) for t, e in rows])
    p = trees.pattern(tree)
    want = perref.code_length(tree, t0, E, nb, a, b)
    got = p.codeLength(t0, E, ds.getDetails())
    ctx.step()
    ctx.state(case)
    ctx.ok(close(got, want), f"code length of {p} at {t0} with {E}: {got} instead of {want}")
    ctx.outcome(round(want, 3))


def tree_cases(q):
    def gen():
        i = 0
        for t in trees.all_trees(q):
            for e in trees.ERRS:
                i += 1
                yield [t, 100 + i % 7, e, True]
                if i % 3 == 0:
                    yield [t, 100 + i % 7, e, False]
    return gen


def check_recall(case, ctx):
    """a log which is one perfect pattern is described by that pattern, as soon as it pays"""
    desc, tree = case
    tree = totree(tree)
    rows = sorted(set(logs.log(desc)))
    nb, a, b = perref.data_stats(rows)
    alone = sum(perref.cost_single(nb, e, b - a) for _, e in rows)
    t0 = rows[0][0]
    want = perref.code_length(tree, t0, [0] * (perref.size(tree) - 1), nb, a, b)
    m = mine(rows, True)
    ctx.step()
    ctx.state(case)
    got = m.miners_.codeLength(m.data_details_)
    ctx.ok(got <= min(alone, want) + 1e-9, f"the log takes {got} bits although its perfect pattern takes {want} bits ({alone} without pattern)")
    if want < alone - 1e-9:
        ctx.ok(len(m.miners_.getPatterns()) >= 1, "no pattern found in a perfectly periodic log")
        if perref.depth(tree) == 1 and len(tree[3]) == 1:
            ctx.eq([tree_of(p) for p, _, _ in m.miners_.getPatterns()], [tree], "patterns of a perfect cycle")
    ctx.outcome((want < alone, len(m.miners_.getPatterns())))


def totree(t):
    return tuple(t) if t[0] == "e" else ("n", t[1], t[2], [(d, totree(k)) for d, k in t[3]])


def recall(q):
    def gen():
        for r in list(range(3, 50 if q else 110)):
            for p in (1, 2, 3, 7, 10, 24, 60, 1440, 86400):
                for t0 in (0, 5):
                    yield [["cyc", 0, t0, p, r, [0]], ["n", r, p, [[0, ["e", 0]]]]]
        for r in range(4, 24 if q else 40):
            for p in (12, 20, 61, 1440):
                for d in range(1, 6):
                    yield [["seq", 0, p, r, [[0, 0], [1, d]], [0]], ["n", r, p, [[0, ["e", 0]], [d, ["e", 1]]]]]
    return gen


def grids(q):
    def gen():
        for n, step, anchors in ((12 if q else 15, 1, (None, 40, 100000)), (12 if q else 14, 60, (None, 10000))):
            for mask in range(7, 2 ** n, 2):
                for an in anchors:
                    yield [["sub", [mask], step, an], True]
        n2 = 5 if q else 7
        for a, b in itertools.product(range(1, 2 ** n2), repeat=2):
            for step, an in ((5, 5000), (1, 30)):
                yield [["sub", [a, b], step, an], True]
        # perturbations: every vector of jitters in {-2, 0, 1} of a cycle of 6 (7) occurrences
        for jit in itertools.product((-2, 0, 1), repeat=7 if q else 9):
            yield [["cat", ["cyc", 0, 10, 30, len(jit), list(jit)], ["raw", [[2000, 1]]]], len(jit) % 2 == 0 or sum(jit) % 2 == 0]
        for off, an in itertools.product(range(0, 12), (None, 900, 90000)):
            yield [["cat", ["seq", 3, 40, 6, [[0, 0], [1, off]], [0, 1, 0]]] + ([["raw", [[an, 2]]]] if an else []), True]
    return gen


def structured(q):
    def gen():
        for d in logs.SIMPLE + logs.COMPLEX:
            for cplx in (True, False):
                yield [d, cplx]
        for d in logs.SCALE:
            for cplx in (True, False):
                yield [d, cplx]
        for d in (logs.SIMPLE[1], logs.SIMPLE[16], logs.SIMPLE[17], logs.COMPLEX[3], logs.COMPLEX[12], logs.COMPLEX[31], ["sub", [0b1011011, 0b110111], 3, None]):
            for off in logs.OFFSETS:
                yield [["add", off, d], True]
            for f in logs.FACTORS:
                yield [["mul", f, d], True]
        # big distance between events, more events
        for mul in (7, 60):
            for d in logs.COMPLEX[:20] + logs.SIMPLE[-5:]:
                yield [["mul", mul, d], True]
    return gen


def long_logs(q):
    def gen():
        for d in (logs.HUGE[1:3] if q else logs.HUGE):
            yield [d, False]
        for d in logs.LONG:
            yield [d, False]
            if not q or d[0] in ("cat", "drop", "nest"):
                yield [d, True]
    return gen


def spaces(tier):
    q = tier == "quick"
    return [Space("trees", tree_cases(q), check_trees, "code length of every pattern tree of at most 3 levels and 3 leaves or 2 levels and 4 leaves (4 and 4, 3 levels 5), x numbers x corrections; "
                  "trees of 4..6 levels, 5..26 children, 10..101 repetitions", timeout=120),
            Space("long", long_logs(q), check, "logs of 99..420 and 2000..3050 occurrences of an event: perfect and irregular cycles, phase shifts around the sizes of the blocks", timeout=700),
            Space("grids", grids(q), check, "every subset of a grid for one event, pairs of subsets for two events, all small perturbations of a cycle", timeout=120),
            Space("structured", structured(q), check, "simple, nested, concatenated and irregular logs, with and without complex patterns; 2..33 events, a single instant, times of up to 2^60", timeout=400),
            Space("recall", recall(q), check_recall, "perfect cycles: 3..49 (109) repetitions x periods x origins; perfect pairs of events: 4..23 (39) repetitions x periods x distances", timeout=120)]
