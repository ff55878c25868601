"""P06: explicit-state search over interactive SLIM sessions and refit histories."""
import itertools

from mc import dbs, slimref
from mc.core import Space
from mc.p04_slim_lossless import SLIM

PROPERTY = "P06"
ASSUMPTIONS = ["candidates are itemsets over items of the data", "single process; sizes compared at relative 2e-4"]


def snap(s):
    return ([frozenset(k) for k in s.codetable_], slimref.table(s), float(s.data_size_), float(s.model_size_))


def build(db, pruning, hist):
    s = SLIM(pruning=pruning)
    s.prefit(db)
    for c in hist:
        s.update(candidate=frozenset(c))
    return s


def check_candidates(s, before, ctx, what):
    """candidates are unions of two used itemsets which occur together, best first, without those already seen"""
    used = [(k, v) for k, v in before[1].items() if v]
    pairs = {a | b for (a, x), (b, y) in itertools.combinations(used, 2) if x & y}
    plain = [(frozenset(c), float(g)) for c, g in s.generate_candidates()]
    cands = [c for c, _ in plain]
    ctx.step()
    ctx.ok(set(cands) <= pairs and len(set(cands)) == len(cands), f"{what}: candidates {cands} are not pairs of used itemsets")
    ctx.ok(all(a[1] >= b[1] for a, b in zip(plain, plain[1:])) and all(g > 0 for _, g in plain), f"{what}: candidates are not in order of gain: {plain}")
    if cands:
        stack = {cands[0]}
        rest = [frozenset(c) for c, _ in s.generate_candidates(stack=stack)]
        ctx.step()
        ctx.eq(rest, cands[1:], f"{what}: candidates without {sorted(cands[0])}")
        ctx.ok(pairs <= stack, f"{what}: {pairs - stack} are not remembered as seen")
        ctx.eq(s.generate_candidates(stack=stack), [], f"{what}: candidates when all have been seen")
    ctx.ok(snap(s) == before, f"{what}: generating candidates changed the code table")


def check_learning(case, ctx):
    """every change of the model during fit makes it shorter and installs what was evaluated"""
    desc, namer, pruning = case
    db = dbs.name(dbs.structured(desc), namer)
    if not any(db):
        return
    s = SLIM(pruning=pruning)
    trace = []
    real = s.update

    def update(*a, **k):
        before = float(s.data_size_) + float(s.model_size_)
        r = real(*a, **k)
        trace.append((before, float(s.data_size_) + float(s.model_size_)))
        slimref.check_table(s, db, ctx, f"after {len(trace)} insertions")
        ctx.step()
        ctx.state((desc, namer, pruning, sorted(map(str, slimref.table(s).items()))))
        return r
    s.update = update
    s.fit(db)
    for a, b in trace:
        ctx.ok(b < a, f"an accepted candidate changes the total size from {a} to {b}")
    for (_, b), (a, _) in zip(trace, trace[1:]):
        ctx.ok(a == b, f"the size changes from {b} to {a} between two insertions")
    ctx.outcome(len(trace))


def learning_cases(q):
    def gen():
        for masks in dbs.multisets(3, 4 if q else 5):
            for pruning in (True, False):
                yield [["masks", masks], "int", pruning]
        for d in dbs.STRUCTURED_SMALL + dbs.SLIM_SCALE:
            for pruning in (True, False):
                yield [d, "int", pruning]
    return gen


def check_session(case, ctx):
    """breadth-first search from the standard code table: every transition is evaluate+update with one itemset"""
    desc, namer, pruning, depth = case
    db = dbs.name(dbs.structured(desc), namer)
    if not any(db):
        return
    fdb = [frozenset(t) for t in db]
    items = sorted({i for t in db for i in t})
    menu = [frozenset(c) for k in range(1, len(items) + 1) for c in itertools.combinations(items, k)]
    s0 = build(db, pruning, [])
    slimref.check_table(s0, db, ctx, "standard code table")
    key0 = frozenset(slimref.table(s0).items())
    ctx.state((desc, namer, pruning, sorted(map(str, key0))))
    seen = {key0}
    frontier = [[]]
    for _ in range(depth):
        nxt = []
        for hist in frontier:
            s = build(db, pruning, hist)
            before = snap(s)
            keys0 = set(before[1])
            check_candidates(s, before, ctx, f"history {[sorted(h) for h in hist]} (pruning={pruning})")
            for c in menu:
                what = f"history {[sorted(h) for h in hist]} then {sorted(c)} (pruning={pruning})"
                d, m, us = s.evaluate(c)
                ctx.step()
                ctx.ok(snap(s) == before, f"{what}: evaluating a candidate changed the code table")
                us = {frozenset(k): frozenset(v) for k, v in us.items()}
                # predicted by the model
                order = sorted(keys0 | {c}, key=lambda x: slimref.std_key(x, fdb))
                cov, _ = slimref.greedy_cover(order, fdb)
                cd, cm = slimref.sizes(cov, fdb)
                if not pruning:
                    ctx.ok(us == cov, f"{what}: evaluated usages differ from the greedy cover")
                    ctx.ok(slimref.close(d, cd) and slimref.close(m, cm), f"{what}: evaluated sizes {d},{m} expected {cd},{cm}")
                else:
                    ctx.ok(float(d) + float(m) <= cd + cm + 2e-3 + 2e-4 * (cd + cm), f"{what}: pruning made the encoding longer")
                    ctx.ok(set(us) <= keys0 | {c}, f"{what}: unknown itemsets appeared")
                    cov2, _ = slimref.greedy_cover(sorted(set(us), key=lambda x: slimref.std_key(x, fdb)), fdb)
                    ctx.ok(us == cov2, f"{what}: evaluated usages differ from the greedy cover of the kept itemsets")
                    d2, m2 = slimref.sizes(us, fdb)
                    ctx.ok(slimref.close(d, d2) and slimref.close(m, m2), f"{what}: evaluated sizes {d},{m} expected {d2},{m2}")
                s2 = build(db, pruning, hist)
                s2.update(candidate=c)
                ctx.step()
                tab = slimref.check_table(s2, db, ctx, what)
                ctx.ok({k: v for k, v in tab.items() if v or len(k) == 1} == {k: v for k, v in us.items() if v or len(k) == 1},
                       f"{what}: update does not install the evaluated usages")
                ctx.ok(all(k in keys0 or k == c for k in tab), f"{what}: unknown itemsets in the code table")
                ctx.ok(slimref.close(float(s2.data_size_), float(d)) and slimref.close(float(s2.model_size_), float(m)),
                       f"{what}: update does not install the evaluated sizes")
                ctx.eq([list(t) for t in s2.reconstruct()], [sorted(t) for t in fdb], f"{what}: reconstruction")
                k = frozenset(tab.items())
                if k not in seen:
                    seen.add(k)
                    ctx.state((desc, namer, pruning, sorted(map(str, k))))
                    nxt.append(hist + [sorted(c)])
                ctx.outcome(round(float(d) + float(m), 3))
        frontier = nxt


def session_cases(q):
    def gen():
        for masks in dbs.multisets(3, 3 if q else 4):
            for pruning in (True, False):
                yield [["masks", masks], "str", pruning, 2 if q else 3]
        for masks in ([7, 7, 3, 5], [7, 3, 3, 6, 6], [7, 7, 7, 3, 3, 1, 2], [3, 3, 3, 5, 5, 6]):
            for pruning in (True, False):
                yield [["masks", masks], "oct", pruning, 4 if q else 6]
        for d in (["compl", 4], ["ring", 4, 2], ["masks", [15, 15, 15, 7, 7, 3]], ["masks", [15, 12, 3, 3, 5]], ["ksub", 4, 2]):
            for pruning in (True, False):
                yield [d, "int", pruning, 2 if q else 3]
    return gen


def check_long(case, ctx):
    """long itemsets inserted one after the other"""
    desc, pruning, order = case
    db = dbs.structured(desc)
    fdb = [frozenset(t) for t in db]
    n = max(i for t in db for i in t) + 1
    longest = sorted(max(fdb, key=len))
    menu = [frozenset(longest[:k]) for k in range(2, len(longest) + 1, max(1, len(longest) // 8))] + [frozenset(longest)] + [
        frozenset(longest[k:]) for k in range(1, len(longest) - 1, max(1, len(longest) // 5))] + [t for t in fdb[:6] if len(t) > 1]
    s = SLIM(pruning=pruning)
    s.prefit(db)
    for j, c in enumerate(menu if order else menu[::-1]):
        what = f"insertion {j} of {len(c)} items, pruning={pruning}"
        keys0 = set(slimref.table(s))
        before = snap(s)
        d, m, us = s.evaluate(c)
        ctx.step()
        ctx.ok(snap(s) == before, f"{what}: evaluating changed the model")
        us = {frozenset(k): frozenset(v) for k, v in us.items()}
        kept = sorted(set(us) if pruning else keys0 | {c}, key=lambda x: slimref.std_key(x, fdb))
        ctx.ok(set(kept) <= keys0 | {c}, f"{what}: unknown itemsets appeared")
        cov, _ = slimref.greedy_cover(kept, fdb)
        ctx.ok(us == cov, f"{what}: evaluated usages differ from the greedy cover")
        cd, cm = slimref.sizes(cov, fdb)
        ctx.ok(slimref.close(d, cd) and slimref.close(m, cm), f"{what}: evaluated sizes {d},{m} expected {cd},{cm}")
        if pruning:
            full, _ = slimref.greedy_cover(sorted(keys0 | {c}, key=lambda x: slimref.std_key(x, fdb)), fdb)
            fd, fm = slimref.sizes(full, fdb)
            ctx.ok(cd + cm <= fd + fm + 2e-3 + 2e-4 * (fd + fm), f"{what}: pruning made the encoding longer")
        if j % 2:
            s.update(candidate=c)
        else:
            s.update(usages=s.evaluate(c)[2], data_size=d, model_size=m)
        tab = slimref.check_table(s, db, ctx, what)
        ctx.ok({k: v for k, v in tab.items() if v or len(k) == 1} == {k: v for k, v in us.items() if v or len(k) == 1},
               f"{what}: update does not install the evaluated usages")
        ctx.state((desc, pruning, sorted(map(str, tab.items()))))
        ctx.eq(sorted(s.get_support(*sorted(c))), slimref.supp(c, fdb), f"{what}: support")
        ctx.step(2)
    ctx.eq([list(t) for t in s.reconstruct()], [sorted(t) for t in fdb], "reconstruction")
    ctx.outcome(len(slimref.table(s)))


def long_cases(q):
    def gen():
        for d in dbs.SLIM_SCALE + [["ext", m, 2] for m in range(2, 40, 3)] + [["chain", n] for n in (8, 13, 17, 24, 33, 40)] + [
                ["lfsr", 30, 16, 5], ["lfsr", 20, 40, 3], ["dup", 2, ["compl", 9]]]:
            for pruning in (True, False):
                yield [d, pruning, len(repr(d)) % 2 == 0]
                if not q:
                    yield [d, pruning, len(repr(d)) % 2 == 1]
    return gen


def check_big_refit(case, ctx):
    """a model that has answered many questions about one database is fitted on another over the same items"""
    first, n_supports, second, pruning, other = case
    a, b = dbs.structured(first), dbs.structured(second)
    s = SLIM(pruning=pruning).fit(a)
    fa = [frozenset(t) for t in a]
    its = sorted({i for t in a for i in t})
    asker = SLIM().fit(a) if other else s
    asked = list(itertools.islice((c for k in (1, 2, 3, 4) for c in itertools.permutations(its, k)), n_supports))
    for c in asked:
        asker.get_support(*c)
    for c in asked[:: 1 + n_supports // 40]:
        ctx.eq(sorted(asker.get_support(*c)), slimref.supp(frozenset(c), fa), f"support of {c}")
    ctx.step(n_supports)
    s.fit(b)
    fresh = SLIM(pruning=pruning).fit(b)
    ctx.ok(snap(s) == snap(fresh), f"after {n_supports} supports: refitted {snap(s)}, fresh {snap(fresh)}")
    fb = [frozenset(t) for t in b]
    known = {i for t in b for i in t}
    for c in asked[:: 1 + n_supports // 40]:
        if set(c) <= known:
            ctx.eq(sorted(s.get_support(*c)), slimref.supp(frozenset(c), fb), f"support of {c} after the second fit")
    slimref.check_table(s, b, ctx, f"second fit after {n_supports} supports")
    ctx.step()
    ctx.state(case)
    ctx.outcome(len(s.codetable_))


def big_cases(q):
    def gen():
        pairs = [(["lfsr", 20, 12, 1], ["lfsr", 18, 12, 7]), (["blocks", 4, 3, 4], ["ring", 12, 3]), (["ring", 12, 3], ["nested", 4, 3, 3])]
        for a, b in pairs:
            for n in (0, 10, 127, 128, 255, 256, 300, 511, 512, 700, 1023, 1024, 1025, 1500, 2100, 4200, 9000):
                for pruning in (True, False):
                    for other in (False, True):
                        yield [a, n, b, pruning, other]
    return gen


# ---------------------------------------------------------------- refit / several instances
HDB = [[3, 3, 6], [7, 1, 6, 6], [5, 5, 5, 2, 0], [6, 6, 1, 1, 3], [4, 7, 7, 2]]
OPS = ([["fit", k, d] for k in (0, 1) for d in range(len(HDB))] + [["prefit", 0, 1], ["prefit", 0, 3]]
       + [["cover", 0], ["support", 0], ["len", 0], ["transform", 0], ["update", 0]])


def check_history(case, ctx):
    ops, pruning = case
    inst = [SLIM(pruning=pruning), SLIM(pruning=pruning)]
    cur = [None, None]
    fitted = [False, False]
    for op in ops:
        k = op[1]
        s = inst[k]
        if op[0] in ("fit", "prefit"):
            db = dbs.name([dbs.mask(m) for m in HDB[op[2]]], "str")
            getattr(s, op[0])(db)
            cur[k] = op[2]
            fitted[k] |= op[0] == "fit"
            fresh = getattr(SLIM(pruning=pruning), op[0])(db)
            ctx.ok(snap(s) == snap(fresh), f"{ops}: {op} gives another model than a fresh instance: "
                   f"{snap(s)} vs {snap(fresh)}")
        elif cur[k] is None:
            continue
        elif op[0] == "update":
            db = dbs.name([dbs.mask(m) for m in HDB[cur[k]]], "str")
            its = sorted({i for t in db for i in t})[:2]
            s.update(candidate=frozenset(its))
        elif op[0] == "support":
            db = [frozenset(t) for t in dbs.name([dbs.mask(m) for m in HDB[cur[k]]], "str")]
            its = sorted({i for t in db for i in t})
            for n in range(1, len(its) + 1):
                for c in itertools.permutations(its, n):
                    ctx.eq(sorted(s.get_support(*c)), slimref.supp(frozenset(c), db), f"{ops}: support of {c}")
                    ctx.step()
        elif not fitted[k]:
            continue
        else:
            before = snap(s)
            db = dbs.name([dbs.mask(m) for m in HDB[cur[k]]], "str")
            if op[0] == "cover":
                s.cover([["a", "b"], ["c"], ["zz", "a"]])
            elif op[0] == "len":
                s.get_code_length([["a", "b"], ["c"]])
                s.decision_function([["a", "b"], ["c"]])
            else:
                s.transform(db, return_tids=True)
            ctx.ok(snap(s) == before, f"{ops}: {op[0]} changed the model")
        ctx.step()
        for j in (0, 1):
            if cur[j] is not None:
                slimref.check_table(inst[j], dbs.name([dbs.mask(m) for m in HDB[cur[j]]], "str"), ctx,
                                    f"{ops} after {op}, instance {j}")
        ctx.state((cur, pruning, [sorted(map(str, slimref.table(inst[j]).items())) if cur[j] is not None else 0 for j in (0, 1)]))
    ctx.outcome((cur, repr(ops[-1])))


def history_cases(depth):
    def gen():
        for k in range(1, depth + 1):
            for ops in itertools.product(OPS, repeat=k):
                if ops[0][0] not in ("fit", "prefit"):
                    continue
                for pruning in (True, False):
                    yield [list(ops), pruning]
    return gen


def spaces(tier):
    q = tier == "quick"
    return [
        Space("learning", learning_cases(q), check_learning,
              "all multisets of <=4 (5) transactions over 3 items and structured databases: the model after each accepted candidate of a fit", timeout=400),
        Space("sessions", session_cases(q), check_session,
              "breadth-first search over code tables reachable by inserting any itemset over the items (incl. ones already "
              "present), depth 2..4 (3..6), all multisets of <=3 (4) transactions over 3 items and selected 3-4 item databases, "
              "pruning on and off", timeout=400),
        Space("long", long_cases(q), check_long, "structured databases with transactions of 2..40 items: up to 20 insertions of itemsets "
              "of every eighth length, prefixes and suffixes, pruning on and off", timeout=400),
        Space("big-histories", big_cases(q), check_big_refit, "0..9000 support queries (of the same or of another model) between two fits on "
              "different databases over the same items"),
        Space("histories", history_cases(3 if q else 4), check_history,
              "every sequence of <=3 (4) operations (fit/prefit on 5 databases, cover, code lengths, supports, transform, "
              "insertion) on two live models; each refit compared with a fresh model"),
    ]
