"""P05: SLIM's code table is a correctly accounted, never worse, locally optimal compression of the data."""
from mc import dbs, slimref
from mc.core import Space
from mc.p04_slim_lossless import SLIM, db_cases

PROPERTY = "P05"
ASSUMPTIONS = ["sizes are compared with a relative tolerance of 2e-4 (single precision logarithms are used by the code)"]


def check_db(case, ctx):
    desc, namer = case
    db = dbs.name(dbs.structured(desc), namer)
    if not any(db):
        return
    fdb = [frozenset(t) for t in db]
    base, _ = slimref.greedy_cover(sorted((frozenset([i]) for i in dbs.tidsets(db)), key=lambda x: slimref.std_key(x, fdb)), fdb)
    d0, m0 = slimref.sizes(base, fdb)
    for pruning in (True, False):
        ctx.state((desc, namer, pruning))
        s = SLIM(pruning=pruning)
        s.prefit(db)
        ctx.step()
        ctx.ok(slimref.close(float(s.data_size_), d0) and slimref.close(float(s.model_size_), m0),
               f"standard code table sizes {float(s.data_size_)}, {float(s.model_size_)}; expected {d0}, {m0}")
        s.fit(db)
        ctx.step()
        tab = slimref.check_table(s, db, ctx, f"pruning={pruning}")
        ctx.ok(not pruning or all(v or len(x) == 1 for x, v in tab.items()), f"pruning keeps itemsets without usage: "
               f"{[sorted(x) for x, v in tab.items() if not v and len(x) > 1]}")
        d, m = slimref.sizes(tab, fdb)
        ctx.ok(d + m <= d0 + m0 + 1e-3 + 1e-5 * (d0 + m0),
               f"pruning={pruning}: total {d + m} bits is worse than the single-item code table {d0 + m0}")
        if len(db) > 2000:
            continue
        # termination only at a local optimum of its own search
        total = float(s.data_size_) + float(s.model_size_)
        cands = s.generate_candidates(stack=set(s.codetable_.keys()))
        gains = [g for _, g in cands]
        ctx.eq(gains, sorted(gains, reverse=True), f"pruning={pruning}: candidates are not by decreasing gain")
        keys = list(tab)
        unions = {a | b for a in keys for b in keys if a != b and tab[a] & tab[b]}
        seen = set()
        for c, g in cands:
            c = frozenset(c)
            ctx.ok(c in unions and c not in tab and c not in seen, f"pruning={pruning}: improper candidate {sorted(c)}")
            seen.add(c)
            dd, mm, us = s.evaluate(c)
            ctx.step()
            ctx.ok(float(dd) + float(mm) >= total - 1e-3, f"pruning={pruning}: stopped although {sorted(c)} improves "
                   f"{total} to {float(dd) + float(mm)}")
        if not pruning:
            ctx.ok(all(len(x) == 1 or supp_pos(x, fdb) for x in tab), "code table itemset that never occurs")
        ctx.outcome(round(d + m, 4))


def supp_pos(x, db):
    return any(x <= t for t in db)


def spaces(tier):
    q = tier == "quick"

    def extra():
        yield from db_cases(q)()
        for m in dbs.multisets(4, 4, lo=4):
            yield [["masks", m], "int"]
    return [Space("databases", extra, check_db,
                  "every sequence of <=3 (4) transactions over 3 items incl. empty, every multiset of 2..4 (5) over 4 items, of "
                  "4..5 (7) over 3 items, structured families, itemsets of up to 33 items and up to 40 itemsets, 13 more item types; pruning on and off: sizes, order, cover and local optimality",
                  timeout=240)]
