"""Reference model of a SLIM code table (boring, dictionary based)."""
import math

from mc import dbs


def supp(itemset, db):
    return [t for t, tr in enumerate(db) if itemset <= tr]


def std_key(itemset, db):
    return (-len(itemset), -len(supp(itemset, db)), tuple(sorted(itemset)))


def greedy_cover(ordered, db):
    """usage (tids) of every itemset when each transaction is covered greedily in the given order"""
    usage = {x: [] for x in ordered}
    rest_all = []
    for t, tr in enumerate(db):
        rest = set(tr)
        for x in ordered:
            if x <= rest:
                usage[x].append(t)
                rest -= x
        rest_all.append(rest)
    return {x: frozenset(u) for x, u in usage.items()}, rest_all


def xlog(u, tot):
    return -math.log2(u / tot)


def sizes(usage, db):
    """(data size, model size) of a code table with these usages"""
    st = {i: len(t) for i, t in dbs.tidsets(db).items()}
    stot = sum(st.values())
    used = {x: len(u) for x, u in usage.items() if u}
    tot = sum(used.values())
    data = sum(u * xlog(u, tot) for u in used.values())
    model = sum(xlog(u, tot) for u in used.values()) + sum(xlog(st[i], stot) for x in used for i in x)
    return data, model


def close(a, b, rel=2e-4, ab=2e-3):
    if math.isinf(a) or math.isinf(b) or a != a or b != b:
        return a == b
    return abs(a - b) <= ab + rel * max(abs(a), abs(b))


def table(slim):
    return {frozenset(k): frozenset(v) for k, v in slim.codetable_.items()}


def check_partition(tab, db, ctx, what):
    per = [[] for _ in db]
    for x, tids in tab.items():
        for t in tids:
            ctx.ok(0 <= t < len(db), f"{what}: usage of {sorted(x)} names transaction {t} that does not exist")
            per[t].append(x)
    for t, tr in enumerate(db):
        seen = []
        for x in per[t]:
            seen += list(x)
        ctx.ok(len(seen) == len(set(seen)), f"{what}: transaction {t} {sorted(tr)} is covered with overlaps by "
               f"{[sorted(x) for x in per[t]]}")
        ctx.ok(set(seen) == set(tr), f"{what}: transaction {t} {sorted(tr)} is covered by {[sorted(x) for x in per[t]]}")


def check_table(slim, db, ctx, what, order=True):
    """every invariant of a code table that encodes db; returns its usages"""
    db = [frozenset(t) for t in db]
    tab = table(slim)
    for i in dbs.tidsets(db):
        ctx.ok(frozenset([i]) in tab, f"{what}: single item {i!r} has no code")
    check_partition(tab, db, ctx, what)
    if order:
        keys = [frozenset(k) for k in slim.codetable_]
        want = sorted(keys, key=lambda x: std_key(x, db))
        ctx.eq([sorted(k) for k in keys], [sorted(k) for k in want], f"{what}: not in standard cover order")
        cov, _ = greedy_cover(keys, db)
        ctx.ok(cov == tab, f"{what}: usages {sorted((sorted(k), sorted(v)) for k, v in tab.items())} are not the greedy cover "
               f"{sorted((sorted(k), sorted(v)) for k, v in cov.items())}")
    d, m = sizes(tab, db)
    ctx.ok(close(float(slim.data_size_), d), f"{what}: reported data size {float(slim.data_size_)} but its codes give {d}")
    ctx.ok(close(float(slim.model_size_), m), f"{what}: reported model size {float(slim.model_size_)} but its codes give {m}")
    return tab
