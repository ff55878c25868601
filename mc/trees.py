"""Every pattern tree within bounds, as nested lists ["n", r, p, [[d, child], ..]] / ["e", event]; and the objects they stand for."""
import itertools

from mc import perref


def shapes(leaves, depth):
    """all ordered trees whose root is a block, with exactly `leaves` leaves and at most `depth` levels of blocks"""
    def forests(n, d, first=True):
        """ordered sequences of nodes with n leaves in total"""
        if n == 0:
            yield ()
            return
        for k in range(1, n + 1):
            for head in nodes(k, d):
                for rest in forests(n - k, d):
                    yield (head,) + rest

    def nodes(n, d):
        if n == 1:
            yield "L"
        if d > 0:
            for f in forests(n, d - 1):
                yield f
    for f in forests(leaves, depth - 1):
        yield f


def fill(shape, reps, gaps, evs, tight):
    """numbers for a shape: repetitions, distances and events are taken in turn from the given lists; a period is the
    span of the block plus a gap, or (tight) less than the span: repetitions interleave"""
    r_it, g_it, e_it = itertools.cycle(reps), itertools.cycle(gaps), itertools.cycle(evs)

    def go(s):
        if s == "L":
            return ["e", next(e_it)], 0
        r = next(r_it)
        kids, end, t = [], 0, 0
        for j, c in enumerate(s):
            d = next(g_it) if j else 0
            t += d
            k, span = go(c)
            kids.append([d, k])
            end = max(end, t + span)
        p = max(1, end // 2 + 1) if tight else end + 1 + next(g_it)
        return ["n", r, p, kids], end + p * (r - 1)
    return go(shape)[0]


def totree(t):
    return tuple(t) if t[0] == "e" else ("n", t[1], t[2], [(d, totree(k)) for d, k in t[3]])


def pattern(tree):
    """the library's object for a tree"""
    from skmine.periodic.pattern import Pattern
    nodes = {}

    def go(t, nid, parent):
        if t[0] == "e":
            nodes[nid] = {"parent": parent, "event": t[1]}
            return nid + 1
        node = nodes[nid] = {"parent": parent, "p": t[2], "r": t[1], "children": []}
        nxt = nid + 1
        for d, k in t[3]:
            node["children"].append((nxt, d))
            nxt = go(k, nxt, nid)
        return nxt
    go(tree, 0, None)
    return Pattern(nodes)


def errors(tree, kind):
    n = perref.size(tree) - 1
    return {"0": [0] * n, "1": [1] + [0] * (n - 1), "-1": [0] * (n - 1) + [-1], "alt": [(-1) ** i for i in range(n)],
            "mix": [[0, 2, -1, 0, 5, -3, 0][i % 7] for i in range(n)], "up": [1 + i % 3 for i in range(n)],
            "big": [[0, 300, -25, 17, -1][i % 5] for i in range(n)], "mid": [0] * (n // 2) + [-2] + [0] * (n - n // 2 - 1)}[kind]


def deep(q):
    """trees beyond the exhaustive bounds: many repetitions (two and three digits), many children, many levels"""
    big = [["L"], ["L", "L"], [["L"]], [["L"], "L"], ["L", ["L", "L"]]]
    for s in big:
        for reps in ([11], [2, 12], [12, 2], [101, 2], [2, 101], [3, 11, 2]):
            yield fill(s, reps, [5, 7, 0, 2], [0, 1, 2], False)
            yield fill(s, reps, [1, 3], [1, 1, 0], True)
    for k in (5, 9, 10, 11, 12, 13, 26):
        yield fill(["L"] * k, [2 + k % 2], [3, 0, 8, 1], list(range(4)), False)
        yield fill([["L"]] * k, [2], [30, 10], list(range(3)), k % 2 == 0)
        yield fill([["L"] * k, "L"], [2, 3], [3, 4], list(range(4)), False)
    for d in (4, 5, 6) if q else (4, 5, 6, 7):
        s = "L"
        t = "L"
        for _ in range(d):
            s = [s]
            t = [t, "L"] if d < 6 else [t]
        for reps in ([2], [3, 2] if d < 6 else [2, 2, 3]):
            yield fill(s, reps, [5, 2, 9], [0], False)
            yield fill(t, reps[-1:], [5, 2, 9], [0, 1, 2], False)
            yield fill(t[::-1], reps[-1:], [5, 2, 9], [0, 1, 2], True)


def perref_leaves(s):
    return 1 if s == "L" else sum(map(perref_leaves, s))


FILLS = [[[2, 3], [5, 7, 0, 2], [0, 1, 2], False], [[3, 2, 2], [0, 11, 4], [0, 0, 1], False], [[2], [3], [1, 0], True], [[2, 2, 3], [60, 1, 1440], [2, 0], False]]
ERRS = ["0", "1", "-1", "alt", "mix", "up", "mid", "big"]


def all_trees(q):
    """(descriptor) every shape of at most 3 (4) leaves and 3 levels (and 4 leaves, 2 levels) x numbers; then the deep ones"""
    for leaves, depth in ((1, 4), (2, 3), (3, 3), (4, 2)) if q else ((1, 5), (2, 4), (3, 4), (4, 3), (5, 2)):
        for s in shapes(leaves, depth):
            for f in FILLS:
                yield fill(s, *f)
    for t in deep(q):
        if perref.size(totree(t)) <= 320:
            yield t


def data_of(models, extra=True):
    """the log of a list of (tree, t0, E): all occurrences, and a few residuals before, between and after; times are >= 1"""
    rows = set()
    for t, t0, E in models:
        rows |= set(perref.decode(totree(t), t0, E))
    lo, hi = min(rows)[0], max(rows)[0]
    if extra:
        evs = sorted({e for _, e in rows} | {0, 1, 2, 3})
        rows |= {(lo - 3 - i, e) for i, e in enumerate(evs)} | {(hi + 60 + 7 * i, e) for i, e in enumerate(evs)}
    return sorted(rows)


def write(path, models, rows, namer, is_dt, n_zeros, div):
    """the file that stands for these patterns, with the log they come from; event numbers are ranks of the sorted names"""
    import json
    names = sorted(namer(e) for e in {e for _, e in rows})
    num = sorted({e for _, e in rows})
    seqs = {names[num.index(e)]: [t for t, x in rows if x == e] for e in num}
    pats = []
    for tree, t0, E in models:
        d = {"next_id": 0, "t0": t0, "E": E}

        def go(t, nid, parent):
            if t[0] == "e":
                d[nid] = {"parent": parent, "event": num.index(t[1])}
                return nid + 1
            node = d[nid] = {"parent": parent, "p": t[2], "r": t[1], "children": []}
            nxt = nid + 1
            for dist, k in t[3]:
                node["children"].append([nxt, dist])
                nxt = go(k, nxt, nid)
            return nxt
        d["next_id"] = go(tree, 0, None)
        pats.append(d)
    data = seqs if all(isinstance(n, str) for n in names) else [[n, v] for n, v in seqs.items()]
    with open(path, "w") as f:
        json.dump({"is_datetime_": is_dt, "n_zeros_": n_zeros, "div_nb_sec_": div, "data_details": data, "patterns": pats}, f)
    unit = 10 ** n_zeros * div
    return {(t * unit, names[num.index(e)]) for t, e in rows}, {str(n): n for n in names}
