"""Finite families of transactional databases.  Every family is a pure function of its
(JSON-able) descriptor, so a descriptor is a replayable case."""
import datetime
import decimal
import itertools

import numpy as np

NAMERS = {
    "int": lambda i: i,
    "negint": lambda i: 3 - i,
    "bigint": lambda i: 10 ** 12 + 7 * i,
    "str": lambda i: chr(ord("a") + i) if i < 26 else f"z{i}",
    "numstr": lambda i: str(9 + i),            # '9','10','11': lexicographic != numeric
    "words": lambda i: ["milk", "butter", "bananas", "cookies", "tea", "apple juice", "é"][i] if i < 7 else f"w{i}",
    "float": lambda i: i + 0.5,
    "tuple": lambda i: (i % 2, i),
    "oct": lambda i: 8 * i,                    # small ints that collide in small hash tables
    "mixnum": lambda i: i if i % 2 else i + 0.5,
    "blank": lambda i: ["", " ", "a b", "\t", "nan", "None", "0"][i] if i < 7 else f" {i} ",
    "onechar": lambda i: [" ", "\t", ",", "é", "0", "\n", "A"][i] if i < 7 else chr(200 + i),
    "bytes": lambda i: b"x" * i,
    "npint": lambda i: np.int64(5 - i),
    "npstr": lambda i: np.str_("k" * (1 + i)),
    "bool": lambda i: [False, True][i] if i < 2 else i,
    "date": lambda i: datetime.date(2020, 1, 1) + datetime.timedelta(days=40 * i),
    "decimal": lambda i: decimal.Decimal(i) / 10,
    "neg": lambda i: -1 - i,                   # hash(-1) == hash(-2)
    "huge": lambda i: 2 ** 70 + i,
}


def name(db, namer):
    f = NAMERS[namer]
    return [[f(i) for i in t] for t in db]


def mask(m):
    return [i for i in range(m.bit_length()) if m >> i & 1]


def sequences(n_items, n_trans, lo=1, empty=True):
    """every sequence of lo..n_trans transactions over n_items items (masks)"""
    alpha = range(0 if empty else 1, 2 ** n_items)
    for k in range(lo, n_trans + 1):
        for seq in itertools.product(alpha, repeat=k):
            yield list(seq)


def multisets(n_items, n_trans, lo=1):
    alpha = range(1, 2 ** n_items)
    for k in range(lo, n_trans + 1):
        for seq in itertools.combinations_with_replacement(alpha, k):
            yield list(seq)


def structured(desc):
    """descriptor list -> database (list of lists of ints)"""
    kind, args = desc[0], desc[1:]
    if kind == "masks":
        return [mask(m) for m in args[0]]
    if kind == "ksub":
        n, k = args
        return [list(c) for c in itertools.combinations(range(n), k)]
    if kind == "compl":
        (n,) = args
        return [[j for j in range(n) if j != i] for i in range(n)]
    if kind == "chain":
        (n,) = args
        return [list(range(i + 1)) for i in range(n)]
    if kind == "rchain":
        (n,) = args
        return [list(range(n - i)) for i in range(n)]
    if kind == "blocks":
        n, b, m = args
        return [list(range(i * b, (i + 1) * b)) for i in range(n) for _ in range(m + i % 2)]
    if kind == "grid":
        a, b = args
        return [[i, a + j] for i in range(a) for j in range(b)]
    if kind == "grid3":
        a, b, c = args
        return [[i, a + j, a + b + k] for i in range(a) for j in range(b) for k in range(c)]
    if kind == "mod":
        n, m = args
        return [[k - 1 for k in range(1, m + 1) if i % k == 0] for i in range(1, n + 1)]
    if kind == "window":
        n, w = args
        return [list(range(i, i + w)) for i in range(n)]
    if kind == "ring":
        n, w = args
        return [sorted((i + d) % n for d in range(w)) for i in range(n)]
    if kind == "dup":
        m, sub = args
        return [t for t in structured(sub) for _ in range(m)]
    if kind == "cat":
        return [t for sub in args for t in structured(sub)]
    if kind == "shift":
        k, sub = args
        return [[i + k for i in t] for t in structured(sub)]
    if kind == "pad":   # add a common item to every transaction of sub
        k, sub = args
        return [[k] + [i for i in t if i != k] for t in structured(sub)]
    if kind == "rev":
        return structured(args[0])[::-1]
    if kind == "rot":
        k, sub = args
        d = structured(sub)
        return d[k:] + d[:k]
    if kind == "lfsr":  # deterministic, irregular database: n transactions over m items, about 1/3 dense
        n, m, s = args
        x, out = s, []
        for _ in range(n):
            t = []
            for j in range(m):
                x = (1103515245 * x + 12345) % (1 << 31)
                if (x >> 16) % 3 == 0:
                    t.append(j)
            out.append(t)
        return out
    if kind == "ext":     # a block of m items in some transactions, f items that extend it and are more frequent
        m, f = args
        free = [list(c) for k in range(f + 1) for c in itertools.combinations(range(f), k)]
        return [s + list(range(f, f + m)) for s in free] + [s for s in free if s for _ in range(2)]
    if kind == "ext2":    # the extending items are less frequent
        m, f = args
        free = [list(c) for k in range(f + 1) for c in itertools.combinations(range(m, m + f), k)]
        return [list(range(m)) + s for s in free] + [list(range(m))] * 3 + [s for s in free if s]
    if kind == "inter":   # prefixes and suffixes of n items: the closed sets are all intervals
        n, c = args
        return [list(range(i + 1)) for i in range(n) for _ in range(c)] + [list(range(i, n)) for i in range(n)]
    if kind == "nested":  # blocks that grow: every transaction of a size is repeated
        n, b, m = args
        return [list(range(b * (i + 1))) for i in range(n) for _ in range(m)]
    if kind == "twins":   # pairs of long transactions that differ by one item
        n, b = args
        return [t for i in range(n) for c in [list(range(i * (b + 2), i * (b + 2) + b))]
                for t in (c + [i * (b + 2) + b], c + [i * (b + 2) + b + 1])]
    raise ValueError(kind)


STRUCTURED_SMALL = (
    [["ksub", n, k] for n in range(2, 7) for k in range(1, n + 1)]
    + [["compl", n] for n in range(2, 9)]
    + [["chain", n] for n in (2, 3, 5, 9, 17, 33)]
    + [["rchain", n] for n in (3, 9, 20)]
    + [["blocks", n, b, m] for n in (2, 5) for b in (1, 2, 4) for m in (1, 3)]
    + [["grid", a, b] for a in (2, 3, 5) for b in (2, 4)]
    + [["grid3", 2, 2, 2], ["grid3", 3, 2, 2]]
    + [["mod", n, m] for n in (6, 12, 30) for m in (4, 6, 8)]
    + [["window", n, w] for n in (3, 8, 12) for w in (2, 3, 5)]
    + [["ring", n, w] for n in (4, 7, 10) for w in (2, 3)]
    + [["dup", m, ["masks", s]] for m in (2, 10, 40) for s in ([1, 3, 6], [7, 5, 3], [15, 7, 12, 8])]
    + [["cat", ["ksub", 4, 2], ["dup", 3, ["chain", 4]]], ["pad", 0, ["ksub", 5, 2]], ["rev", ["mod", 12, 6]]]
    + [["lfsr", n, m, s] for n, m in ((6, 6), (10, 8), (20, 7), (40, 6)) for s in (1, 2, 3, 4)]
)
STRUCTURED_LARGE = (
    [["dup", 300, ["masks", [1, 3, 6, 5]]], ["dup", 22000, ["masks", [1, 3, 7, 6]]],
     ["cat", ["dup", 65536, ["masks", [3]]], ["dup", 65536, ["masks", [6]]], ["masks", [5, 7]]]]
    + [["chain", 70], ["blocks", 40, 3, 1], ["window", 100, 4], ["compl", 10], ["ksub", 7, 3], ["ring", 30, 3]]
    + [["lfsr", 100, 12, s] for s in (1, 2)] + [["lfsr", 30, 16, 5], ["lfsr", 300, 9, 6]]
)


# one dimension grows at a time: length of the itemsets, number of items, of transactions, of results, depth of the search
SCALE = ([["ext", m, 2] for m in range(1, 71)] + [["ext2", m, 2] for m in range(2, 71, 4)]
         + [["ext", m, f] for f in (3, 4, 5, 6, 7) for m in (1, 3, 10)]
         + [["inter", n, c] for n in range(4, 25) for c in (1, 2)]
         + [["ring", n, 2] for n in (3, 5, 16, 17, 31, 32, 33, 63, 64, 65, 66, 100, 127, 128, 129, 130, 255, 256, 257, 300)]
         + [["chain", n] for n in range(34, 70, 5)] + [["compl", n] for n in (9, 11)]
         + [["twins", n, b] for n in (1, 2, 9, 40) for b in (1, 5, 12, 33, 64)]
         + [["ksub", n, 2] for n in (12, 20, 30, 47)] + [["ksub", 8, 4], ["ksub", 9, 3]]
         + [["cat", ["ksub", n, 2], ["shift", 60, d]] for n in (12, 24, 47) for d in (["compl", 6], ["inter", 5, 1])]
         + [["dup", k, ["masks", [3, 6, 5, 1]]] for k in range(3, 70, 6)]
         + [["cat", ["masks", [3]] , ["dup", k, ["masks", [4]]], ["masks", [3, 7]]] for k in (7, 15, 31, 32, 62, 63, 64, 126, 127, 254, 255, 256, 1000, 4094, 65533)])
SLIM_SCALE = ([["blocks", 1, b, 5] for b in range(2, 34)] + [["blocks", 2, b, 4] for b in range(3, 20, 3)]
              + [["blocks", n, 2, 5] for n in range(1, 41, 3)] + [["blocks", n, 3, 4] for n in range(1, 26, 4)]
              + [["dup", 5, ["chain", n]] for n in range(3, 17)] + [["nested", n, b, 4] for n in (2, 3, 4) for b in range(1, 9)]
              + [["dup", 3, ["twins", n, b]] for n in (1, 3) for b in (2, 5, 11)]
              + [["dup", 3, ["ext", m, 2]] for m in range(2, 22, 3)] + [["ring", n, 3] for n in (6, 12, 24, 40)])


# usages on both sides of the limits of 8- and 16-bit counters
SLIM_COUNTERS = [["cat", ["dup", k, ["masks", [3]]], ["dup", m, ["masks", [5]]]] for k in (127, 128, 129, 254, 255, 256, 257)
                 for m in (0, 1, 2)] + [["dup", k, ["masks", [3, 6]]] for k in (64, 128, 256)] + [
    ["cat", ["dup", n - m, ["masks", [3]]], ["dup", m, ["masks", [7]]]] for n in (128, 256, 65536) for m in (1, 2)]
SLIM_LARGE = SLIM_COUNTERS + [["dup", 300, ["masks", [1, 3, 6, 5]]], ["dup", 22000, ["masks", [1, 3, 7, 6]]], ["chain", 17],
              ["blocks", 5, 3, 40], ["dup", 32768, ["masks", [3]]], ["dup", 65536, ["masks", [7]]], ["cat", ["dup", 65536, ["masks", [3]]], ["dup", 65536, ["masks", [6]]], ["masks", [5, 7]]],
              ["lfsr", 60, 9, 1], ["lfsr", 100, 10, 2], ["window", 12, 5]]
SLIM_LARGER = [["lfsr", 200, 12, s] for s in range(3)] + [["chain", 30], ["ksub", 7, 3], ["blocks", 20, 3, 9],
                                                          ["mod", 60, 12], ["ring", 20, 4], ["grid", 8, 8]]


# ------------------------------------------------------------- reference models

def tidsets(db):
    res = {}
    for t, tr in enumerate(db):
        for i in tr:
            res.setdefault(i, set()).add(t)
    return res


def closed_frequent(db, min_supp):
    """{frozenset items: frozenset tids} for every non-empty closed itemset with >= max(1,min_supp) tids.

    Reference: a set is closed iff it is the intersection of the transactions containing it;
    all closed sets of positive support are intersections of distinct transactions."""
    distinct = {}
    for t, tr in enumerate(db):
        distinct.setdefault(frozenset(tr), []).append(t)
    closed = set()
    for tr in distinct:
        new = {tr}
        for c in closed:
            new.add(c & tr)
        closed |= new
    res = {}
    for c in closed:
        if not c:
            continue
        tids = []
        for tr, ts in distinct.items():
            if c <= tr:
                tids += ts
        if len(tids) >= min_supp and tids:
            res[c] = frozenset(tids)
    return res


def maximal_frequent(db, min_supp):
    cl = closed_frequent(db, min_supp)
    keys = sorted(cl, key=len, reverse=True)
    return {c: cl[c] for c in keys if not any(c < d for d in keys)}
