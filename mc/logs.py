"""Finite families of event logs: lists of [time, event id]; pure functions of JSON descriptors."""
import itertools


def log(desc):
    k, a = desc[0], desc[1:]
    if k == "raw":
        return [tuple(x) for x in a[0]]
    if k == "sub":      # bit masks per event over a grid of instants, grid step, optional far anchor
        masks, step, anchor = a
        out = [(i * step, e) for e, m in enumerate(masks) for i in range(m.bit_length()) if m >> i & 1]
        if anchor is not None:
            out.append((anchor, len(masks)))
        return out
    if k == "cyc":      # event, t0, period, repetitions, cyclic jitter
        e, t0, p, r, jit = a
        return [(t0 + i * p + jit[i % len(jit)], e) for i in range(r)]
    if k == "nest":     # event, t0, outer (p, r), inner (p, r), jitter
        e, t0, p1, r1, p2, r2, jit = a
        return [(t0 + i * p1 + j * p2 + jit[(i * r2 + j) % len(jit)], e) for i in range(r1) for j in range(r2)]
    if k == "nest3":
        e, t0, p1, r1, p2, r2, p3, r3, jit = a
        return [(t0 + i * p1 + j * p2 + m * p3 + jit[(i * r2 * r3 + j * r3 + m) % len(jit)], e)
                for i in range(r1) for j in range(r2) for m in range(r3)]
    if k == "seq":      # several events repeated together: t0, period, reps, [(event, offset)], jitter
        t0, p, r, evs, jit = a
        return [(t0 + i * p + d + jit[(i * len(evs) + j) % len(jit)], e) for i in range(r) for j, (e, d) in enumerate(evs)]
    if k == "nestseq":  # outer cycle over inner concatenated cycles
        t0, p1, r1, p2, r2, evs, jit = a
        return [(t0 + i * p1 + q * p2 + d + jit[(i * r2 + q + j) % len(jit)], e)
                for i in range(r1) for q in range(r2) for j, (e, d) in enumerate(evs)]
    if k == "cat":
        return [x for s in a for x in log(s)]
    if k == "mul":
        f, s = a
        return [(t * f, e) for t, e in log(s)]
    if k == "add":
        f, s = a
        return [(t + f, e) for t, e in log(s)]
    if k == "drop":     # remove every k-th occurrence
        n, s = a
        return [x for i, x in enumerate(log(s)) if i % n != n - 1]
    if k == "lcg":      # deterministic irregular times: n occurrences over ne events
        n, ne, mx, seed = a
        x, t, out = seed, 0, []
        for i in range(n):
            x = (1103515245 * x + 12345) % (1 << 31)
            t += 1 + (x >> 16) % mx
            out.append((t, (x >> 8) % ne))
        return out
    raise ValueError(k)


ORDERS = {
    "time": lambda l: sorted(l),
    "rev": lambda l: sorted(l, reverse=True),
    "event": lambda l: sorted(l, key=lambda x: (x[1], x[0])),
    "mix": lambda l: [x for p in range(3) for x in sorted(l)[p::3]],
}
NAMES = {
    "str": lambda e: ["wake up", "coffee", "zz", "bus (7)", "é", "6"][e % 6] + ("" if e < 6 else str(e)),
    "int": lambda e: 7 * e + 3,
    "rint": lambda e: 10 - e,
    "numstr": lambda e: str(9 + e),
    "blank": lambda e: ["", " ", "  ", "\t", "0", "None", "nan"][e % 7] + ("" if e < 7 else str(e)),
    "odd": lambda e: ['a"b', "a\nb", "a\\b", "a'b", "[x]", "{y}", "a,b", "event", "time", "é\u4e2d"][e % 10] + ("" if e < 10 else str(e)),
    "pre": lambda e: "a" * (e + 1),
    "case": lambda e: ["a", "A", "b", "B"][e % 4] * (1 + e // 4),
    "float": lambda e: e / 4 - 0.5,
    "neg": lambda e: 1 - e,
    "bool": lambda e: e % 2 == 1,
    "huge": lambda e: 10 ** 20 + e,
    "bytes": lambda e: b"\x00%d" % e,
    "date": lambda e: __import__("datetime").date(2020, 1, 1) + __import__("datetime").timedelta(days=e),
    "stamp": lambda e: __import__("pandas").Timestamp(2020, 1, 1) + __import__("pandas").Timedelta(days=e),
    "dec": lambda e: __import__("decimal").Decimal(e) / 8,
}
# the type of the values of the series, when it is not what pandas infers
DTYPES = {"category": "str", "category+": "str", "string": "str", "Int64": "int", "int8": "int", "uint8": "int", "float32": "float", "boolean": "bool", "object": "int"}
JSONABLE = ["str", "int", "rint", "numstr", "blank", "odd", "pre", "case", "float", "neg", "bool", "huge"]

J0, J1, J2, J3 = [0], [0, 1, 0, -1, 0], [0, 2, -1, 1, 0, 0, -2], [0, 0, 1]

SIMPLE = (
    [["cyc", 0, t0, p, r, j] for t0, p, r in ((0, 7, 3), (3, 10, 5), (0, 24, 12), (100, 60, 30), (5, 1, 8)) for j in (J0, J1, J2)]
    + [["cat", ["cyc", 0, 0, 7, 6, J0], ["cyc", 0, 100, 9, 6, J1], ["raw", [[1000, 1]]]]]
    + [["cat", ["cyc", 0, 0, 10, 8, J1], ["cyc", 1, 3, 10, 8, J0], ["raw", [[500, 2], [777, 0]]]]]
    + [["cat", ["cyc", 0, 0, 10, 9, J0], ["cyc", 0, 4, 13, 9, J0]]]
    + [["drop", n, ["cyc", 0, 2, 12, 20, J1]] for n in (3, 4, 7)]
)
COMPLEX = (
    [["nest", 0, 11, p1, r1, p2, r2, j] for p1, r1, p2, r2 in ((1000, 4, 60, 5), (168, 5, 24, 4), (50, 6, 7, 3), (10080, 4, 1440, 5))
     for j in (J0, J1)]
    + [["seq", 7, p, r, [[0, 0], [1, d]], j] for p, r in ((100, 6), (24, 10), (1440, 8)) for d in (0, 3, 11) for j in (J0, J1, J3)]
    + [["seq", 7, 200, 7, [[0, 0], [1, 13], [2, 40]], j] for j in (J0, J1)]
    + [["seq", 7, 200, 7, [[0, 0], [1, 0], [2, 0], [3, 5]], j] for j in (J0, J3)]
    + [["seq", 7, 200, 8, [[0, 0], [0, 30], [1, 31]], j] for j in (J0, J1)]
    + [["nestseq", 3, 5000, 4, 200, 5, [[0, 0], [1, 17]], j] for j in (J0, J1)]
    + [["nestseq", 3, 1000, 5, 100, 4, [[0, 0], [1, 7], [2, 9]], J3]]
    + [["nest3", 0, 0, 20000, 3, 1000, 4, 60, 5, J0], ["nest3", 0, 0, 20000, 3, 1000, 4, 60, 5, J1]]
    + [["cat", ["seq", 7, 200, 7, [[0, 0], [1, 13]], J1], ["cyc", 2, 50, 31, 15, J1], ["cyc", 0, 3000, 40, 10, J0], ["raw", [[4000, 1], [4007, 1]]]]]
    + [["lcg", n, e, mx, s] for n, e, mx in ((12, 1, 9), (20, 2, 6), (40, 2, 5), (60, 3, 4)) for s in (1, 2, 3)]
)
LARGE = [["cyc", 0, 0, 7, 120, J2], ["cyc", 0, 0, 7, 205, J1], ["cat", ["cyc", 0, 0, 60, 230, J1], ["cyc", 0, 20000, 45, 60, J2]],
         ["seq", 0, 60, 110, [[0, 0], [1, 9]], J1], ["drop", 9, ["cyc", 0, 3, 50, 260, J2]]]

# longer than the blocks (100), double blocks (200) and chunks (1500, 2000) the miner cuts long logs into
LONG = (LARGE
        + [["cyc", 0, 0, 7, r, j] for r in (99, 100, 101, 149, 151, 199, 200, 201, 202, 250, 301) for j in (J0, J1)]
        # a cycle with a phase shift after k occurrences
        + [["cat", ["cyc", 0, 0, 7, k, J0], ["cyc", 0, 7 * k + 3, 7, 230 - k, J0]] for k in (3, 10, 48, 50, 52, 98, 99, 100, 101, 102, 149, 150, 151, 199, 200, 201, 226)]
        + [["cat", ["cyc", 0, 0, 7, 105, J1], ["cyc", 0, 2000, 11, 105, J1], ["cyc", 0, 4000, 17, 105, J2]], ["cat", ["cyc", 0, 0, 7, 105, J1], ["cyc", 0, 3, 11, 105, J1]],
           ["cat", ["cyc", 0, 0, 60, 150, J1], ["lcg", 150, 1, 40, 5]], ["drop", 5, ["nest", 0, 3, 1000, 40, 60, 6, J1]]]
        + [["lcg", n, e, mx, n + mx] for n, e, mx in ((110, 1, 9), (205, 1, 9), (230, 2, 7), (320, 1, 30), (300, 1, 200), (420, 2, 50))]
        + [["nest", 0, 3, 1000, r1, 60, r2, J1] for r1, r2 in ((30, 8), (60, 5))])
HUGE = [["lcg", 2100, 1, 200, 1], ["lcg", 3050, 1, 1000, 2], ["cyc", 0, 0, 9, 2010, J2], ["cat", ["lcg", 1600, 1, 300, 3], ["cyc", 0, 10 ** 6, 50, 600, J1]]]

# many events, long concatenations, deep nesting, big numbers
def many(n, r=4):
    return ["cat"] + [["cyc", e, 3 + 13 * e, 50 + 7 * (e % 9), r + e % 3, J0] for e in range(n)]


SCALE = (
    [many(n) for n in (3, 9, 10, 11, 12, 26, 27, 33)]
    + [["seq", 7, 1000, r, [[e, 17 * e] for e in range(k)], J0] for k, r in ((4, 6), (5, 5), (7, 5))]
    + [["cat", ["cyc", 0, 0, 1000, 9, J0]] + [["raw", [[137 + 500 * e, e]]] for e in range(1, 15)]]
    + [["cat"] + [["cyc", 0, 5000 * k, 60 + k, 6, J1] for k in range(n)] for n in (4, 11, 14)]       # many cycles of one event
    + [["nest3", 0, 5, 20000, 4, 1000, 3, 60, 4, J0]]
    + [["raw", [[5, e] for e in range(n)]] for n in (2, 3, 9)]                                          # a single instant
    + [["cat", ["raw", [[0, 1]]], ["cyc", 0, 0, 10, 9, J0]], ["cat", ["cyc", 0, 0, 10, 9, J0], ["raw", [[80, 1]]]]]
    + [["raw", [[t, 0] for t in (0, 1)]], ["raw", [[0, 0], [0, 1]]], ["raw", [[0, 0], [1, 1]]]]
)
OFFSETS = [-1, -81, -10 ** 6, 2 ** 31 - 40, 2 ** 31, 2 ** 32 - 7, 2 ** 40 + 1, 2 ** 53 - 30, 2 ** 53 + 1, 2 ** 60 + 3, -2 ** 31, -2 ** 53 - 1, -2 ** 60]
FACTORS = [10 ** 3, 10 ** 9, 60 * 10 ** 9, 3600 * 10 ** 9, 86400 * 10 ** 9, 7, 2 ** 31 + 1, 2 ** 40 + 1, 10 ** 10, 60, 3600, 10 ** 12]
