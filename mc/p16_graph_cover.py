"""P16: GraphMDL describes the graph without loss, ends, and leaves the caller's graph alone, whenever it is stopped."""
import itertools
from collections import Counter

from mc import graphs
from mc.core import Space

PROPERTY = "P16"
ASSUMPTIONS = graphs.ASSUMPTIONS + ["unlabelled isolated vertices are not described", "vertex labels of a pattern may be repeated by another one (labels at least once, edges exactly once)"]

IDS = {"int": None, "str": lambda i: f"n{i}", "big": lambda i: 1000 - 7 * i, "num": lambda i: str(i)}
MORE_IDS = {"neg": lambda i: i - 3, "pair": lambda i: (i, i + 1), "half": lambda i: i / 2, "blanks": lambda i: " " * (i % 3) + "aA"[i % 2] + " " * (i // 6), "zeros": lambda i: "0" * i + "1", "lines": lambda i: f"a\n{i}",
            "labels": lambda i: (["X", "Y", "a", "b", "P0", "v1", "P1", "v2", "1", "2"] + [f"v{k}" for k in range(3, 99)])[i - 1],
            "alike": lambda i: [1, "1", 2, "2"][i - 1] if i < 5 else i}
IDS.update({k: v for k, v in MORE_IDS.items()})


def fitted(desc, ids="int", **kw):
    from skmine.graph.graphmdl.graph_mdl import GraphMDL
    g = graphs.build(desc, IDS[ids])
    return g, GraphMDL().fit(g, **kw)


def check_cover(ct, g, ctx, what):
    rows = ct.rows()
    rw = graphs.Rewriting(ct.rewritten_graph(), rows, None, None)
    bad = graphs.lossless(g, rw)
    ctx.ok(bad is None, f"{what}: {bad}")
    nl, ne = graphs.plain(g)
    use, ports = Counter(), {}
    for pid, pl, pe, links, nlinks in rw.emb:
        ctx.ok(len(links) == nlinks, f"{what}: two links for the same port")
        use[pid] += 1
        ports.setdefault(pid, Counter()).update(links.keys())
    covered, marked = set(), set()
    last = None
    for i, r in enumerate(rows):
        ctx.eq(r.pattern_usage(), use.get(("p", i), 0), f"{what}: usage of pattern {i}")
        ctx.eq({k: v for k, v in r.pattern_port_usage().items() if v}, dict(ports.get(("p", i), {})), f"{what}: port usages of pattern {i}")
        pl, pe = graphs.plain(r.pattern())
        size = sum(map(len, pl.values())) + sum(pe.values())
        ctx.ok(last is None or size <= last, f"{what}: a pattern comes before a larger one")
        last = size
        ctx.eq(len(r.used_embeddings()), r.pattern_usage(), f"{what}: used embeddings of pattern {i}")
        for emb, pts in r.used_embeddings():
            m = {p: d for d, p in emb.items()}
            for p in pl:
                ctx.ok(pl[p] <= nl[m[p]], f"{what}: pattern {i} is used where it does not occur")
                marked |= {(m[p], l) for l in pl[p]}
            for (u, v, l), c in pe.items():
                e = (m[u], m[v], l)
                ctx.ok(ne[e] > 0, f"{what}: pattern {i} is used where it does not occur")
                ctx.ok(e not in covered, f"{what}: edge {e} is covered twice")
                covered.add(e)
        for m in graphs.occurrences(r.pattern(), g):
            if pe:
                ctx.ok(any((m[u], m[v], l) in covered for u, v, l in pe), f"{what}: pattern {i} is not used although it occurs free at {m}")
            else:
                ctx.ok(all((m[p], l) in marked for p in pl for l in pl[p]), f"{what}: pattern {i} is not used although it occurs free at {m}")
    return rw


def check_fit(case, ctx):
    desc, ids, *how = case
    g = graphs.build(desc, IDS[ids], graphs.NAMES.get(how[0]) if how else None, how[1] if how else None)
    before = graphs.snapshot(g)
    from skmine.graph.graphmdl.graph_mdl import GraphMDL
    m = GraphMDL()
    ctx.ok(m.fit(g) is m, "fit does not return the miner")
    ctx.step()
    ctx.state(case)
    ctx.eq(graphs.snapshot(g), before, "graph of the caller")
    ct = graphs.code_table(m)
    rw = check_cover(ct, g, ctx, "after fit")
    ctx.ok(all(r.pattern_usage() >= 0 for r in ct.rows()), "usage")
    ctx.outcome((len(ct.rows()), len(rw.emb), len(rw.ports)))


class Clock:
    """a clock that advances by one at each reading"""
    def __init__(self):
        self.t = 0.0

    def __call__(self):
        self.t += 1.0
        return self.t


def check_stop(case, ctx):
    """every moment at which the time limit can stop the search"""
    import time
    from skmine.graph.graphmdl.graph_mdl import GraphMDL
    desc = case
    g = graphs.build(desc)
    before = graphs.snapshot(g)
    saved = {n: getattr(time, n) for n in ("time", "monotonic", "perf_counter")}
    last = None
    try:
        total = None
        k = 0
        while total is None or k <= total:
            c = Clock()
            for n in saved:
                setattr(time, n, c)
            m = GraphMDL().fit(g, timeout=k + 0.5 if total is not None else 10 ** 9)
            if total is None:
                total = min(int(c.t) + 1, 160)
                full = m.description_length()
                k = -1
            ctx.step()
            ctx.state((case, k))
            ctx.eq(graphs.snapshot(g), before, f"graph of the caller, stopped at {k}")
            ct = graphs.code_table(m)
            check_cover(ct, g, ctx, f"stopped at {k}")
            dl = m.description_length()
            ctx.ok(dl <= m.initial_description_length() + 1e-9, f"stopped at {k}: description length {dl} above the initial one")
            if k >= 0:
                ctx.ok(last is None or dl <= last + 1e-9, f"stopped at {k}: worse than when stopped earlier ({dl} > {last})")
                last = dl
            k += 1
        ctx.ok(graphs.close(last, full) or total == 160, f"with enough time {last}, without limit {full}")
        ctx.outcome((total, len(ct.rows())))
    finally:
        for n, f in saved.items():
            setattr(time, n, f)


def signature(m, g):
    ct = graphs.code_table(m)
    rw = graphs.Rewriting(ct.rewritten_graph(), ct.rows(), None, None)
    return (round(m.description_length(), 9), round(m.initial_description_length(), 9),
            sorted(graphs.canon(*graphs.plain(p)) for p in m.patterns()),
            sorted((repr(graphs.canon(pl, pe)), tuple(sorted(links.values()))) for pid, pl, pe, links, _ in rw.emb))


def check_refit(case, ctx):
    """histories of fits with and without time limit on one or two miners"""
    from skmine.graph.graphmdl.graph_mdl import GraphMDL
    ops = case
    ms = [GraphMDL(), GraphMDL()]
    held = [None, None]
    fresh = {}
    gs = {}
    for step, (who, gi, tmo) in enumerate(ops):
        g = gs.setdefault(gi, graphs.build(GRAPHS[gi]))
        if (gi, tmo) not in fresh:
            fresh[gi, tmo] = signature(GraphMDL().fit(graphs.build(GRAPHS[gi]), **TMO[tmo]), g)
        m = ms[who].fit(g, **TMO[tmo])
        held[who] = (gi, tmo)
        ctx.step()
        ctx.state(ops[:step + 1])
        for w in (0, 1):
            if held[w]:
                hg, ht = held[w]
                got = signature(ms[w], gs[hg])
                ctx.eq(got, fresh[hg, ht], f"miner {w} after {ops[:step + 1]}")
                check_cover(graphs.code_table(ms[w]), gs[hg], ctx, f"miner {w} after {ops[:step + 1]}")
    ctx.outcome((ops[-1], got[0]))


TMO = {"none": {}, "zero": dict(timeout=0), "tiny": dict(timeout=1e-9), "long": dict(timeout=10 ** 6)}
ML = ["X", "Y"]
GRAPHS = [
    [0, ["X", "Y", "X", "Y", "X", "Y"], [[1, 2, "a"], [3, 4, "a"], [5, 6, "a"], [2, 3, "b"], [4, 5, "b"]]],
    [0, ["X", ML, None, ML, "X", ML], [[1, 2, "a"], [2, 3, "b"], [4, 3, "a"], [4, 5, "b"], [5, 6, "a"], [6, 1, "b"], [3, 1, "z"]]],
    [0, [ML, None, ML, ML, None, ML], [[1, 2, "a"], [2, 1, "b"], [4, 5, "a"], [5, 4, "b"], [3, 4, "z"]]],
    [1, ["X", "Y", "X", "Y", None], [[1, 2, "a"], [1, 2, "b"], [3, 4, "a"], [3, 4, "b"], [4, 5, "a"]]],
    [0, ["X", "X"], [[1, 2, "a"]]],
    [1, ["X", "Y", "X", None, "Y", "X"], [[1, 2, "b"], [1, 2, "a"], [2, 3, "b"], [3, 4, "a"], [3, 4, "c"], [5, 6, "a"], [5, 6, "b"], [4, 5, "b"],
                                          [6, 1, "c"], [6, 1, "a"], [6, 5, "b"], [2, 1, "b"]]],
]


def fits(q):
    vl = [None, "X", "Y", ML]

    def gen():
        for d in graphs.small(2, 2, vl, "ab"):
            for ids in ("int", "str", "big", "num"):
                yield [d, ids]
        for d in graphs.small(2, 4 if not q else 3, [None, "X", ML], "abc", multi=True):
            for ids in ("int", "str"):
                yield [d, ids]
        for d in graphs.small(3, 4 if not q else 3, [None, "X", ML] if q else vl, "ab"):
            yield [d, "int"]
        for d in graphs.small(3, 3, [None, "X"], "ab", multi=True):
            yield [d, "str"]
        if not q:
            for d in graphs.small(4, 3, [None, "X"], "ab"):
                yield [d, "int"]
    return gen


MIXED = [[1, [a, b, c, d], [[1, 2, x] for x in s] + [[3, 4, y] for y in t]]                # two vertex pairs with different sets of parallel edges
         for a, b, c, d in (("X", "Y", "X", "Y"), (None, None, None, None)) for s, t in
         itertools.permutations(["ab", "ba", "ac", "ca", "bc", "abc", "cba", "a", "b", "c"], 2)]


def motifs(q):
    vl = [None, "X", ML] if q else [None, "X", ML, ["X", "Y", "Z"]]
    yield from graphs.small(2, 2, vl + ["Y"], "ab")
    yield from graphs.small(3, 2 if q else 3, vl, "ab" if q else "a")
    if not q:
        yield from graphs.small(3, 2, vl, "ab")
    yield from MIXED
    yield from graphs.small(2, 2 if q else 3, vl, "abc", multi=True)


def repeats(q):
    def gen():
        i = 0
        for mo in motifs(q):
            if not mo[2]:
                continue
            for copies in ((2, 4) if q else (2, 3, 5)):
                for link in ((None, "chain", "hub", "share")):
                    if q and copies == 2 and link in (None, "hub"):
                        continue
                    i += 1
                    yield [graphs.repeated(mo, copies, link), ["int", "str"][i % 2] if copies == 2 else "int"]
    return gen


def stops(q):
    def gen():
        yield from GRAPHS
        mos = [m for m in motifs(True) if len(m[1]) == 2 and len(m[2]) >= 1]
        for mo in mos:
            for link in ("chain", "share"):
                yield graphs.repeated(mo, 3, link)
        if not q:
            for mo in graphs.small(3, 2, [None, "X", ML], "ab"):
                if len(mo[2]) == 2:
                    yield graphs.repeated(mo, 3, "chain")
    return gen


def histories(q):
    ops = [(0, gi, "none") for gi in range(len(GRAPHS))] + [(0, 0, "zero"), (0, 1, "tiny"), (0, 2, "tiny"), (0, 3, "long"), (1, 0, "none"), (1, 2, "tiny"), (1, 3, "none")]

    def gen():
        for n in range(1, (2 if q else 3) + 1):
            yield from ([list(o) for o in h] for h in itertools.product(ops, repeat=n))
        if q:
            for h in itertools.product(ops[:3] + ops[6:7], repeat=3):
                yield [list(o) for o in h]
    return gen


# ---------------------------------------------------------------- code tables driven by hand

PATTERNS = [
    [0, ["X", None], [[1, 2, "a"]]],
    [0, ["X", "Y"], [[1, 2, "a"]]],
    [0, [None, None, None], [[1, 2, "a"], [2, 3, "b"]]],
    [0, [ML], []],
    [0, [None, None], [[1, 2, "a"], [2, 1, "b"]]],
    [0, [None, "Y", None], [[1, 2, "a"], [3, 2, "a"]]],
    [0, ["X", "Y", "X", "Y"], [[1, 2, "a"], [2, 3, "b"], [3, 4, "a"]]],
    [1, [None, None], [[1, 2, "a"], [1, 2, "b"]]],
    [1, [None, None], [[1, 2, "c"], [1, 2, "a"]]],
    [0, ["Y", None], [[1, 2, "b"]]],
]


def check_table(case, ctx):
    """every sequence of additions and removals of rows, covering after each"""
    from skmine.graph.graphmdl.code_table import CodeTable
    from skmine.graph.graphmdl.code_table_row import CodeTableRow
    from skmine.graph.graphmdl.label_codes import LabelCodes
    gi, ops = case
    g = graphs.build(GRAPHS[gi])
    own = g.copy()
    ct = CodeTable(LabelCodes(own), own)
    ref = graphs.Costs(g)
    here = {}
    for k, o in enumerate(ops):
        if o in here:
            ct.remove_row(here.pop(o))
        else:
            here[o] = CodeTableRow(graphs.build([GRAPHS[gi][0]] + PATTERNS[o][1:]))
            ct.add_row(here[o])
        ctx.eq(sorted(map(id, ct.rows())), sorted(map(id, here.values())), f"rows after {ops[:k + 1]}")
        ct.cover()
        ctx.step()
        ctx.state((gi, tuple(sorted(here))))
        rw = check_cover(ct, g, ctx, f"after {ops[:k + 1]}")
        want = sum(ref.total(rw))
        got = ct.compute_total_description_length()
        ctx.ok(graphs.close(got, want), f"description length after {ops[:k + 1]}: {got} instead of {want}")
    ctx.outcome((gi, len(rw.emb), len(rw.ports)))


def check_overlap(case, ctx):
    """two hand-made rows which overlap in one element only: a larger pattern before, a smaller one after"""
    from skmine.graph.graphmdl.code_table import CodeTable
    from skmine.graph.graphmdl.code_table_row import CodeTableRow
    from skmine.graph.graphmdl.label_codes import LabelCodes
    kind, k, at, extra = case
    names = [f"e{i}" for i in range(k)]
    if kind == "parallel":              # k parallel edges; the first row has one of them and a path, the second all
        d = [1, [None] * (2 + extra), [[1, 2, l] for l in names] + [[2 + i, 3 + i, "z"] for i in range(extra)]]
        rows = [[1, [None] * (2 + extra), [[1, 2, names[at]]] + [[2 + i, 3 + i, "z"] for i in range(extra)]], [1, [None, None], [[1, 2, l] for l in names]]]
    elif kind == "path":                # a path of k edges, crossed at one of them
        d = [0, [None] * (k + 1 + extra), [[i + 1, i + 2, l] for i, l in enumerate(names)] + [[at + 2, k + 2 + i, f"z{i}"] for i in range(extra)]]
        rows = [[0, [None] * (2 + extra), [[1, 2, names[at]]] + [[2, 3 + i, f"z{i}"] for i in range(extra)]], [0, [None] * (k + 1), [[i + 1, i + 2, l] for i, l in enumerate(names)]]]
    elif kind == "labels":              # k labels; the first row has one of them and other labels, the second all
        d = [0, [names + [f"z{i}" for i in range(extra)], names], []]
        rows = [[0, [[names[at]] + [f"z{i}" for i in range(extra)]], []], [0, [names], []]]
    else:                               # star: the hub with one of its edges, and the star
        d = [0, ["H"] + [None] * (k + extra), [[1, i + 2, l] for i, l in enumerate(names)] + [[at + 2, k + 2 + i, f"z{i}"] for i in range(extra)]]
        rows = [[0, ["H"] + [None] * (1 + extra), [[1, 2, names[at]]] + [[2, 3 + i, f"z{i}"] for i in range(extra)]], [0, ["H"] + [None] * k, [[1, i + 2, l] for i, l in enumerate(names)]]]
    g = graphs.build(d)
    ref = graphs.Costs(g)
    for order in ((0, 1), (1, 0), (0,), (1,)):
        own = g.copy()
        ct = CodeTable(LabelCodes(own), own)
        for i in order:
            ct.add_row(CodeTableRow(graphs.build(rows[i])))
            ct.cover()
            ctx.step()
            rw = check_cover(ct, g, ctx, f"rows {order} after {i}")
            want, got = sum(ref.total(rw)), ct.compute_total_description_length()
            ctx.ok(graphs.close(got, want), f"description length with rows {order} after {i}: {got} instead of {want}")
    ctx.state(case)
    ctx.outcome(len(rw.emb))


def overlaps(q):
    def gen():
        for kind in ("parallel", "path", "labels", "star"):
            for k in range(2, 14 if q else 20):
                for at in range(k):
                    for extra in (1, k + 1):
                        yield [kind, k, at, extra]
    return gen


def tables(q):
    def gen():
        for gi in range(len(GRAPHS)):
            for n in range(1, (3 if q else 4) + 1):
                for ops in itertools.product(range(len(PATTERNS)), repeat=n):
                    yield [gi, list(ops)]
    return gen


LOOPS = [[0, ["X"], [[1, 1, "a"]]], [0, ["X", "Y"], [[1, 2, "a"], [2, 2, "b"]]]]


def shared(q):
    """vertices and edges with the same labels"""
    def gen():
        vl = [None, "a", ["a", "b"]] if q else [None, "a", "b", ["a", "b"]]
        yield from ([d, "int"] for d in graphs.small(2, 2, [None, "a", "b", ["a", "b"]], "ab"))
        yield from ([d, "str"] for d in graphs.small(2, 2, vl, "abc", multi=True))
        yield from ([d, "int"] for d in graphs.small(3, 2 if q else 3, vl, "ab"))
        for mo in graphs.small(2, 1, [None, "a", "b", ["a", "b"]], "a"):
            if mo[2]:
                for link in (None, "chain", "hub", "share"):
                    yield [graphs.repeated(mo, 3, link), "int"]
                    if not q:
                        yield [graphs.repeated(mo, 5, link), "int"]
    return gen


def loops():
    yield from ([d, "int"] for d in LOOPS)
    yield [GRAPHS[0], "alike"]


def bases():
    yield from GRAPHS
    for mo in ([0, ["X", "Y"], [[1, 2, "a"]]], [0, [ML, None], [[1, 2, "a"], [2, 1, "b"]]], [1, ["X", None], [[1, 2, "a"], [1, 2, "b"], [1, 2, "c"]]],
               [0, [None, "X", ["X", "Y", "Z"]], [[1, 2, "a"], [3, 2, "b"]]], [0, [None, None, None], [[1, 2, "a"], [2, 3, "a"]]]):
        for link in (None, "chain", "hub", "share"):
            yield graphs.repeated(mo, 4, link)
    for labels in (["X", "Y"], ["Y", "X"], ["X", "Y", "Z"], ["Z", "Y", "X"], ["Y", "Z"]):
        yield [0, [labels] * 6, []]
        yield [0, [labels] * 6 + ["X"], [[1, 2, "a"]]]


def names(q):
    """other labels, other vertex identifiers, other ways of handing the graph over"""
    def gen():
        for d in bases():
            for nm in graphs.NAMES:
                yield [d, "int", nm, None]
                if not q:
                    for ids in MORE_IDS:
                        if ids != "alike":
                            yield [d, ids, nm, None]
            for ids in MORE_IDS:
                if ids != "alike":
                    yield [d, ids, "", None]
            for wrap in graphs.WRAPS:
                yield [d, "int", "", wrap]
    return gen


def spread(k, ports):
    """three copies of a chain of k vertices with different labels; with ports: each vertex has an edge of its own in each copy"""
    N, E = [], []
    for c in range(3):
        N += [f"A{i}" for i in range(k)]
        E += [[c * k + i, c * k + i + 1, f"e{i}"] for i in range(1, k)]
    if ports:
        for i in range(k):
            for c in range(3):
                N.append(None)
                E.append([c * k + i + 1, len(N), f"x{c}{i}"])
    return [0, N, E]


def scale(q):
    """one dimension grows at a time: vertices, labels, parallel edges, ports or embeddings of a pattern, number of patterns"""
    def gen():
        s = 1 if not q else 2
        for k in range(4, 15, s):
            yield spread(k, False)
        for k in range(3, 13 if not q else 12, s):
            yield spread(k, True)
        for k in range(4, 12, s):
            yield graphs.repeated([0, ["X"] * k, [[i, i + 1, "a"] for i in range(1, k)]], 3, "chain")
        for k in range(3, 22, 2 * s):
            yield graphs.repeated([0, [[f"l{i}" for i in range(k)], None], [[1, 2, "a"]]], 3, None)
            yield graphs.repeated([0, [[f"l{i}" for i in range(k)], ["l1", "l2"]], [[1, 2, "a"]]], 3, "chain")
        for k in range(1, 12, 2 * s) if q else range(1, 22):
            for p in sorted({0, k // 2, k}):                    # a label of its own in each copy, at every place
                lab = lambda c: [f"l{i}" for i in range(p)] + [f"own{c}"] + [f"l{i}" for i in range(p, k)]
                yield [0, [lab(c) for c in range(4)] + ["Y"] * 4, [[c + 1, c + 5, "a"] for c in range(4)]]
                yield [0, [lab(c) for c in range(3)] + [[f"l{i}" for i in range(k)]] * 2, []]
        for k in range(3, 18 if q else 22, 2 * s):
            yield graphs.repeated([1, ["X", "Y"], [[1, 2, f"e{i}"] for i in range(k)]], 3, None)
            yield graphs.repeated([1, [None, None], [[1, 2, f"e{i}"] for i in range(k)] + [[2, 1, f"e{i}"] for i in range(k)]], 2, "chain")
        for k in range(3, 13 if q else 16, s):
            yield graphs.repeated([0, ["H"] + [f"l{i}" for i in range(k)], [[1, i + 2, f"e{i}"] for i in range(k)]], 3, None)
            if k < 6:
                yield graphs.repeated([0, ["H"] + [f"l{i}" for i in range(k)], [[i + 2, 1, f"e{i}"] for i in range(k)]], 3, "share")
        for k in range(3, 9):
            yield [0, ["H"] + ["X"] * k, [[1, i + 2, "a"] for i in range(k)]]
            yield [0, ["H"] + [None] * k, [[i + 2, 1, "a"] for i in range(k)]]
            yield [0, ["X"] * k, [[i + 1, j + 1, "a"] for i in range(k) for j in range(i) if k < 6]]
        for k in (6, 7, 8, 9, 10, 11, 12, 15, 16, 17, 20, 31, 32, 33, 40, 64, 80)[::s]:
            for link in (None, "chain", "hub", "share"):
                if k < 60 or link != "hub":
                    yield graphs.repeated([0, ["X", "Y"], [[1, 2, "a"]]], k, link)
            yield graphs.repeated([0, ["X", None], [[1, 2, "a"]]], k, None)
            yield graphs.repeated([1, ["X", "Y"], [[1, 2, "a"], [1, 2, "b"]]], k, "chain")
        for k in range(2, 14, s):
            N, E = [], []
            for j in range(k):
                for _ in range(3):
                    N += [f"A{j}", f"B{j}"]
                    E.append([len(N) - 1, len(N), f"e{j}"])
            yield [0, N, E]
            yield [0, N + ["A0"], E + [[i + 1, i + 2, "z"] for i in range(1, len(N), 2)]]
    return lambda: ([d, "int"] for d in gen())


def spaces(tier):
    q = tier == "quick"
    return [Space("fits", fits(q), check_fit, "all labelled digraphs of 2..3 (4) vertices with <=3 (4) edges over 2 edge labels and vertex labels none/X/{X,Y}, "
                  "multigraphs with parallel edges, four kinds of vertex identifiers", timeout=120),
            Space("repeats", repeats(q), check_fit, "2..5 copies of every motif of 2..3 vertices, apart, chained, around a hub or sharing a vertex", timeout=200),
            Space("stops", stops(q), check_stop, "the time limit strikes at every reading of the clock (up to 160)", timeout=400),
            Space("histories", histories(q), check_refit, "all sequences of <=2 (3) fits of two miners on six graphs with and without time limit", timeout=200),
            Space("tables", tables(q), check_table, "all sequences of <=3 (4) additions/removals among ten patterns in the code table of six graphs", timeout=120),
            Space("shared", shared(q), check_fit, "graphs whose vertices and edges have the same labels: all of 2 vertices, of 3 vertices with <=2 (3) edges, multigraphs, 3 (5) copies of each edge", timeout=120),
            Space("overlaps", overlaps(q), check_overlap, "code tables of two patterns of 2..13 (19) parallel edges, path edges, labels or star edges which overlap in one element, for every element and order", timeout=120),
            Space("names", names(q), check_fit, "36 graphs x 8 sets of labels (prefixes of each other, names of patterns and ports, numbers, blanks, odd characters) x 6 kinds of vertex identifiers, "
                  "x 7 ways of handing the graph over (attributes of the user, edge keys, frozen graphs, views)", timeout=120),
            Space("scale", scale(q), check_fit, "patterns of up to 14 vertices, 21 labels, 21 parallel edges, 12 ports, 80 embeddings; up to 26 patterns", timeout=300),
            Space("loops", loops, check_fit, "two graphs with a self-loop, one with vertices displayed alike (known findings: the rewritten graph cannot describe them)", timeout=120)]
