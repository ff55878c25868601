"""P17: GraphMDL's description lengths are exact, never worse than the initial one, and its patterns are those in use."""
import contextlib
import io
import itertools
import math
from collections import Counter

from mc import graphs, p16_graph_cover as p16
from mc.core import Space

PROPERTY = "P17"
ASSUMPTIONS = graphs.ASSUMPTIONS + ["code lengths compared at relative 1e-9"]


def first_level(g):
    """every pattern made of two single elements (edges or vertex labels) that share vertices"""
    nl, ne = graphs.plain(g)
    els = [("e", u, v, l) for u, v, l in ne] + [("v", n, l) for n in nl for l in sorted(nl[n])]
    seen = {}
    for x, y in itertools.combinations(els, 2):
        nx_, ny = set(x[1:3] if x[0] == "e" else x[1:2]), set(y[1:3] if y[0] == "e" else y[1:2])
        if not nx_ & ny:
            continue
        nodes = sorted(nx_ | ny, key=repr)
        idx = {n: i + 1 for i, n in enumerate(nodes)}
        lab = [[] for _ in nodes]
        ed = []
        for z in (x, y):
            if z[0] == "e":
                ed.append([idx[z[1]], idx[z[2]], z[3]])
            else:
                lab[idx[z[1]] - 1].append(z[2])
        d = [int(g.is_multigraph()), [None if not l else l[0] if len(l) == 1 else l for l in lab], ed]
        k = graphs.canon(*graphs.plain(graphs.build(d)))
        seen.setdefault(k, d)
    return list(seen.values())


def alone(g, d):
    """description length with this only pattern"""
    from skmine.graph.graphmdl.code_table import CodeTable
    from skmine.graph.graphmdl.code_table_row import CodeTableRow
    from skmine.graph.graphmdl.label_codes import LabelCodes
    own = g.copy()
    ct = CodeTable(LabelCodes(own), own)
    ct.add_row(CodeTableRow(graphs.build(d)))
    ct.cover()
    return sum(graphs.Costs(g).total(graphs.Rewriting(ct.rewritten_graph(), ct.rows(), None, None)))


def check(case, ctx):
    desc, ids, local, *how = case
    g = graphs.build(desc, p16.IDS[ids], graphs.NAMES.get(how[0]) if how else None, how[1] if how else None)
    from skmine.graph.graphmdl.graph_mdl import GraphMDL
    m = GraphMDL().fit(g)
    ctx.step()
    ctx.state(case)
    verify(m, g, local, ctx)


def verify(m, g, local, ctx):
    ref = graphs.Costs(g)
    ct = graphs.code_table(m)
    rw = graphs.Rewriting(ct.rewritten_graph(), ct.rows(), None, None)
    want0 = ref.initial()
    ctx.ok(graphs.close(m.initial_description_length(), want0), f"initial description length {m.initial_description_length()} instead of {want0}")
    model, data = ref.total(rw)
    dl = m.description_length()
    ctx.ok(graphs.close(dl, model + data), f"description length {dl} instead of {model} + {data}")
    ctx.ok(dl <= want0 + 1e-9, f"description length {dl} larger than without patterns, {want0}")
    if not ct.rows():
        ctx.ok(graphs.close(dl, want0), "without patterns the description length changed")
    # the patterns are those of the rewriting, each once
    used = Counter()
    for pid, pl, pe, links, _ in rw.emb:
        used[pid, graphs.canon(pl, pe)] += 1
    pats = m.patterns()
    got = Counter(graphs.canon(*graphs.plain(p)) for p in pats)
    ctx.eq(got, Counter(c for _, c in used), "patterns")
    ctx.eq(Counter(graphs.canon(*graphs.plain(p)) for p in m.patterns()), got, "patterns asked again")
    for p in pats:
        ctx.ok(graphs.occurrences(p, g, limit=1), f"a pattern which does not occur: {graphs.plain(p)}")
    multi = [c for (pid, c), n in used.items() if pid[0] == "p"]
    ctx.ok(len(set(multi)) == len(multi), "the same pattern twice")
    ctx.ok(all(sum(len(l) for _, l in c[0]) + sum(e[3] for e in c[1]) >= 2 for c in multi), "a single element as a pattern")
    out = io.StringIO()
    with contextlib.redirect_stdout(out):
        m.discover()
    ctx.ok(str(dl) in out.getvalue(), "discover does not display the description length")
    for pid, pl, pe, _, _ in rw.emb:
        for l in {l for ls in pl.values() for l in ls} | {l for *_, l in pe}:
            ctx.ok(l in out.getvalue() or repr(l)[1:-1] in out.getvalue(), f"discover does not display the pattern with {l!r}")
    # code lengths of the rows, of their ports and of the single elements
    total = len(rw.emb)
    for i, r in enumerate(ct.rows()):
        u = r.pattern_usage()
        ctx.ok(graphs.close(r.code_length(), -math.log2(u / total) if u else 0.0), f"code length of pattern {i}: {r.code_length()} for usage {u} out of {total}")
        use = {k: v for k, v in r.pattern_port_usage().items() if v}
        ctx.ok(all(graphs.close(r.port_code_length()[k], -math.log2(v / sum(use.values()))) for k, v in use.items()), f"port code lengths of pattern {i}")
    solo = Counter(pid for pid, *_ in rw.emb if pid[0] != "p")
    single = ct.singleton_code_length()
    ctx.eq(set(single), {l for _, l in solo}, "single elements")
    for (k, l), u in solo.items():
        if ("v" if k == "e" else "e", l) not in solo:
            ctx.ok(graphs.close(single[l], -math.log2(u / total)), f"code length of {l}: {single[l]} for usage {u} out of {total}")
    if local:
        gains = [alone(g, d) < want0 - 1e-6 for d in first_level(g)]
        ctx.step(len(gains))
        if any(gains):
            ctx.ok(dl < want0 - 1e-7, "a pair of neighbours shortens the description but was not used")
        elif not any(alone(g, d) < want0 + 1e-6 for d in first_level(g)):
            ctx.ok(graphs.close(dl, want0) and not multi, "patterns although no pair of neighbours shortens the description")
    ctx.outcome((len(multi), len(rw.emb)))


def fits(q):
    def gen():
        for d, ids in p16.fits(q)():
            yield [d, ids, True]
    return gen


def repeats(q):
    def gen():
        for i, (d, ids) in enumerate(p16.repeats(q)()):
            yield [d, ids, len(d[2]) <= 12]
    return gen


def larger(q):
    """longer structures: chains, cycles, stars, grids with periodic labels"""
    def gen():
        for n in ((4, 6, 9) if q else (3, 4, 5, 6, 7, 9, 12)):
            for vl in ([None], ["X"], ["X", "Y"], ["X", None, "Y"], [["X", "Y"], "X"], [["X", "Y", "Z"], None]):
                for el in (["a"], ["a", "b"], ["a", "a", "b"]):
                    N = [vl[i % len(vl)] for i in range(n)]
                    yield [[0, N, [[i, i + 1, el[i % len(el)]] for i in range(1, n)]], "int", True]
                    yield [[0, N, [[i, i % n + 1, el[i % len(el)]] for i in range(1, n + 1)]], "str", True]
                    yield [[0, N, [[1, i, el[i % len(el)]] for i in range(2, n + 1)]], "int", True]
                    yield [[0, N, [[i, 1, el[i % len(el)]] for i in range(2, n + 1)] + [[1, 2, "c"]]], "big", True]
                    yield [[0, N, [[i, i + 1, el[i % len(el)]] for i in range(1, n)] + [[i + 1, i, el[(i + 1) % len(el)]] for i in range(1, n)]], "int", True]
                    yield [[1, N, [[i, i + 1, l] for i in range(1, n) for l in sorted(set(el))]], "int", True]
    return gen


def shared(q):
    """vertices and edges with the same labels: the search may miss their merges (one history listed as a known finding)"""
    def gen():
        for d, ids in p16.shared(q)():
            yield [d, ids, False]
        yield [[0, ["a", None, None], [[1, 2, "a"]]], "int", True]
    return gen


def names(q):
    return lambda: ([d, ids, True, nm, wrap] for d, ids, nm, wrap in p16.names(q)())


def scale(q):
    return lambda: ([d, ids, len(d[2]) <= 20] for d, ids in p16.scale(q)())


def motif(kind, k):
    """k vertices (edges, labels), no label twice"""
    V = [f"A{i}" for i in range(k)]
    return {"chain": [0, V, [[i, i + 1, f"e{i}"] for i in range(1, k)]], "cycle": [0, V, [[i, i % k + 1, f"e{i}"] for i in range(1, k + 1)]], "tree": [0, V, [[i // 2, i, f"e{i}"] for i in range(2, k + 1)]],
            "path": [0, [None] * k, [[i, i + 1, f"e{i}"] for i in range(1, k)]], "zigzag": [0, V, [[i, i + 1, f"e{i}"] if i % 2 else [i + 1, i, f"e{i}"] for i in range(1, k)]],
            "star": [0, V, [[1, i, f"e{i}"] for i in range(2, k + 1)]], "instar": [0, V, [[i, 1, f"e{i}"] for i in range(2, k + 1)]],
            "parallel": [1, V[:2], [[1, 2, f"e{i}"] for i in range(k)]], "labels": [0, [V], []]}[kind]


def check_motif(case, ctx):
    """copies of a motif apart, no label twice in it: the motif is found as a whole"""
    from skmine.graph.graphmdl.graph_mdl import GraphMDL
    kind, k, n = case
    mo = motif(kind, k)
    g = graphs.build(graphs.repeated(mo, n, None))
    m = GraphMDL().fit(g)
    ctx.step()
    got = sorted(graphs.canon(*graphs.plain(p)) for p in m.patterns())
    ctx.eq(got, [graphs.canon(*graphs.plain(graphs.build(mo)))], f"patterns of {n} copies of a {kind} of {k}")
    want = alone(g, mo)
    ctx.ok(graphs.close(m.description_length(), want), f"description length {m.description_length()} instead of {want}")
    ctx.state(case)
    ctx.outcome((kind, k))


def motifs(q):
    def gen():
        for kind in ("chain", "cycle", "tree", "path", "zigzag"):
            for k in (3, 4, 5, 6, 8, 9, 10, 11, 12, 13) if q else range(3, 14 if kind == "tree" else 17):
                for n in (3, 5) if q else (2, 3, 4, 5, 6, 8):
                    yield [kind, k, n]
        for kind in ("star", "instar", "parallel", "labels"):
            for k in (3, 4, 5):
                for n in (2, 3, 4, 5, 6, 8):
                    yield [kind, k, n]
        yield ["labels", 6, 4]                  # known finding
        yield ["star", 6, 3]                    # known finding
    return gen


def check_refits(case, ctx):
    """the same miner fitted again and again, with and without time limit"""
    from skmine.graph.graphmdl.graph_mdl import GraphMDL
    m = GraphMDL()
    gs = [graphs.build(d) for d in p16.GRAPHS]
    for k, (gi, tmo) in enumerate(case):
        ctx.ok(m.fit(gs[gi], **p16.TMO[tmo]) is m, "fit does not return the miner")
        ctx.step()
        ctx.state(case[:k + 1])
        verify(m, gs[gi], tmo in ("none", "long"), ctx)


def refits(q):
    ops = [[gi, t] for gi in range(len(p16.GRAPHS)) for t in ("none", "zero", "tiny")]

    def gen():
        for n in (1, 2):
            yield from map(list, itertools.product(ops, repeat=n))
        small = [[gi, t] for gi in (0, 1, 3) for t in ("none", "zero")] if q else ops
        yield from map(list, itertools.product(small, repeat=3))
    return gen


def spaces(tier):
    q = tier == "quick"
    return [Space("fits", fits(q), check, "the graphs of P16 'fits'; every pair of neighbouring elements tried as only pattern", timeout=120),
            Space("repeats", repeats(q), check, "the graphs of P16 'repeats'", timeout=200),
            Space("larger", larger(q), check, "chains, cycles, in/out stars, two-way chains and multi-chains of <=9 (12) vertices with all periodic labelings listed", timeout=300),
            Space("refits", refits(q), check_refits, "all sequences of <=2 fits (3 on three graphs; all graphs) of one miner on the graphs of P16 'histories' with and without time limit; everything checked after each", timeout=200),
            Space("motifs", motifs(q), check_motif, "3 and 5 (2..8) copies apart of chains, cycles, trees, paths without vertex labels and zigzags of 3..13 (16) vertices, 2..8 of stars, parallel edges and label sets of 3..5", timeout=200),
            Space("names", names(q), check, "the graphs of P16 'names'", timeout=120),
            Space("scale", scale(q), check, "the graphs of P16 'scale'", timeout=300),
            Space("shared", shared(q), check, "the graphs of P16 'shared' (lengths and patterns), and one of them with every pair of neighbours (known finding)", timeout=120)]
