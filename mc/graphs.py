"""Labelled directed graphs: descriptions, the model-free reading of a rewritten graph, and a reference for GraphMDL's code lengths.

A description is [multi, node labels, edges]: node i (1-based) has the labels of the i-th entry (None, text or list of texts), edges are
[u, v, label].  Node identifiers can be renamed with ``ids``.
"""
import itertools
import math
from collections import Counter

ASSUMPTIONS = ["directed graphs and multigraphs whose edges all carry a text label, without self loops and without two parallel edges of the same label",
               "vertex labels: none, a text, or a tuple of texts; where vertices and edges share labels, merges need not be found"]


def labs(d):
    if "label" not in d:
        return ()
    return (d["label"],) if isinstance(d["label"], str) else tuple(d["label"])


def build(desc, ids=None, names=None, wrap=None):
    """names: {label: other label}; wrap: the way the graph is handed over (see WRAPS)"""
    import networkx as nx
    multi, nl, edges = desc
    if names:
        ren = lambda l: l if l is None else names.get(l, l) if isinstance(l, str) else [names.get(x, x) for x in l]
        nl, edges = [ren(l) for l in nl], [[u, v, ren(l)] for u, v, l in edges]
    ids = ids or (lambda i: i)
    g = (nx.MultiDiGraph if multi else nx.DiGraph)()
    for i, l in enumerate(nl, 1):
        if l:
            g.add_node(ids(i), label=l if isinstance(l, str) else tuple(l))
        else:
            g.add_node(ids(i))
    for u, v, l in edges:
        if multi and wrap == "keys":
            g.add_edge(ids(u), ids(v), key=f"k{l}{u}", label=l)
        else:
            g.add_edge(ids(u), ids(v), label=l)
    if wrap in ("attrs", "marks"):
        names = ("weight", "color", "key") if wrap == "attrs" else ("port", "cover_mark", "cover_marker")
        for *_, d in [*g.nodes(data=True), *g.edges(data=True)]:
            d.update({names[0]: 1, names[1]: {l: k for l in (*labs(d), "X", "a") for k in (1, 2)}, names[2]: 1})
        g.graph.update({"name": "G", names[2]: "x" if wrap == "attrs" else 3})
    if wrap == "frozen":
        g = nx.freeze(g)
    if wrap == "view":
        h = g.copy()
        h.add_edge("more", ids(1), label="more")
        h.add_node("other", label="other")
        g = h.subgraph(list(g))
    if wrap == "reverse":
        g = g.reverse().reverse(copy=False)
    if wrap == "single":        # one label in a tuple
        for _, d in g.nodes(data=True):
            if "label" in d:
                d["label"] = labs(d)
    return g


WRAPS = ("keys", "attrs", "marks", "frozen", "view", "reverse", "single")
NAMES = {
    "prefix": {"X": "person", "Y": "personal", "Z": "son", "a": "on", "b": "person of", "c": "al", "z": "p"},
    "patterns": {"X": "P0", "Y": "P1", "Z": "P10", "a": "v1", "b": "v2", "c": "P2", "z": "v10"},
    "numbers": {"X": "1", "Y": "10", "Z": "0", "a": "2", "b": "3", "c": "02", "z": "12"},
    "joined": {"X": "P0v1", "Y": "P0", "Z": "v", "a": "P", "b": "P1v1", "c": "Pv", "z": "v1v1"},
    "blank": {"X": " ", "Y": "x y", "Z": "\n", "a": "a b", "b": " b", "c": "\t", "z": "b "},
    "odd": {"X": "\u00e9", "Y": "\u4e2d", "Z": "E", "a": "{0}%s", "b": "->", "c": "--a-->", "z": "|"},
    "inside": {"X": "abc", "Y": "bc", "Z": "c", "a": "xyz", "b": "yz", "c": "z", "z": "q"},
    "case": {"X": "x", "Y": "y", "Z": "z1", "a": "A", "b": "B", "c": "C", "z": "zz"},
}


def plain(g):
    """(vertex labels, Counter of edges) of a graph"""
    return ({n: frozenset(labs(d)) for n, d in g.nodes(data=True)},
            Counter((u, v, d["label"]) for u, v, d in g.edges(data=True)))


def snapshot(g):
    """everything the user can see of a graph"""
    return (type(g).__name__, dict(g.graph), [(n, dict(d)) for n, d in g.nodes(data=True)],
            [(u, v, dict(d)) for u, v, d in g.edges(data=True)])


def occurrences(pattern, data, limit=None):
    """all monomorphisms pattern node -> data node, by backtracking"""
    pl, pe = plain(pattern)
    dl, de = plain(data)
    nodes = list(pl)
    out = []

    def rec(k, m, used):
        if limit and len(out) >= limit:
            return
        if k == len(nodes):
            out.append(dict(m))
            return
        p = nodes[k]
        for d in dl:
            if d in used or not pl[p] <= dl[d]:
                continue
            m[p] = d
            if all((m[u], m[v], l) in de for (u, v, l) in pe if u in m and v in m and p in (u, v)):
                rec(k + 1, m, used | {d})
            del m[p]
    rec(0, {}, frozenset())
    return out


def code_table(m):
    """the code table of a fitted miner, wherever it is kept"""
    from skmine.graph.graphmdl.code_table import CodeTable
    found = [v for v in vars(m).values() if isinstance(v, CodeTable)]
    if len(found) != 1:
        raise LookupError("no code table")
    return found[0]


class Rewriting:
    """reading of a rewritten graph: embeddings = list of (pattern id, pattern labels, pattern edges, {pattern node: port name})"""

    def __init__(self, rg, rows, vertex_labels, edge_labels):
        self.emb = []
        self.ports = {}
        for n, d in rg.nodes(data=True):
            if "is_Pattern" not in d:
                self.ports[n] = d["label"]
        self.indeg = {n: rg.in_degree(n) for n in self.ports}
        for n, d in rg.nodes(data=True):
            if "is_Pattern" not in d:
                continue
            links = [(int(e["label"][1:]), port) for _, port, e in rg.out_edges(n, data=True)]
            if "is_singleton" in d:
                if len(links) == 2:
                    pl, pe = {1: frozenset(), 2: frozenset()}, Counter([(1, 2, d["label"])])
                    pid = ("e", d["label"])
                else:
                    pl, pe = {1: frozenset([d["label"]])}, Counter()
                    pid = ("v", d["label"])
            else:
                i = int(d["label"][1:])
                pl, pe = plain(rows[i].pattern())
                pid = ("p", i)
            self.emb.append((pid, pl, pe, {a: self.ports[b] for a, b in links}, len(links)))

    def decode(self):
        """vertex labels (with repetitions) and edges of the graph described"""
        fresh = itertools.count()
        lab = {("port", p): [] for p in self.ports.values()}
        edges = []
        for pid, pl, pe, links, _ in self.emb:
            mp = {a: ("port", p) for a, p in links.items()}
            for a in pl:
                if a not in mp:
                    mp[a] = ("in", next(fresh))
                    lab[mp[a]] = []
                lab[mp[a]] += sorted(pl[a])
            edges += [(mp[u], mp[v], l) for (u, v, l), c in pe.items() for _ in range(c)]
        return lab, edges


def lossless(g, rw):
    """None, or what is wrong with the rewriting of g"""
    import networkx as nx
    nl, ne = plain(g)
    deg = Counter()
    for (u, v, l), c in ne.items():
        deg[u] += c
        deg[v] += c
    if len(set(rw.ports.values())) != len(rw.ports):
        return "the same vertex is several ports"
    lab, edges = rw.decode()
    if Counter(l for *_, l in edges) != Counter({l: sum(c for (_, _, m), c in ne.items() if m == l) for l in {l for *_, l in ne}}):
        return f"edge labels {sorted(l for *_, l in edges)} instead of {sorted(l for *_, l in ne.elements())}"
    A, B = nx.MultiDiGraph(), nx.MultiDiGraph()
    names = {p: k for k, p in lab and {k: k[1] for k in lab if k[0] == "port"}.items()}
    for n in nl:
        if deg[n] == 0 and not nl[n]:
            continue
        A.add_node(n, l=nl[n], name=str(n) if str(n) in names else None)
    for k, ls in lab.items():
        B.add_node(k, l=frozenset(ls), name=k[1] if k[0] == "port" else None)
    for (u, v, l), c in ne.items():
        for _ in range(c):
            A.add_edge(u, v, label=l)
    for u, v, l in edges:
        B.add_edge(u, v, label=l)
    if len(A) != len(B) or A.number_of_edges() != B.number_of_edges():
        return f"{len(B)} vertices and {B.number_of_edges()} edges instead of {len(A)} and {A.number_of_edges()}"
    ok = nx.is_isomorphic(A, B, node_match=lambda a, b: a["l"] == b["l"] and a["name"] == b["name"],
                          edge_match=lambda a, b: sorted(x["label"] for x in a.values()) == sorted(x["label"] for x in b.values()))
    return None if ok else "the rewritten graph describes another graph"


# ---------------------------------------------------------------- code lengths

def U0(x):
    """universal code of x >= 0 as used by the package: Elias delta of x+1"""
    k = (x + 1).bit_length() - 1
    return k + 2 * ((k + 1).bit_length() - 1) + 1


def preq(counts):
    """prequential code of a sequence with these counts, epsilon 1/2"""
    tot, bits = 0.5 * len(counts), 0.0
    for c in counts:
        for i in range(c):
            bits -= math.log2((0.5 + i) / tot)
            tot += 1
    return bits


class Costs:
    def __init__(self, g):
        nl, ne = plain(g)
        self.v = Counter(l for ls in nl.values() for l in ls)
        self.e = Counter()
        for (_, _, l), c in ne.items():
            self.e[l] += c
        self.tot = sum(self.v.values()) + sum(self.e.values())
        self.alphabet = len(self.v) + len(self.e)
        self.nl, self.ne = nl, ne

    def struct(self, pl, pe):
        n = len(pl)
        bits = math.log2(self.alphabet) + U0(n)
        for l, c in Counter(l for ls in pl.values() for l in ls).items():
            bits += -math.log2(self.v[l] / self.tot) + U0(c) + math.log2(math.comb(n, c))
        cnt = Counter()
        for (_, _, l), c in pe.items():
            cnt[l] += c
        for l, c in cnt.items():
            bits += -math.log2(self.e[l] / self.tot) + U0(c) + math.log2(math.comb(n * n, c))
        return bits

    def total(self, rw):
        """(model, data) code lengths of a rewriting"""
        use, port, shape = Counter(), {}, {}
        for pid, pl, pe, links, nlinks in rw.emb:
            use[pid] += 1
            shape[pid] = (pl, pe)
            port.setdefault(pid, Counter()).update(links.keys())
        model = data = 0.0
        for pid, u in use.items():
            pl, pe = shape[pid]
            n, k = len(pl), len(port[pid])
            model += self.struct(pl, pe) + math.log2(n + 1) + math.log2(math.comb(n, k))
            if pid[0] == "e":
                model += 2          # the two ports of an edge singleton
            data += u * math.log2(k + 1) + preq(list(port[pid].values()))
        data += U0(len(rw.emb)) + math.log2(len(rw.ports) + 1) + preq(list(use.values())) + preq(list(rw.indeg.values()))
        return model, data

    def initial(self):
        """code length when each edge and each vertex label is described alone"""
        bits = 0.0
        deg = Counter()
        for n, ls in self.nl.items():
            deg[n] += len(ls)
        for (u, v, l), c in self.ne.items():
            deg[u] += c
            deg[v] += c
        deg = [c for c in deg.values() if c]
        for l, c in self.v.items():
            bits += self.struct({1: frozenset([l])}, {}) + 1 + c
        for l, c in self.e.items():
            bits += self.struct({1: frozenset(), 2: frozenset()}, {(1, 2, l): 1}) + math.log2(3) + 2 + c * math.log2(3) + preq([c, c])
        return (bits + U0(self.tot) + math.log2(len(deg) + 1) + preq(deg)
                + preq(list(self.v.values()) + list(self.e.values())))


def close(a, b):
    return abs(a - b) <= 1e-9 * max(1.0, abs(a), abs(b))


def canon(pl, pe):
    """canonical form of a pattern: colour refinement, then every choice among vertices of the same colour (twins count once)"""
    nodes = list(pl)
    out = {n: [] for n in nodes}
    for (u, v, l), c in pe.items():
        out[u].append((0, l, c, v))
        out[v].append((1, l, c, u))
    best = None

    def refine(col):
        while True:
            sig = {n: (col[n], tuple(sorted((d, l, c, col[o]) for d, l, c, o in out[n]))) for n in nodes}
            order = {k: i for i, k in enumerate(sorted(set(sig.values())))}
            new = {n: order[sig[n]] for n in nodes}
            if len(order) == len(set(col.values())):
                return new
            col = new

    def rec(col):
        nonlocal best
        col = refine(col)
        groups = {}
        for n in nodes:
            groups.setdefault(col[n], []).append(n)
        many = [c for c in sorted(groups) if len(groups[c]) > 1]
        if not many:
            k = (tuple(sorted((col[n], tuple(sorted(pl[n]))) for n in nodes)), tuple(sorted((col[u], col[v], l, c) for (u, v, l), c in pe.items())))
            if best is None or k < best:
                best = k
            return
        seen = set()
        for n in groups[many[0]]:
            twin = tuple(sorted((d, l, c, repr(o)) for d, l, c, o in out[n]))
            if twin in seen:
                continue
            seen.add(twin)
            rec({m: 2 * col[m] + (m != n and col[m] == col[n]) for m in nodes})
    rec({n: i for i, k in enumerate(sorted({tuple(sorted(pl[n])) for n in nodes})) for n in nodes if tuple(sorted(pl[n])) == k})
    return best


# ---------------------------------------------------------------- enumerations

def small(nodes, max_edges, vlabels, elabels, multi=False):
    """all graphs over ``nodes`` vertices with 1..max_edges edges, up to the order of vertices"""
    ids = list(range(1, nodes + 1))
    slots = [(u, v) for u in ids for v in ids if u != v]
    slots = [[u, v, l] for u, v in slots for l in elabels]
    seen = set()
    for k in range(0, max_edges + 1):
        for es in itertools.combinations(slots, k):
            if not multi and len({(u, v) for u, v, _ in es}) < k:
                continue
            if multi and len({(u, v) for u, v, _ in es}) == k and k > 1:
                continue                                        # simple graphs are enumerated apart
            for nl in itertools.product(range(len(vlabels)), repeat=nodes):
                if k == 0 and not any(vlabels[i] for i in nl):
                    continue
                best = None
                for perm in itertools.permutations(range(nodes)):
                    key = (tuple(sorted((perm[u - 1], perm[v - 1], l) for u, v, l in es)), tuple(nl[perm.index(i)] for i in range(nodes)))
                    if best is None or key < best:
                        best = key
                if best in seen:
                    continue
                seen.add(best)
                yield [int(multi), [vlabels[i] for i in nl], [list(e) for e in es]]


def repeated(motif, copies, link, extra=None):
    """``copies`` copies of a motif; link: None, 'chain' (last vertex to next first), 'hub' (a shared vertex), 'share' (first vertex common)"""
    multi, nl, es = motif
    n = len(nl)
    N, E = [], []
    for c in range(copies):
        off = c * n
        N += nl
        E += [[u + off, v + off, l] for u, v, l in es]
        if link == "chain" and c:
            E.append([off, off + 1, "z"])
    if link == "hub":
        N = N + ["H"]
        for c in range(copies):
            E.append([len(N), c * n + 1, "z"])
    if link == "share":
        ren = {}
        N2 = [nl[0]]
        for c in range(copies):
            for i in range(1, n + 1):
                if i == 1:
                    ren[c * n + i] = 1
                else:
                    N2.append(nl[i - 1])
                    ren[c * n + i] = len(N2)
        N = N2
        E = [[ren[u], ren[v], l] for u, v, l in E]
    return [multi, N, E]
