FI = 'skmine/datasets/fimi.py'
SG = 'skmine/datasets/_samples_generator.py'
CB = 'skmine/callbacks.py'
U = 'skmine/utils.py'
B = 'skmine/base.py'
CT = 'skmine/graph/graphmdl/code_table.py'
CA = 'skmine/graph/graphmdl/candidate.py'
GU = 'skmine/graph/graphmdl/utils.py'
GM = 'skmine/graph/graphmdl/graph_mdl.py'
VE = 'skmine/feature_extraction/slim_vectorizer.py'
BUGS = [
 dict(id='p18-cached-by-prefix', property='P18',
  edits=[(FI, """    if filename in os.listdir(data_home):  # already fetched
        it =""", """    if any(f.startswith(name) for f in os.listdir(data_home)):  # already fetched, whatever the extension
        it =""")],
  needs='another file of the cache whose name starts like the dataset: a neighbour (pumsb_star) fetched before it (pumsb), or the temporary file of an interrupted download',
  breaks='the dataset is taken for cached although it is not: fetching it fails until the other file is removed',
  demo='''
import os, io, contextlib, wget
from skmine.datasets import fimi
home = os.environ["DEMO_SCRATCH"] + "/home"
os.makedirs(home)
def download(url, out=None, **kw):
    open(out, "w").write("1 2 3\\n4 5\\n")
    return out
wget.download = fimi.wget.download = download
fimi.fetch_any("pumsb_star.dat", data_home=home)
s = fimi.fetch_any("pumsb.dat", data_home=home)
assert list(s) == [[1, 2, 3], [4, 5]]
'''),
 dict(id='p19-dense-replacement', property='P19',
  edits=[(SG, """    D = [generator.choice(choices, size, replace=False) for size in t_sizes]""",
   """    D = [generator.choice(choices, size, replace=bool(size + 1 == n_items)) for size in t_sizes]""")],
  needs='a transaction drawn with all items but one',
  breaks='the transaction has the same item several times',
  demo='''
from skmine.datasets import make_transactions
for seed in range(40):
    for t in make_transactions(n_transactions=30, n_items=4, density=0.5, random_state=seed):
        assert len(set(t)) == len(t), t
'''),
 dict(id='p20-partial-attach', property='P20',
  edits=[(CB, """                raise ValueError(
                    f"{f_name} found in callbacks while there is not corresponding function"
                )

        for callback_name, callback in self.items():
            new_meth = post(miner, callback_name, callback)
            # TODO : lock assignement to "once for all"
            # re-executing a cell in a notebook can lead to callbacks being called many times
            setattr(miner, callback_name, new_meth)
""", """                raise ValueError(
                    f"{f_name} found in callbacks while there is not corresponding function"
                )

            # TODO : lock assignement to "once for all"
            # re-executing a cell in a notebook can lead to callbacks being called many times
            setattr(miner, f_name, post(miner, f_name, self[f_name]))
""")],
  needs='a collection with a correct name before a name that is not a method',
  breaks='the collection is rejected but its first callbacks stay attached',
  demo='''
from skmine.callbacks import CallBacks
class A:
    def f(self):
        return 1
a, seen = A(), []
try:
    CallBacks(f=seen.append, g=seen.append)(a)
except ValueError:
    pass
assert a.f() == 1 and seen == [], seen
'''),
 dict(id='p21-clique-depth', property='P21',
  edits=[(U, """        yield from bron_kerbosch(new_candidates, new_clique, new_excluded)
""", """        yield from bron_kerbosch(new_candidates, new_clique, new_excluded, depth=depth + 1)
"""), (U, """    if depth > 20:
        return None
""", """    if depth > 5:
        return None
""")],
  needs='a clique of seven nodes or more',
  breaks='large cliques are not found',
  demo='''
from skmine.utils import bron_kerbosch
for n in range(3, 10):
    g = {i: [j for j in range(n) if j != i] for i in range(n)}
    assert [sorted(c) for c in bron_kerbosch(g)] == [list(range(n))], n
'''),
 dict(id='p21-window-repeated-axis', property='P21',
  edits=[(U, """        if x_shape_trimmed[ax] < dim:
            raise""", """        if x.shape[ax] < dim:
            raise""")],
  needs='two windows over the same axis which fit alone but not together',
  breaks='the view is accepted with a wrong shape instead of being rejected',
  demo='''
import numpy as np
from skmine.utils import sliding_window_view
try:
    v = sliding_window_view(np.arange(4), (3, 3), axis=(0, 0))
except ValueError as e:
    assert "larger" in str(e), e
else:
    raise AssertionError(v.shape)
'''),
 dict(id='p22-set-none', property='P22',
  edits=[(B, """            setattr(self, key, value)
            valid_params[key] = value
""", """            if value is not None:
                setattr(self, key, value)
            valid_params[key] = value
""")],
  needs='a parameter set back to None',
  breaks='set_params(random_state=None) keeps the former value',
  demo='''
from skmine.preprocessing import MDLPDiscretizer
s = MDLPDiscretizer(random_state=3).set_params(random_state=None)
assert s.get_params()["random_state"] is None, s.get_params()
'''),
 dict(id='p22-labels-lose-options', property='P22',
  edits=[(B, """            return self.fit(X, y).transform(X, **tsf_params)""", """            return self.fit(X, y).transform(X)""")],
  needs='fit_transform with labels and an option of transform',
  breaks='the options are ignored',
  demo='''
from skmine.itemsets import LCM
import numpy as np
D = [["a", "b"], ["a", "b"], ["a"]]
assert "tids" in LCM(min_supp=1).fit_transform(D, np.array([0, 1, 1]), return_tids=True).columns
'''),
 dict(id='p16-ports-by-neighbours', property='P16',
  edits=[(CT, """                    return len(graph.in_edges(graph_node)) + len(graph.out_edges(graph_node)) \\
                           == len(pattern.in_edges(pattern_node)) + len(pattern.out_edges(pattern_node))
""", """                    return len(set(nx.all_neighbors(graph, graph_node))) \\
                           == len(set(nx.all_neighbors(pattern, pattern_node)))
""")],
  needs='a pattern used at a vertex whose only other edges go to a neighbour it already has in the pattern (opposite or parallel edge)',
  breaks='the vertex is not a port, so that the rewritten graph does not say which vertex the other edge belongs to',
  demo='''
import networkx as nx
from skmine.graph.graphmdl.graph_mdl import GraphMDL
from skmine.graph.graphmdl.code_table import CodeTable
for k in range(2, 9):
    g = nx.DiGraph()
    for i in range(k):
        g.add_node(2 * i, label="X"); g.add_node(2 * i + 1, label="Y")
        g.add_edge(2 * i, 2 * i + 1, label="a")
    g.add_edge(1, 0, label="b")
    m = GraphMDL().fit(g)
    ct = [v for v in vars(m).values() if isinstance(v, CodeTable)][0]
    rg = ct.rewritten_graph()
    links = sum(1 for _ in rg.edges())
    # the lonely b edge has two ports; both must also be linked to the pattern that covers the a edge between them
    ports = [n for n, d in rg.nodes(data=True) if "is_Pattern" not in d and d["label"] in ("0", "1")]
    singles = [n for n, d in rg.nodes(data=True) if d["label"] == "b" and "is_singleton" in d]
    if singles and ct.rows() and sum(r.pattern_usage() for r in ct.rows()) >= k:
        assert all(rg.in_degree(p) >= 2 for p in ports) and len(ports) == 2, (k, list(rg.edges()))
'''),
 dict(id='p17-label-once', property='P17',
  edits=[(GU, """                for i in d['label']:
                    vertex[j] = i
                    j = j + 1
            else:
                vertex[j] = d['label']
                j += 1
    return""", """                vertex.update(enumerate(d['label'], j))
                j += max(2, len(d['label']) - 1)
            else:
                vertex[j] = d['label']
                j += 1
    return""")],
  needs='a vertex with three labels followed by another labelled vertex',
  breaks='a label is not counted: all code lengths are wrong',
  demo='''
import networkx as nx
from skmine.graph.graphmdl.utils import count_vertex_label
g = nx.DiGraph()
g.add_node(1, label=("A", "B", "C"))
g.add_node(2, label="A")
g.add_edge(1, 2, label="e")
assert count_vertex_label(g) == {"A": 2, "B": 1, "C": 1}, count_vertex_label(g)
'''),
 dict(id='p17-known-length', property='P17',
  edits=[(GM, """                self._description_length = self._code_table.compute_total_description_length()
                self._pruning_rows.remove(r)
""", """                self._pruning_rows.remove(r)
"""), (GM, """        self._rewritten_graph = self._code_table.rewritten_graph()
        self._description_length = self._code_table.compute_total_description_length()
        utils.MyLogger.info(f"Final""", """        self._rewritten_graph = self._code_table.rewritten_graph()
        utils.MyLogger.info(f"Final""")],
  needs='a search in which a pattern is pruned',
  breaks='the reported length is that of the table before pruning',
  demo='''
import networkx as nx, itertools
from skmine.graph.graphmdl.graph_mdl import GraphMDL
from skmine.graph.graphmdl.code_table import CodeTable
for c in (3, 4, 5):
    g = nx.DiGraph()
    for k in range(c):
        for i in range(3):
            g.add_node(3 * k + i + 1)
        g.nodes[3 * k + 1]["label"] = "X"
        g.add_edge(3 * k + 1, 3 * k + 2, label="a")
        g.add_edge(3 * k + 1, 3 * k + 3, label="a")
        if k:
            g.add_edge(3 * k, 3 * k + 1, label="z")
    m = GraphMDL().fit(g)
    ct = [v for v in vars(m).values() if isinstance(v, CodeTable)][0]
    assert abs(ct.compute_total_description_length() - m.description_length()) < 1e-6, c
'''),
 dict(id='p09-long-columns-first', property='P09',
  edits=[(VE, """        covers = cover(D_sct, isets.index)
""", """        covers = cover(D_sct, sorted(isets.index, key=len, reverse=True))
""")],
  needs='a single item used more often than a longer itemset of the k most used ones',
  breaks='columns are not in decreasing order of usage and the covers change',
  demo='''
from skmine.feature_extraction import SLIMVectorizer
D = [["a", "b"], ["a", "b"], ["a", "b"], ["c"], ["c"], ["c"], ["c"], ["c"], ["a", "c"]]
m = SLIMVectorizer(k=3).fit(D)
cols = list(m.transform(D).columns)
assert cols[0] == ("c",), cols
'''),
 dict(id='p06-starting-codes', property='P06',
  edits=[('skmine/itemsets/slim.py', """        self._starting_codes = codes
""", """        if set(getattr(self, "_starting_codes", pd.Series(dtype=float)).index) != set(codes.index):  # same alphabet, same codes
            self._starting_codes = codes
""")],
  needs='a model fitted again on data with the same items but other frequencies',
  breaks='the sizes of the second fit use the item codes of the first data, so another code table is chosen',
  demo='''
from skmine.itemsets import SLIM
A = [["a", "b", "c"]] * 3 + [["a", "b"], ["c"]]
B = [["a"]] * 20 + [["b", "c"], ["b", "c"], ["a", "b", "c"]]
m = SLIM().fit(A).fit(B)
f = SLIM().fit(B)
for s in (m, f):
    d, mod, _ = s.evaluate(frozenset("bc"))
    s.sizes = (d, mod)
assert m.sizes == f.sizes and m.model_size_ == f.model_size_, (m.sizes, f.sizes)
'''),
]
