GU = 'skmine/graph/graphmdl/utils.py'
GM = 'skmine/graph/graphmdl/graph_mdl.py'
CT = 'skmine/graph/graphmdl/code_table.py'
FI = 'skmine/datasets/fimi.py'
PE = 'skmine/datasets/periodic.py'
SG = 'skmine/datasets/_samples_generator.py'
CB = 'skmine/callbacks.py'
U = 'skmine/utils.py'
CY = 'skmine/periodic/cycles.py'
GRAPH = '''
import networkx as nx, io, contextlib
from skmine.graph.graphmdl.graph_mdl import GraphMDL
def fit(g, m=None):
    with contextlib.redirect_stdout(io.StringIO()):
        return (m or GraphMDL()).fit(g)
'''
BUGS = [
 dict(id='p17-initial-kept', property='P17',
  edits=[(GM, """        self._initial_description_length = self._description_length
""", """        self._initial_description_length = self._initial_description_length or self._description_length
""")],
  needs='a miner fitted a second time, on another graph',
  breaks='the initial description length is the one of the first graph',
  demo=GRAPH + '''
def chain(n):
    g = nx.DiGraph()
    for i in range(n):
        g.add_node(i, label="X")
    for i in range(n - 1):
        g.add_edge(i, i + 1, label="a")
    return g
m = fit(chain(4), fit(chain(9)))
assert m.initial_description_length() == fit(chain(4)).initial_description_length()
'''),
 dict(id='p17-many-structures', property='P17',
  edits=[(GU, """    return n * binomial(n - 1, k - 1) / k""", """    return min(n * binomial(n - 1, k - 1) / k, 2 ** 31)""")],
  needs='a pattern of so many edges that the number of its possible structures exceeds 2**31',
  breaks='the description length of that pattern is too short',
  demo='''
from math import comb
from skmine.graph.graphmdl import utils
for n in range(1, 60):
    for k in range(1, n + 1):
        assert abs(utils.binomial(n, k) - comb(n, k)) <= 1e-9 * comb(n, k), (n, k)
'''),
 dict(id='p18-cached-by-suffix', property='P18',
  edits=[(FI, """    if filename in os.listdir(data_home):  # already fetched
        it =""", """    if any(f.endswith(filename) for f in os.listdir(data_home)):  # already fetched
        it =""")],
  needs='another file in data_home whose name ends like the dataset',
  breaks='the dataset is taken for cached although it is not',
  demo='''
import os, wget
from skmine.datasets import fimi
home = os.environ["DEMO_SCRATCH"] + "/home"
os.makedirs(home)
open(home + "/my_chess.dat", "w").write("7\\n")
def download(url, out=None, **kw):
    open(out, "w").write("1 2 3\\n4 5\\n")
    return out
wget.download = fimi.wget.download = download
assert list(fimi.fetch_any("chess.dat", data_home=home)) == [[1, 2, 3], [4, 5]]
'''),
 dict(id='p18-times-as-floats', property='P18',
  edits=[(PE, """            s.index = s.index.astype("int64")""", """            s.index = s.index.astype("float64").astype("int64")""")],
  needs='a log with integer times above 2**53, such as nanoseconds',
  breaks='times are rounded when the file is read',
  demo='''
import os
from skmine.datasets.periodic import fetch_file
p = os.environ["DEMO_SCRATCH"] + "/log.csv"
open(p, "w").write("1600000000000000001,a\\n1600000000000000003,b\\n")
assert list(fetch_file(p).index) == [1600000000000000001, 1600000000000000003]
'''),
 dict(id='p19-sizes-capped', property='P19',
  edits=[(SG, """        n=avg_transaction_size * 2,""", """        n=min(avg_transaction_size * 2, 1000),""")],
  needs='transactions of more than 500 items on average',
  breaks='transactions are much smaller than density x n_items',
  demo='''
from skmine.datasets import make_transactions
D = make_transactions(n_transactions=50, n_items=4000, density=0.4, random_state=1)
assert 1550 < D.map(len).mean() < 1650, D.map(len).mean()
'''),
 dict(id='p20-retry-on-type-error', property='P20',
  edits=[(CB, """        if _accepts(callback, args_):
            callback(*args_)
        else:
            callback(res)""", """        try:
            callback(*args_)
        except TypeError:
            callback(res)""")],
  needs='a callback which raises a TypeError of its own',
  breaks='the callback is called twice for one result',
  demo='''
from skmine.callbacks import CallBacks
class M:
    def f(self):
        return 3
seen = []
def cb(res):
    seen.append(res)
    raise TypeError("own error")
m = M()
CallBacks(f=cb)(m)
try:
    m.f()
except TypeError:
    pass
assert seen == [3], seen
'''),
 dict(id='p21-mask-only-ones', property='P21',
  edits=[(U, """    mask = np.where(y.reshape(-1))[0]""", """    mask = np.where(y.reshape(-1) == 1)[0]""")],
  needs='labels other than 0 and 1 (class numbers, weights, -1)',
  breaks='rows with a label are dropped',
  demo='''
import numpy as np, pandas as pd
from skmine.utils import supervised_to_unsupervised
D = pd.DataFrame({"a": range(5)})
assert list(supervised_to_unsupervised(D, np.array([0, 1, 2, 0, -1])).a) == [1, 2, 4]
'''),
]
