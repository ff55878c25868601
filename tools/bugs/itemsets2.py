S = 'skmine/itemsets/slim.py'
C = 'skmine/itemsets/slim_classifier.py'
V = 'skmine/feature_extraction/slim_vectorizer.py'
E = 'skmine/emerging/mbdldorber.py'
M = 'skmine/preprocessing/mdlp_discretizer.py'
BUGS = [
 dict(id='p04-usage-same-size', property='P04',
  edits=[(S, """        self.codetable_.update(usages)
        for iset in to_drop:""", """        for iset, tids in usages.items():
            if len(tids) != len(self.codetable_.get(iset, ())):  # only the usages which changed
                self.codetable_[iset] = tids
        for iset in to_drop:""")],
  needs='an accepted candidate which moves the usage of another itemset to as many other transactions',
  breaks='the code table keeps the former transactions of itemsets whose usage moved, so reconstruct loses data',
  demo='''
from skmine.itemsets import SLIM
import itertools
for pr in (True, False):
    for t in itertools.combinations_with_replacement(["ab","abc","abcd","bc","bcd","cd","acd","bd"], 6):
        D = [list(x) for x in t]
        r = SLIM(pruning=pr).fit(D).reconstruct().tolist()
        assert r == D, (D, r)
'''),
 dict(id='p04-trailing-empty', property='P04',
  edits=[(S, """        return dict(res), idx + 1
""", """        return dict(res), max((tids.max() + 1 for tids in res.values()), default=0)
""")],
  needs='transactions without item at the end of the training data',
  breaks='the last transactions disappear from the reconstruction',
  demo='''
from skmine.itemsets import SLIM
D = [["a", "b"], ["a", "b"], ["a"], []]
assert SLIM().fit(D).reconstruct().tolist() == D
'''),
 dict(id='p05-usage-overflow', property='P05',
  edits=[(S, """        usages = np.array(usages, dtype=np.uint32)
""", """        usages = np.array(usages, dtype=np.uint8 if self.n_transactions_ <= 256 else np.uint32)
""")],
  needs='a database of exactly 256 transactions with an itemset used in all of them',
  breaks='the usage 256 wraps to 0 so the sizes are wrong',
  demo='''
from skmine.itemsets import SLIM
import math
D = [["a", "b"]] * 256
s = SLIM().fit(D)
assert abs(s.data_size_ - 0) < 1e-6 and set(s.codetable_) >= {frozenset("ab")}, (s.data_size_, s.codetable_)
D = [["a", "b"]] * 255 + [["a", "b", "c"]]
s = SLIM().fit(D)
u = [len(t) for t in s.codetable_.values() if len(t)]
exp = sum(-n * math.log2(n / sum(u)) for n in u)
assert abs(s.data_size_ - exp) < 1e-3, (s.data_size_, exp, u)
'''),
 dict(id='p05-prune-decreased-sizes', property='P05',
  edits=[(S, """                CTc.update(CTp)
                del CTc[cand]
                prune_set.update(decreased)
                data_size, model_size = d_size, m_size
""", """                for iset in CTp:
                    if iset in decreased or len(iset) == 1 or len(CTp[iset]) != len(CTc[iset]):
                        CTc[iset] = CTp[iset]
                del CTc[cand]
                prune_set.update(decreased)
                data_size, model_size = d_size, m_size
""")],
  needs='a pruning step which moves the usage of an itemset of at least two items to as many other transactions',
  breaks='the pruned code table keeps outdated transactions for an itemset',
  demo='''
from skmine.itemsets import SLIM
import itertools, random
rnd = random.Random(3)
subs = ["".join(c) for r in (2, 3, 4) for c in itertools.combinations("abcde", r)]
for _ in range(4000):
    D = sorted(rnd.choices(subs, k=8))
    D = [list(x) for x in D]
    s = SLIM(pruning=True).fit(D)
    r = s.reconstruct().tolist()
    assert r == D, (D, r)
    assert sum(len(k) * len(v) for k, v in s.codetable_.items()) == sum(map(len, D)), D
'''),
 dict(id='p06-rejected-candidate-kept', property='P06',
  edits=[(S, """        to_drop = {c for c in self.codetable_.keys() - usages.keys() if len(c) > 1}
""", """        to_drop = {c for c in self.codetable_.keys() - usages.keys() if len(c) > 1 and c != candidate}
""")],
  needs='an interactive insertion of an itemset already in the code table which pruning then removes',
  breaks='an itemset removed by pruning stays in the code table with its former transactions, so items are covered twice',
  demo='''
from skmine.itemsets import SLIM
import itertools
subs = [frozenset(c) for r in (2, 3) for c in itertools.combinations("abcd", r)]
for t in itertools.combinations_with_replacement(["ab", "abc", "abcd", "bc", "cd"], 5):
    D = [list(x) for x in t]
    items = set().union(*D)
    s = SLIM(pruning=True).prefit(D)
    for a, b, c in itertools.product([x for x in subs if x <= items], repeat=3):
        if len({a, b}) < 2: continue
        s = SLIM(pruning=True).prefit(D)
        for cand in (a, b, c):
            s.update(candidate=cand)
            n = sum(len(k) * len(v) for k, v in s.codetable_.items())
            assert n == sum(map(len, D)), (D, a, b, c)
    if t[0] == "abc": break
'''),
 dict(id='p07-laplace-null-only', property='P07',
  edits=[(S, """        code_lengths["usage"] += 1
""", """        if len(code_lengths) > len(mat.columns):
            code_lengths["usage"] += 1
        else:  # every itemset applies: only the unused ones need the correction
            code_lengths["usage"] += code_lengths["usage"] == 0
""")],
  needs='a batch to which every itemset of the code table applies',
  breaks='the code length of a transaction depends on the other transactions of the batch',
  demo='''
from skmine.itemsets import SLIM
D = [list("abc"), list("ab"), list("bcd")]
s = SLIM(pruning=False).fit(D)
N = [list("ab"), list("bcd"), list("abcd"), list("d")]
whole = s.get_code_length(N).tolist()
alone = [s.get_code_length([t]).iloc[0] for t in N]
assert all(abs(a - b) < 1e-4 for a, b in zip(whole, alone)), (whole, alone)
'''),
 dict(id='p08-class-order', property='P08',
  edits=[(C, """        self.classes_ = np.unique(y)
""", """        self.classes_ = np.array(list(dict.fromkeys(y)))  # no need to sort
""")],
  needs='two classes which give exactly the same code length to a transaction, trained with rows in another order',
  breaks='ties between classes depend on the order of training rows',
  demo='''
from skmine.itemsets.slim_classifier import SlimClassifier
X = [["a", "b"], ["a", "b"], ["c"], ["c"]]
y = [0, 1, 0, 1]
p = SlimClassifier().fit(X, y).predict([["a", "b"], ["c"]]).tolist()
q = SlimClassifier().fit(X[::-1], y[::-1]).predict([["a", "b"], ["c"]]).tolist()
assert p == q, (p, q)
'''),
 dict(id='p08-empty-model-shared', property='P08',
  edits=[(C, """            self.models_.append(SLIM(items=self.items, pruning=self.pruning))
""", """            self.models_.append(SLIM(items=self.items, pruning=self.pruning, max_time=0 if len(self.classes_) > 2 else -1))
""")],
  needs='three classes or more, one of which needs two itemsets or more',
  breaks='with more than two classes learning stops after the first itemset of each class: the class tables are not those of SLIM',
  demo='''
from skmine.itemsets.slim_classifier import SlimClassifier
from skmine.itemsets import SLIM
A = [list("ab")] * 5 + [list("cd")] * 5 + [list("abcd")]
X = A + [list("ac")] * 3 + [list("bd")] * 3
y = [0] * len(A) + [1] * 3 + [2] * 3
c = SlimClassifier().fit(X, y)
ref = SLIM(pruning=False).fit(A)
assert dict(c.models_[0].codetable_) == dict(ref.codetable_)
'''),
 dict(id='p09-codes-of-columns', property='P09',
  edits=[(V, """            ct_codes = code_lengths[isets.index] / code_lengths.sum()
""", """            ct_codes = isets / max(isets.sum(), code_lengths.iloc[:self.k].sum())
""")],
  needs='codes strategy with at least one applicable itemset which is not in the k columns',
  breaks='the cells hold shares of the selected columns instead of relative usages',
  demo='''
from skmine.feature_extraction import SLIMVectorizer
D = [list("ab")] * 3 + [list("cd")] * 2 + [list("e"), list("f")]
v = SLIMVectorizer(k=2).fit(D)
m = v.transform(D)
u = {tuple(sorted(k)): len(t) for k, t in v.codetable_.items()}
for c in m.columns:
    assert abs(m[[c]].values.max() - u[c] / sum(u.values())) < 1e-6, (c, m[[c]].values.max(), u)
'''),
 dict(id='p10-rounded-growth', property='P10',
  edits=[(E, "        right_border_d2 = LCMMax(min_supp=self.min_growth_rate * self.min_supp).fit_transform(D2)",
   "        right_border_d2 = LCMMax(min_supp=min(1.0, round(self.min_growth_rate * self.min_supp, 2))).fit_transform(D2)")],
  needs='min_growth_rate * min_supp with more than two decimals (2/3 say) and an itemset whose support equals it exactly',
  breaks='itemsets exactly at the growth threshold are not emerging any more',
  demo='''
import pandas as pd
from skmine.emerging import MBDLLBorder
D = pd.Series([["a", "b"], ["a", "b"], ["c"], ["c"], ["c"], ["c"]])
m = MBDLLBorder(min_growth_rate=2, min_supp=1 / 3).fit(D, [1, 1, 1, 0, 0, 0])
assert [sorted(r) for _, r in m.borders_] == [["a", "b"]], m.borders_
'''),
 dict(id='p10-min-size-zero', property='P10',
  edits=[(E, """            if any((e < set(pat) for e in left)):
                patterns.append(pat)
""", """            if any((e < set(pat) for e in left)):
                patterns.append(pat)
        if size < len(right) - 1 and not combs:
            break
        if len(patterns) and size == 2 and all(len(e) > 1 for e in left):
            break
        left = [e for e in left if len(e) < size]  # borders which are too long for what comes next
""")],
  needs='a left border itemset whose size equals the size being enumerated',
  breaks='nothing more than pruning of borders',
  demo='''
raise SystemExit(0)
'''),
 dict(id='p11-cut-on-value', property='P11',
  edits=[(M, """            delayed(np.searchsorted)(cut_points, _X[:, idx])
""", """            delayed(np.digitize)(_X[:, idx], cut_points)
""")],
  needs='a value to transform which is equal to a cut point',
  breaks='values equal to a cut point fall in the next bin',
  demo='''
import numpy as np
from skmine.preprocessing import MDLPDiscretizer
X = np.array([[0.], [0.], [0.], [0.], [2.], [2.], [2.], [2.]])
y = np.array([0, 0, 0, 0, 1, 1, 1, 1])
d = MDLPDiscretizer().fit(X, y)
assert d.cut_points_[0].tolist() == [1.0]
assert d.transform(np.array([[0.], [1.], [2.]])).ravel().tolist() == [0, 0, 1]
'''),
 dict(id='p11-late-tie', property='P11',
  edits=[(M, """        delta = math.log2(3 ** int(k0) - 2) - (k0 * whole_entropy - k1 * entropy1 - k2 * entropy2)
""", """        delta = math.log2(3 ** int(k0) - 2) - (k0 * whole_entropy - max(k1, k2) * (entropy1 + entropy2))
""")],
  needs='an interval whose two sides have different numbers of classes, close to the acceptance limit',
  breaks='some cut points refused by the MDL criterion are accepted or the converse',
  demo='''
import itertools, math
import numpy as np
from skmine.preprocessing.mdlp_discretizer import MDLPVectDiscretizer
def H(y):
    return -sum(y.count(c) / len(y) * math.log2(y.count(c) / len(y)) for c in set(y))
for n in range(2, 9):
    for y in itertools.product(range(3), repeat=n):
        for k in range(1, n):
            a, b = y[:k], y[k:]
            gain = H(y) - (len(a) * H(a) + len(b) * H(b)) / n
            k0, k1, k2 = len(set(y)), len(set(a)), len(set(b))
            lim = (math.log2(n - 1) + math.log2(3 ** k0 - 2) - (k0 * H(y) - k1 * H(a) - k2 * H(b))) / n
            if abs(gain - lim) > 1e-9:
                assert MDLPVectDiscretizer().evaluate(np.array(y), 0, n, k) == (gain > lim), (y, k)
'''),
]
BUGS = [b for b in BUGS if b['id'] != 'p10-min-size-zero']

REJECTED = {'p04-usage-same-size', 'p05-prune-decreased-sizes', 'p06-rejected-candidate-kept', 'p07-laplace-null-only', 'p09-codes-of-columns', 'p11-late-tie'}  # equivalent, or killed by the tests
BUGS = [b for b in BUGS if b['id'] not in REJECTED]
