L = 'skmine/itemsets/lcm.py'
S = 'skmine/itemsets/slim.py'
U = 'skmine/utils.py'
BUGS = [
 dict(id='p01-floor-threshold', property='P01',
  edits=[(L, """                ids = self.item_to_tids_[new_limit]
                if tids.intersection_cardinality(ids) >= self.min_supp_:
                    # new pattern and its associated tids""", """                ids = self.item_to_tids_[new_limit]
                if tids.intersection_cardinality(ids) >= int(self.min_supp_):
                    # new pattern and its associated tids""")],
  needs='a relative min_supp whose product with the number of transactions is not an integer, and an itemset of two items or more whose support is exactly the integer below while each item is frequent',
  breaks='LCM returns itemsets below the relative support threshold',
  demo='''
from skmine.itemsets import LCM
D = [[1, 2], [1], [2], [1], [2]]
got = {tuple(r.itemset): r.support for r in LCM(min_supp=0.3).fit_transform(D).itertuples()}
assert got == {(1,): 3, (2,): 3}, got
'''),
 dict(id='p02-maximal-neighbour-size', property='P02',
  edits=[(U, """        gts = maximals.irange(itemset_set)
        # # is there a superset amongst bigger itemsets ?
        if not any(map(lambda e: e > itemset_set, gts)):
            maximals.add(itemset_set)  # O(log(len(maximals)))
""", """        gts = maximals.irange(itemset_set)
        # # is there a superset amongst bigger itemsets ? only the last kept ones can be of the next size
        if not any(map(lambda e: e > itemset_set, list(gts)[:8])):
            maximals.add(itemset_set)  # O(log(len(maximals)))
""")],
  needs='a database with more than eight maximal itemsets which are at least as long as a non maximal one passed to the filter',
  breaks='LCMMax returns itemsets which have a frequent superset when there are many maximal itemsets',
  demo='''
from skmine.itemsets.lcm import LCMMax
from itertools import combinations
D = [list(c) for c in combinations(range(5), 3)] + [[0, 1, 2, 3, 4, 5]]
for ms in (1, 2, 3):
    S = {}
    for r in range(1, 7):
        for c in combinations(range(6), r):
            s = sum(set(c) <= set(t) for t in D)
            if s >= ms: S[frozenset(c)] = s
    exp = {k for k in S if not any(k < o for o in S)}
    got = [frozenset(i) for i in LCMMax(min_supp=ms).fit_transform(D).itemset]
    assert len(got) == len(set(got)) and set(got) == exp, (ms, got, exp)
from skmine.utils import filter_maximal
big = [frozenset(range(1, 11))] + [frozenset([100 + 2 * i, 101 + 2 * i]) for i in range(10)] + [frozenset([1, 2])]
assert frozenset([1, 2]) not in filter_maximal(big)
'''),
 dict(id='p03-refit-keeps-cut', property='P03',
  edits=[(L, """            if len(itemset) <= self.max_length_ or self.max_length_ == -1:
                if""", """            if self.max_length_ != -1 and len(itemset) > self.max_length_:
                self.item_to_tids_.pop(limit, None)  # no shorter itemset below this root
            else:
                if""")],
  needs='a transform with max_length which meets a longer closed itemset, followed by another transform of the same miner',
  breaks='queries with max_length remove roots from the fitted miner, so that later queries miss itemsets',
  demo='''
from skmine.itemsets import LCM
D = [[1, 2, 3], [1, 2, 3], [2, 3], [3]]
m = LCM(min_supp=1).fit(D)
a = m.transform(D).to_dict()
m.transform(D, max_length=1)
assert m.transform(D).to_dict() == a
'''),
 dict(id='p07-cover-unknown-rows', property='P07',
  edits=[(S, """        mat = np.zeros(shape=(len(D), len(covers)), dtype=bool)
        for idx, tids in enumerate(covers.values()):
            mat[tids, idx] = True

        return pd.DataFrame(mat, columns=list(covers.keys()))""", """        mat = np.zeros(shape=(len(D), len(covers)), dtype=bool)
        rows = sorted(covers.values(), key=len, reverse=True) if len(covers) > 6 else covers.values()  # dense first
        for idx, tids in enumerate(rows):
            mat[tids, idx] = True

        return pd.DataFrame(mat, columns=list(covers.keys()))""")],
  needs='a batch in which more than six itemsets of the code table apply, used in a different order than the code table order',
  breaks='the columns of the cover are attributed to other itemsets when more than six itemsets apply',
  demo='''
from skmine.itemsets import SLIM
D = [list("ab")] * 3 + [list("cdefgh")] + [["c"], ["d", "e"], ["f"], ["g"], ["h"]]
s = SLIM().fit(D)
m = s.cover([list("ab"), list("h"), list("abcdefgh"), list("hg"), list("g")])
new = [set("ab"), set("h"), set("abcdefgh"), set("hg"), set("g")]
for i, t in enumerate(new):
    used = [set(c) for c in m.columns if m.iloc[i][[c]].iloc[0]]
    assert all(u <= t for u in used), (t, used)
    assert set().union(*used) == t and sum(map(len, used)) == len(t), (t, used)
'''),
]
