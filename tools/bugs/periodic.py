CY = 'skmine/periodic/cycles.py'
P = 'skmine/periodic/pattern.py'
PC = 'skmine/periodic/pattern_collection.py'
CP = 'skmine/periodic/class_patterns.py'
X = 'skmine/periodic/extract_cycles.py'
R = 'skmine/periodic/run_mine.py'
BUGS = [
 dict(id='p12-same-hour-is-day', property='P12',
  edits=[(CY, """        if (original_times_in_sec % (24 * 3600) == 0).all():
            resolution""", """        if (original_times_in_sec % (24 * 3600) == original_times_in_sec[0] % (24 * 3600)).all():
            resolution""")],
  needs='datetimes in minutes which all fall at the same time of different days, other than midnight',
  breaks='the time of the day is lost: reconstruct and get_residuals return midnights',
  demo='''
import pandas as pd
from skmine.periodic import PeriodicPatternMiner
t = pd.to_datetime(["2020-01-%02d 08:30" % d for d in (1, 2, 3, 4, 5, 6, 7, 9, 20)])
S = pd.Series("a", index=t)
m = PeriodicPatternMiner().fit(S)
got = sorted(list(m.reconstruct().time) + list(m.get_residuals().time))
assert got == sorted(t), got[:3]
'''),
 dict(id='p12-drop-same-time', property='P12',
  edits=[(PC, """        return set(data_seq.getSequence()).difference(*self.getOccLists())
""", """        covered = {}
        for occs in self.getOccLists():
            covered.update(occs)
        return {(t, ev) for t, ev in data_seq.getSequence() if covered.get(t) != ev}
""")],
  needs='two patterns with different events which cover occurrences at the same time',
  breaks='an occurrence covered by a pattern is also residual when another event is covered at the same time',
  demo='''
import pandas as pd
from skmine.periodic import PeriodicPatternMiner
a = [0, 10, 20, 30, 40, 50, 60, 70, 80, 90, 100]
b = [0, 7, 14, 21, 28, 35, 42, 49, 56, 63, 70]
S = pd.Series(["a"] * len(a) + ["b"] * len(b), index=a + b).sort_index(kind="stable")
m = PeriodicPatternMiner(complex=False).fit(S)
r, u = m.reconstruct(), m.get_residuals()
got = sorted(zip(list(r.time) + list(u.time), list(r.event) + list(u.event)))
assert got == sorted(zip(S.index, S)), got
'''),
 dict(id='p13-distance-unit', property='P13',
  edits=[(P, """                    d = nn[1] * (10 ** n_zeros * div_nb_sec) # restore time in nano-second
                    if is_datetime:
                        d = timedelta(microseconds=d / 1000)
""", """                    d = nn[1] * 10 ** n_zeros * (div_nb_sec if is_datetime and nn[1] > 1 else 1) # restore time in nano-second
                    if is_datetime:
                        d = timedelta(microseconds=d / 1000)
""")],
  needs='a pattern of several events at a distance of exactly one unit, with datetimes in minutes, hours or days',
  breaks='the displayed distance is in seconds instead of minutes, hours or days',
  demo='''
import pandas as pd, re
from skmine.periodic import PeriodicPatternMiner
t0 = pd.Timestamp("2020-01-01")
rows = []
for i in range(20):
    rows += [(t0 + pd.Timedelta(days=10 * i), "a"), (t0 + pd.Timedelta(days=10 * i + 1), "b")]
S = pd.Series([e for _, e in rows], index=pd.DatetimeIndex([t for t, _ in rows]))
tab = PeriodicPatternMiner().fit(S).transform(S)
s = " ".join(tab.pattern)
assert "[d=" not in s or "[d=1 day, 0:00:00]" in s, s
assert "[d=" in s
'''),
 dict(id='p13-sum-signed', property='P13',
  edits=[(CY, """            self.cycles["sum_E"] = self.cycles["sum_E"].apply(lambda x: np.sum(np.abs(x)))
""", """            self.cycles["sum_E"] = self.cycles["sum_E"].apply(lambda x: np.sum(np.abs(x)) if len(x) > 2 else abs(np.sum(x)))
""")],
  needs='a cycle of exactly three occurrences with corrections of opposite signs',
  breaks='the sum of corrections of three-occurrence cycles cancels out',
  demo='''
import itertools
import pandas as pd
from skmine.periodic import PeriodicPatternMiner
n = 0
for d in range(20, 60):
    S = pd.Series(["a", "a", "a", "b", "c"], index=[0, d - 1, 2 * d + 1, 5000, 100000])
    m = PeriodicPatternMiner().fit(S)
    t = m.transform(S, dE_sum=False)
    s = m.transform(S)
    if len(t):
        n += 1
        assert [sum(map(abs, e)) for e in t.E] == list(s.sum_E), (t.E, s.sum_E)
assert n
'''),
 dict(id='p14-min-cov-two', property='P14',
  edits=[(R, """            if cands[nxti].getNbUncovered() >= min_cov and cands[nxti].isEfficient(dcosts):
""", """            if cands[nxti].getNbUncovered() >= min(min_cov, len(selected) + 2) and cands[nxti].isEfficient(dcosts):
""")],
  needs='a best candidate with fewer than three uncovered occurrences when it is picked',
  breaks='nothing visible',
  demo='raise SystemExit(0)\n'),
 dict(id='p14-t0-cost', property='P14',
  edits=[(P, """            maxv = deltaT - EC_za - self.nodes[nid]["p"] * (self.nodes[nid]["r"] - 1) + 1
""", """            maxv = deltaT - max(EC_za, 0) - self.nodes[nid]["p"] * (self.nodes[nid]["r"] - 1) + 1
""")],
  needs='a pattern whose corrections sum to a negative number',
  breaks='the code length of patterns with negative cumulated corrections is too small',
  demo='''
import math
from skmine.periodic.pattern import Pattern
from skmine.periodic.data_sequence import DataSequence
ds = DataSequence({"a": [0, 10, 19, 28, 60], "b": [5, 33]})
p = Pattern(0, 4, 10)
dd = ds.getDetails()
E = [0, -1, -1]
got = p.codeLength(0, E, dd)
dT = 60
exp = -math.log2(5 / 7 / 3) - 2 * math.log2(1 / 3) + math.log2(5) + math.log2((dT + 2) // 3) + math.log2(dT + 2 - 30 + 1) + 6 + 2
assert abs(got - exp) < 1e-9, (got, exp)
'''),
 dict(id='p14-upper-median', property='P14',
  edits=[(CP, """    return int(numpy.floor(numpy.median(diffs)))
""", """    return int(numpy.floor(numpy.median(diffs) if len(diffs) < 8 else numpy.mean(diffs)))
""")],
  needs='a cycle of nine occurrences or more with an outlying interval',
  breaks='the period of longer cycles does not minimise the corrections',
  demo='''
from skmine.periodic.class_patterns import computePeriod
occs = [0, 10, 20, 30, 40, 50, 60, 70, 80, 97]
p = computePeriod(occs)
cost = lambda q: sum(abs(b - a - q) for a, b in zip(occs, occs[1:]))
assert cost(p) == min(cost(q) for q in range(1, 30)), p
'''),
 dict(id='p15-import-shares-details', property='P15',
  edits=[(CY, """        for pattern_id in patterns_id:
            (p, t0, E) = self.miners_.getPatterns()[pattern_id]
""", """        for pattern_id in sorted(set(patterns_id)):
            (p, t0, E) = self.miners_.getPatterns()[min(pattern_id, 9)]
""")],
  needs='a model with more than ten patterns',
  breaks='patterns after the tenth are not reconstructed',
  demo='''
import pandas as pd
from skmine.periodic import PeriodicPatternMiner
rows = []
for k in range(12):
    rows += [(1000 * k + (7 + k) * i, "e%02d" % k) for i in range(12)]
S = pd.Series([e for _, e in rows], index=[t for t, _ in rows])
m = PeriodicPatternMiner(complex=False).fit(S)
n = len(m.miners_.getPatterns())
for i in range(n):
    r = m.reconstruct([i])
    assert len(r) and set(zip(r.time, r.event)) == set((t, m.data_details_.getNumToEv()[e]) for t, e in m.miners_.getOccLists()[i]), i
'''),
 dict(id='p15-import-tuple-children', property='P15',
  edits=[(CY, """            pattern.next_id = pseudo_pat.pop("next_id")
""", """            pattern.next_id = len(pseudo_pat.keys() - {"next_id", "t0", "E"}) - 1
            pseudo_pat.pop("next_id")
""")],
  needs='exporting an imported model again',
  breaks='the second export differs from the first one',
  demo='''
import pandas as pd, os
from skmine.periodic import PeriodicPatternMiner
S = pd.Series("a", index=[0, 10, 20, 30, 40, 50, 60, 70])
w = os.environ["DEMO_SCRATCH"]
m = PeriodicPatternMiner().fit(S)
m.export_patterns(w + "/1.json")
n = PeriodicPatternMiner()
n.import_patterns(w + "/1.json")
n.export_patterns(w + "/2.json")
assert open(w + "/1.json").read() == open(w + "/2.json").read()
'''),
]
BUGS = [b for b in BUGS if b['id'] != 'p14-min-cov-two']

BUGS = [b for b in BUGS if b['id'] != 'p14-upper-median']  # not visible through the miner
