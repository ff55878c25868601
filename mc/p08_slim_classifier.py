"""P08: the SLIM classifier assigns the class whose own code table gives the shortest encoding."""
import itertools
import math

from mc import dbs, p07_slim_coding as p07
from mc.core import Space
from mc.p04_slim_lossless import SLIM, TYPES

PROPERTY = "P08"
ASSUMPTIONS = ["every class has at least one non-empty transaction", "near ties (below 1e-4 relative, the code uses "
               "single precision) accept either class; when no class has a code the first class in sorted order is expected"]
LABELS = {"int": [0, 1, 2], "rev": [7, 3, 5], "str": ["no", "yes", "maybe"], "neg": [1, -1, 0],
          "many": [f"c{i}" for i in range(40)], "manyint": [100 - 3 * i for i in range(40)], "ten": list(range(40))}


def check_clf(case, ctx):
    classes, namer, labels, pruning, items, order = case
    import numpy as np
    from skmine.itemsets.slim_classifier import SlimClassifier
    data = [dbs.name(dbs.structured(d), namer) for d in classes]
    if not all(any(d) for d in data):
        return
    lab = LABELS[labels]
    pairs = [(t, lab[c]) for c, d in enumerate(data) for t in d]
    if order == "interleaved":
        pairs = pairs[::2] + pairs[1::2]
    elif order == "reversed":
        pairs = pairs[::-1]
    X, y = [p[0] for p in pairs], [p[1] for p in pairs]
    universe = sorted({i for t in X for i in t})
    its = set(universe) if items else None
    kw = dict(items=its, pruning=pruning)
    clf = SlimClassifier(**kw)
    clf.fit(X, np.array(y))
    ctx.step()
    ctx.state(case)
    n = max(i for d in classes for t in dbs.structured(d) for i in t) + 1
    if n <= 4:
        new = dbs.name([list(c) for k in range(1, n + 1) for c in itertools.combinations(range(n), k)], namer)
    else:
        new = X + [t[: len(t) // 2] for t in X if len(t) > 1] + [universe, universe[:-7]]
    # reference: one code table per class, built from exactly that class's transactions in input order
    cls = sorted(set(y))
    ctx.eq(list(clf.classes_), cls, "class labels")
    lens = {}
    for c in cls:
        m = SLIM(items=its, pruning=pruning).fit([t for t, v in zip(X, y) if v == c])
        lens[c] = [l if l > 1e-9 else math.inf for _, l in p07.expected(m, [frozenset(t) for t in new])]
    pred = list(clf.predict(new))
    ctx.step()
    ctx.eq(len(pred), len(new), "number of predictions")
    for r, t in enumerate(new):
        ls = [lens[c][r] for c in cls]
        best = min(ls)
        if math.isinf(best):
            ok = cls[:1]
        else:
            ok = [c for c, l in zip(cls, ls) if l <= best * (1 + 1e-4) + 1e-4]
        ctx.ok(pred[r] in ok, f"{t if len(t) < 12 else len(t)} is predicted {pred[r]!r}; encoded lengths per class "
               f"{dict(zip(cls, [round(x, 4) for x in ls]))}")
        ctx.outcome((pred[r], [round(x, 2) if x < math.inf else -1 for x in ls]))
    # each prediction depends on its own transaction only; the score counts the right ones
    ctx.eq(list(clf.predict(new[::-1])), pred[::-1], "predictions of the reversed batch")
    for r in range(0, len(new), 1 + len(new) // 6):
        ctx.eq(list(clf.predict(new[r:r + 1])), pred[r:r + 1], f"prediction of {new[r]} alone")
    truth = [cls[(r * r + r // 2) % len(cls)] for r in range(len(new))]
    ctx.eq(round(float(clf.score(new, np.array(truth))), 9), round(sum(a == b for a, b in zip(pred, truth)) / len(new), 9), "score")
    ctx.step(3)
    # refitting the same classifier with other labels forgets the previous model
    clf.fit(X[::-1], np.array(y[::-1]))
    again = SlimClassifier(**kw).fit(X[::-1], np.array(y[::-1]))
    ctx.eq(list(clf.predict(new)), list(again.predict(new)), "refitted classifier differs from a fresh one")
    ctx.step(2)
    near = [r for r in range(len(new)) if sorted(lens[c][r] for c in cls)[:2] != [math.inf, math.inf]
            and (lambda l: l[1] - l[0] > 1e-3 * l[0])(sorted(lens[c][r] for c in cls))]
    rev = list(again.predict(new))
    for r in near:
        ctx.eq(rev[r], pred[r], f"prediction of {new[r]} after learning from the rows in reverse order")


def check_containers(case, ctx):
    """targets and transactions in every container give the same classifier"""
    import numpy as np
    import pandas as pd
    from skmine.itemsets.slim_classifier import SlimClassifier
    classes, labels = case
    data = [dbs.name(dbs.structured(d), "str") for d in classes]
    lab = {"bool": [True, False, True], "float": [0.5, -1.0, 2.0], "npstr": ["b", "a", "c"], **LABELS}[labels]
    X = [t for d in data for t in d]
    y = [lab[c] for c, d in enumerate(data) for t in d]
    new = X + [t[:-1] for t in X if len(t) > 1]
    ref = None
    idx = [5 + 3 * i for i in range(len(X))][::-1]
    for cx in (list, lambda v: pd.Series(v, index=idx), lambda v: [tuple(t) for t in v], lambda v: [set(t) for t in v]):
        for cy in (np.array, list, lambda v: pd.Series(v, index=idx), tuple, lambda v: np.array(v, dtype=object)):
            clf = SlimClassifier().fit(cx(X), cy(y))
            ctx.step()
            got = clf.predict(new).tolist()
            ctx.eq(sorted(map(str, clf.classes_)), sorted(map(str, set(y))), "classes")
            ref = ref or got
            ctx.eq(got, ref, "predictions with other containers")
    ctx.ok(set(ref) <= set(y), f"predictions {ref} are not labels of {y}")
    ctx.state(case)
    ctx.outcome(ref)


def check_target(case, ctx):
    """SLIM on a table with a binary target learns from the positive rows only; one-vs-rest compares such models"""
    import numpy as np
    import pandas as pd
    from sklearn.multiclass import OneVsRestClassifier
    rows, y, frame, pruning = case
    X = np.array([[m >> i & 1 for i in range(3)] for m in rows])
    if frame:
        X = pd.DataFrame(X, columns=["a", "b", "c"], index=[9 - i for i in range(len(X))])
    Xp = X[np.array(y) == 1]
    ctx.state(case)
    if max(y) == 1:
        m = SLIM(pruning=pruning).fit(X, np.array(y))
        ref = SLIM(pruning=pruning).fit(Xp)
        ctx.step()

        def view(m):
            return [(sorted(k), list(v)) for k, v in m.codetable_.items()], round(m.data_size_, 6), round(m.model_size_, 6)
        ctx.eq(view(m), view(ref), "model learnt with a target")
        ctx.eq(list(m.classes_), sorted(set(y)), "classes")
        ctx.eq([round(float(x), 4) for x in m.get_code_length(X)], [round(float(x), 4) for x in ref.get_code_length(X)], "code lengths")
        ctx.outcome(len(m.codetable_))
    else:      # three classes
        ovr = OneVsRestClassifier(SLIM(pruning=pruning)).fit(X, np.array(y))
        ctx.step()
        lens = [SLIM(pruning=pruning).fit(X[np.array(y) == c]).get_code_length(X).tolist() for c in (0, 1, 2)]
        pred = ovr.predict(X)
        for r in range(len(rows)):
            l = [lens[c][r] for c in range(3)]
            ctx.ok(l[pred[r]] <= min(l) * (1 + 1e-4) or min(l) == math.inf or min(l) > 400, f"row {r} is predicted {pred[r]}; encoded lengths {l}")
        ctx.outcome(tuple(pred.tolist()))


def containers(q):
    def gen():
        rich = [[7, 7, 3, 3, 1], [6, 6, 5, 4], [7, 3, 5, 6], [1, 2, 4, 4], [3, 3, 3, 7, 7, 5, 5]]
        for a, b in itertools.permutations(rich, 2):
            for l in ("int", "rev", "str", "neg", "bool", "float", "npstr"):
                yield [[["masks", a], ["masks", b]], l]
        for l in ("int", "rev", "str", "neg", "float", "npstr"):
            yield [[["masks", a] for a in rich[:3]], l]
    return gen


def targets(q):
    def gen():
        for n in (2, 3):
            for rows in itertools.product(range(1, 8), repeat=n):
                for y in itertools.product((0, 1), repeat=n):
                    if 1 in y:
                        yield [list(rows), list(y), (sum(rows) + sum(y)) % 2 == 0, rows[0] % 2 == 0]
        for rows in itertools.product((1, 3, 6, 7), repeat=5 if q else 6):
            y = [0, 1, 2, 0, 2, 1][:len(rows)]
            yield [list(rows), y if sum(rows) % 2 else y[::-1], rows[0] == 1, sum(rows) % 3 == 0]
    return gen


def cases(q):
    def gen():
        small = [m for m in dbs.multisets(3, 2)]
        for a, b in itertools.product(small, small):
            if q and (sum(a) * 7 + sum(b)) % 2:
                continue
            yield [[["masks", a], ["masks", b]], "str", "int", False, True, "blocks"]
        singles = [[m] for m in range(1, 8)]
        for a, b, c in itertools.product(singles, singles, singles):
            yield [[["masks", a], ["masks", b + a], ["masks", c + c]], "int", "str", True, False, "interleaved"]
        rich = [[7, 7, 3, 3, 1], [6, 6, 5, 4], [7, 3, 5, 6], [1, 2, 4, 4], [3, 3, 3, 7, 7, 5, 5]]
        for a, b in itertools.permutations(rich, 2):
            for labels in ("int", "rev", "str", "neg"):
                for pruning in (True, False):
                    for items in (True, False):
                        for order in ("blocks", "reversed"):
                            yield [[["masks", a], ["masks", b]], "str", labels, pruning, items, order]
        fams = [["compl", 5], ["ring", 6, 2], ["lfsr", 20, 7, 1], ["lfsr", 20, 7, 2], ["chain", 6], ["blocks", 2, 4, 3],
                ["mod", 12, 6], ["ksub", 5, 3], ["dup", 10, ["masks", [15, 7, 12, 8]]]]
        for a, b in itertools.permutations(fams, 2):
            for pruning in (True, False):
                yield [[a, b], "int", "rev", pruning, True, "interleaved"]
        # many classes, classes of very different sizes, other item types
        for c in (4, 5, 8, 9, 10, 11, 12, 17, 33):
            for labels in ("many", "manyint", "ten"):
                for f in (lambda i: ["dup", 2 + i % 3, ["masks", [1 << i % 4, 3 << i % 5, 1 + i]]], lambda i: ["shift", i, ["nested", 2, 2, 2]]):
                    yield [[f(i) for i in range(c)], "int", labels, c % 2 == 0, True, ("blocks", "interleaved", "reversed")[c % 3]]
        for k in (16, 64, 100, 127, 128, 129, 255, 256, 257, 300, 1000):
            for a, b in (([3, 6, 5], [7]), ([1], [3, 3, 2, 7])):
                yield [[["dup", k, ["masks", a]], ["masks", b]], "int", "rev", False, True, "blocks"]
                yield [[["masks", b], ["dup", k, ["masks", a]]], "str", "int", True, False, "interleaved"]
        for nm in TYPES:
            for a, b in itertools.permutations(rich[:4], 2):
                yield [[["masks", a], ["masks", b]], nm, "rev", False, True, "interleaved"]
        for d in dbs.SLIM_SCALE[::4]:
            yield [[d, ["rev", ["shift", 1, d]]], "int", "str", False, True, "blocks"]
        # long transactions: code lengths of hundreds of bits
        for n in (40, 90, 130) if q else (40, 60, 90, 130, 200):
            a, b = ["ksub", n, 1], ["cat", ["ksub", n, 1], ["dup", 3, ["ksub", 5, 1]]]
            for x, y in ((a, b), (b, a)):
                yield [[x, y], "int", "int", False, True, "blocks"]
    return gen


def spaces(tier):
    q = tier == "quick"
    return [Space("training-sets", cases(q), check_clf,
                  "all pairs of multisets of <=2 transactions over 3 items (quick: every other pair), all triples of single "
                  "transactions, ordered pairs of richer databases x label sets x pruning x declared items x row order, "
                  "structured families, up to 33 classes and 3000 transactions per class, 13 more item types, itemsets of up to 33 items, transactions of up to 130 (200) items; predictions on every subset of the items",
                  timeout=400),
            Space("containers", containers(q), check_containers, "pairs and triples of databases x 7 kinds of labels x 4 containers of transactions x 5 containers of labels"),
            Space("targets", targets(q), check_target, "all tables of 2..3 rows over 3 items with all binary targets; one-vs-rest on all tables of 5 (6) rows from four")]
