"""P22: parameters fully describe an estimator: set_params, clone, copies and pickles behave like a fresh one."""
import copy
import itertools
import pickle

from mc.core import Space

PROPERTY = "P22"
ASSUMPTIONS = ["parameters are in their announced domain", "no time limit is reached"]

PARAMS = {
    "LCM": dict(min_supp=[1, 2, 0.5], n_jobs=[1], verbose=[False]),
    "LCMMax": dict(min_supp=[1, 2, 0.5], n_jobs=[1], verbose=[False]),
    "SLIM": dict(pruning=[True, False], max_time=[-1, 1000], items=[None, ["a", "b", "c", "d", "e"]]),
    "SLIMVectorizer": dict(strategy=["codes", "one-hot"], k=[1, 3, 5], pruning=[False, True], stop_items=[None, ["a"]], max_time=[-1], items=[None, ["a", "b", "c", "d", "e"]]),
    "SlimClassifier": dict(items=[None, ["a", "b", "c", "d", "e"]], pruning=[False, True]),
    "MBDLLBorder": dict(min_growth_rate=[2, 1.5], min_supp=[0.1, 0.4], n_jobs=[1]),
    "MDLPDiscretizer": dict(random_state=[0, 1, 7], n_jobs=[1]),
    "PeriodicPatternMiner": dict(complex=[True, False], auto_time_scale=[True, False]),
    "GraphMDL": dict(),
}


def cls(name):
    if name in ("LCM", "LCMMax"):
        import skmine.itemsets.lcm as m
    elif name == "SLIM":
        import skmine.itemsets.slim as m
    elif name == "SlimClassifier":
        import skmine.itemsets.slim_classifier as m
    elif name == "SLIMVectorizer":
        import skmine.feature_extraction as m
    elif name == "MBDLLBorder":
        import skmine.emerging as m
    elif name == "MDLPDiscretizer":
        import skmine.preprocessing as m
    elif name == "PeriodicPatternMiner":
        import skmine.periodic as m
    else:
        import skmine.graph.graphmdl.graph_mdl as m
    return getattr(m, name)


def data(name, i):
    """the i-th dataset -> arguments of fit, a function making the query"""
    import numpy as np
    import pandas as pd
    if name == "PeriodicPatternMiner":
        ts = [[0, 10, 20, 30, 40, 55], [0, 10, 20, 30, 3, 13, 23, 33], [0, 2, 4, 6, 8, 100, 102, 104, 106], [5, 6]][i]
        ev = "aaaabbbbcccc" if i == 1 else "a" * 9
        return (pd.Series(list(ev[:len(ts)]), index=ts),)
    if name == "MDLPDiscretizer":
        X = np.array([[0.0, 1], [1, 5], [2, 2], [3, 7], [10, 1], [11, 4], [12, 4], [13, 9]])
        y = np.array([[0, 0, 0, 0, 1, 1, 1, 1], [0, 1, 0, 1, 0, 1, 0, 1], [2, 2, 0, 0, 1, 1, 1, 1], [0] * 8][i])
        return (pd.DataFrame(X, columns=["u", "v"]), y) if i % 2 else (X, y)
    if name == "GraphMDL":
        import networkx as nx
        g = nx.DiGraph()
        n = [4, 5, 6, 3][i]
        for v in range(n):
            g.add_node(v, label="AB"[v % 2])
        for v in range(n - 1):
            g.add_edge(v, v + 1, label="e" if v % 3 else "f")
        return (g,)
    D = [["abc", "abc", "ab", "d"], ["ab", "ab", "cd", "cd", "abcd", "e"], ["abde", "abde", "bd", "ce", "a"], ["a", "b"]][i]
    D = [list(t) for t in D]
    if name == "SlimClassifier":
        return D, np.array(([0, 1] * 4)[:len(D)])
    if name == "MBDLLBorder":
        return pd.Series(D), pd.Series((["x", "y"] * 4)[:len(D)])
    return (D,)


def frame(df):
    def c(v):
        if isinstance(v, (set, frozenset)):
            return sorted(map(str, v))
        if isinstance(v, (list, tuple)):
            return [c(x) for x in v]
        if isinstance(v, float):
            return round(v, 6)
        return str(v)
    cols = [str(x) for x in df.columns] if hasattr(df, "columns") else str(df.name)
    return cols, [str(i) for i in df.index], [c(list(r)) if hasattr(df, "columns") else c(r) for r in df.values.tolist()]


def result(name, m, args):
    """what a user sees of a fitted estimator"""
    if name in ("LCM", "LCMMax", "SLIM", "SLIMVectorizer", "PeriodicPatternMiner"):
        return frame(m.transform(args[0]))
    if name == "SlimClassifier":
        return list(map(str, m.predict(args[0]))), [str(c) for c in m.classes_]
    if name == "MBDLLBorder":
        return sorted(map(str, map(sorted, m.discover(min_size=1))))
    if name == "MDLPDiscretizer":
        return frame(m.transform(args[0])) if hasattr(args[0], "columns") else m.transform(args[0]).tolist(), {str(k): list(map(float, v)) for k, v in m.cut_points_.items()}
    return sorted(sorted((d.get("label"), len(p.out_edges(v))) for v, d in p.nodes(data=True)).__repr__() for p in m.patterns()), round(m.description_length(), 6)


def fit(name, m, args):
    import warnings
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        got = m.fit(*copy.deepcopy(args))
    return got


def reference(name, params, i):
    args = data(name, i)
    m = cls(name)(**copy.deepcopy(params))
    fit(name, m, args)
    return result(name, m, args)


def check_params(case, ctx):
    name, params, i = case
    C = cls(name)
    args = data(name, i)
    m = C(**params)
    ctx.eq(m.get_params(), params, "get_params after construction")
    ctx.eq(m.get_params(deep=True), params, "get_params(deep=True)")
    from sklearn.base import clone
    c = clone(m)
    ctx.eq(c.get_params(), params, "parameters of the clone")
    before = copy.deepcopy(params)
    ctx.ok(fit(name, m, args) is m, "fit does not return the estimator")
    ctx.eq(m.get_params(), before, "parameters after fit")
    want = result(name, m, args)
    ctx.eq(m.get_params(), before, "parameters after queries")
    ctx.step(2)
    for what, other in (("clone", c), ("clone of a fitted estimator", clone(m)), ("set_params on a default estimator", C().set_params(**params)),
                        ("set_params one by one", [d := C(), [d.set_params(**{k: v}) for k, v in params.items()]][0]), ("copy", copy.deepcopy(c)), ("shallow copy", copy.copy(c)), ("shallow copy of a fitted estimator", copy.copy(m)), ("pickled", pickle.loads(pickle.dumps(c)))):
        ctx.ok(type(other) is C, f"{what} is a {type(other).__name__}")
        ctx.eq(other.get_params(), before, f"parameters of {what}")
        fit(name, other, args)
        ctx.step()
        ctx.eq(other.get_params(), before, f"parameters of {what}")
        ctx.eq(result(name, other, args), want, f"result of {what}")
    for what, other in (("copy of a fitted estimator", copy.deepcopy(m)), ("pickled fitted estimator", pickle.loads(pickle.dumps(m)))):
        ctx.step()
        ctx.eq(result(name, other, args), want, f"result of {what}")
        ctx.eq(other.get_params(), before, f"parameters of {what}")
    if hasattr(m, "fit_transform"):
        got = clone(m).fit_transform(*copy.deepcopy(args)) if name != "MDLPDiscretizer" else None
        if got is not None:
            ctx.eq(frame(got), want, "fit_transform")
    if hasattr(m, "fit_discover"):
        ctx.eq(sorted(map(str, map(sorted, clone(m).fit_discover(*args, min_size=1)))), want, "fit_discover")
    try:
        m.set_params(no_such_parameter=3)
    except ValueError:
        pass
    else:
        ctx.fail("unknown parameter accepted")
    ctx.ok(not hasattr(m, "no_such_parameter"), "unknown parameter set")
    ctx.eq(m.set_params().get_params(), before, "set_params without argument")
    ctx.eq(result(name, m, args), want, "result at the end")
    ctx.state(case)
    ctx.outcome((name, str(want)))


def combos(name):
    P = PARAMS[name]
    for vals in itertools.product(*P.values()):
        yield dict(zip(P, vals))


def params(q):
    def gen():
        for name in PARAMS:
            for p in combos(name):
                for i in range(3 if q else 4):
                    yield [name, p, i]
    return gen


def check_history(case, ctx):
    """set_params / fit / clone histories end like a fresh estimator with the last parameters"""
    from sklearn.base import clone
    name, ops = case
    all_p = list(combos(name))
    m = cls(name)(**all_p[0])
    cur, fitted = dict(all_p[0]), None
    for k, o in enumerate(ops):
        if o[0] == "set":
            p = all_p[o[1] % len(all_p)]
            part = p if o[2] is None else {n: v for n, v in p.items() if n == sorted(p)[o[2] % len(p)]}
            ctx.ok(m.set_params(**part) is m, "set_params does not return the estimator")
            cur.update(part)
        elif o[0] == "fit":
            fit(name, m, data(name, o[1]))
            fitted = (dict(cur), o[1])
            ctx.eq(result(name, m, data(name, o[1])), REF(name, cur, o[1]), f"result at step {k} of {ops}")
        else:
            m = {"clone": clone, "copy": copy.deepcopy, "pickle": lambda x: pickle.loads(pickle.dumps(x))}[o[1]](m)
            if o[1] == "clone":
                fitted = None
        ctx.step()
        ctx.eq(m.get_params(), cur, f"parameters at step {k} of {ops}")
        ctx.state((name, str(ops[:k + 1])))
        if fitted and o[0] == "dup" and fitted[0] == cur:
            ctx.eq(result(name, m, data(name, fitted[1])), REF(name, cur, fitted[1]), f"result at step {k} of {ops}")
    ctx.outcome((name, str(cur), str(fitted)))


_ref = {}


def REF(name, params, i):
    k = (name, str(params), i)
    if k not in _ref:
        _ref[k] = reference(name, params, i)
    return _ref[k]


def histories(q):
    def gen():
        for name in PARAMS:
            if name == "GraphMDL":
                ops = [["fit", 0], ["fit", 1], ["fit", 3], ["dup", "clone"], ["dup", "copy"]]
            else:
                n = len(list(combos(name)))
                ops = [["set", 1, None], ["set", n - 1, None], ["set", n - 1, 0], ["set", n // 2, 1], ["set", n - 2, 2], ["fit", 0], ["fit", 1], ["dup", "clone"], ["dup", "copy"], ["dup", "pickle"]]
            for L in range(2, (5 if q else 6)):
                for h in itertools.product(ops, repeat=L):
                    if h[-1][0] == "fit" and any(x[0] != "fit" for x in h) or h[-1][0] == "dup" and any(x[0] == "fit" for x in h):
                        yield [name, list(h)]
    return gen


OPTIONS = {
    "LCM": dict(return_tids=[False, True], lexicographic_order=[True, False], max_length=[-1, 1, 2]),
    "LCMMax": dict(return_tids=[False, True], lexicographic_order=[True, False], max_length=[-1, 1, 2]),
    "SLIM": dict(singletons=[True, False], return_tids=[False, True], lexicographic_order=[True, False], drop_null_usage=[True, False], return_dl=[False, True]),
    "SLIMVectorizer": dict(),
    "PeriodicPatternMiner": dict(dE_sum=[True, False], chronological_order=[True, False]),
    "MDLPDiscretizer": dict(),
}


def shown(got):
    if isinstance(got, tuple):
        return [shown(x) for x in got]
    if hasattr(got, "index"):
        return frame(got)
    return got.tolist() if hasattr(got, "tolist") else round(float(got), 6)


def check_at_once(case, ctx):
    """fit_transform is fit then transform, with every option of transform and with or without labels"""
    name, opts, i, label = case
    C = (lambda: cls(name)(random_state=0)) if name == "MDLPDiscretizer" else cls(name)
    args = data(name, i)
    import numpy as np
    extra = {None: (), "none": (None,), "array": (np.array([1, 0] * 8)[:len(args[0])],), "ones": (np.ones(len(args[0]), dtype=int),)}[label]
    if name == "MDLPDiscretizer":
        args, extra = args[:1], args[1:]
    import warnings
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        X = copy.deepcopy(args[0])
        m = C()
        want = shown((m.fit(copy.deepcopy(args[0]), *extra) if extra else m.fit(copy.deepcopy(args[0]))).transform(copy.deepcopy(args[0]), **opts))
        one = C()
        got = shown(one.fit_transform(X, *extra, **opts))
        ctx.step(2)
        ctx.eq(got, want, f"fit_transform with {opts}")
        ctx.eq(shown(one.transform(copy.deepcopy(args[0]), **opts)), want, "transform after fit_transform")
        ctx.eq(str(X), str(args[0]), "input after fit_transform")
    ctx.state(case)
    ctx.outcome((name, str(want)))


def at_once(q):
    def gen():
        for name, P in OPTIONS.items():
            for n in range(0, len(P) + 1):
                for keys in itertools.combinations(P, n):
                    for vals in itertools.product(*(P[k] for k in keys)):
                        for i in range(2 if q else 4):
                            for label in ([None] if name == "MDLPDiscretizer" else [None, "none", "array", "ones"]):
                                yield [name, dict(zip(keys, vals)), i, label]
    return gen


VALUES = [None, 0, False, True, "", [], 1, 0.5, "x", -1]


def check_values(case, ctx):
    """whatever value is given to set_params, get_params returns it, and only this parameter changes"""
    name, key, i, j = case
    m = cls(name)()
    want = dict(m.get_params())
    for v in (VALUES[i], VALUES[j]):
        want[key] = v
        ctx.ok(m.set_params(**{key: v}) is m, "set_params does not return the estimator")
        ctx.step()
        got = m.get_params()
        ctx.eq(got, want, f"parameters after setting {key} to {v!r}")
        ctx.ok(type(got[key]) is type(v) and getattr(m, key) is got[key], f"{key} is {got[key]!r} instead of {v!r}")
    ctx.state(case)
    ctx.outcome((name, key))


def values():
    for name in PARAMS:
        for key in PARAMS[name]:
            for i, j in itertools.product(range(len(VALUES)), repeat=2):
                yield [name, key, i, j]


DEFAULTS = {    # as documented
    "LCM": dict(min_supp=0.2, n_jobs=1, verbose=False),
    "LCMMax": dict(min_supp=0.2, n_jobs=1, verbose=False),
    "SLIM": dict(items=None, max_time=-1, pruning=True),
    "SLIMVectorizer": dict(items=None, k=5, max_time=-1, pruning=False, stop_items=None, strategy="codes"),
    "SlimClassifier": dict(items=None, pruning=False),
    "MBDLLBorder": dict(min_growth_rate=2, min_supp=0.1, n_jobs=1),
    "MDLPDiscretizer": dict(n_jobs=1, random_state=None),
    "PeriodicPatternMiner": dict(auto_time_scale=True, complex=True),
    "GraphMDL": dict(),
}


def check_defaults(case, ctx):
    """the parameters left out have the documented value"""
    name, given, how = case
    m = cls(name)(**(given if how == "new" else {}))
    if how == "set":
        m.set_params(**given)
    ctx.step()
    ctx.state(case)
    got = m.get_params()
    ctx.eq({k: v for k, v in got.items() if k in DEFAULTS[name]}, dict(DEFAULTS[name], **given), "parameters")
    for k, v in dict(DEFAULTS[name], **given).items():
        ctx.ok(type(getattr(m, k)) is type(v), f"{k} is {getattr(m, k)!r} instead of {v!r}")
    ctx.outcome((name, sorted(given)))


def defaults():
    for name, ps in PARAMS.items():
        for k in range(len(ps) + 1):
            for keys in itertools.combinations(sorted(ps), k):
                for vals in itertools.product(*[ps[x] for x in keys]):
                    for how in ("new", "set"):
                        yield [name, dict(zip(keys, vals)), how]


def spaces(tier):
    q = tier == "quick"
    return [Space("parameters", params(q), check_params, "nine estimators x all combinations of 1-3 values per parameter x 3 (4) datasets"),
            Space("histories", histories(q), check_history, "all histories of <=4 (5) set_params, fit, clone, copy and pickle operations, ending with fit or a copy"),
            Space("at-once", at_once(q), check_at_once, "fit_transform of six estimators with every combination of the options of transform, given or left out, x labels (not given, None, two kinds of arrays) x 2 (4) datasets"),
            Space("values", values, check_values, "every parameter of nine estimators set to every pair of ten values (none, false, empty, numbers, texts) in turn"),
            Space("defaults", defaults, check_defaults, "every subset of the parameters of nine estimators given to the constructor or set_params, the others left out")]
