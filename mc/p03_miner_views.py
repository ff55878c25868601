"""P03: output options of the frequent-itemset miners are pure views; histories of calls do not interfere."""
import itertools
import os

from mc import dbs
from mc.core import Space

PROPERTY = "P03"
ASSUMPTIONS = ["transform is given a database whose last transaction has the length seen at fit (the documented shape check)",
               "items written to a file have no white space"]


def miners():
    from skmine.itemsets import LCM
    from skmine.itemsets.lcm import LCMMax
    return {"closed": (LCM, dbs.closed_frequent), "maximal": (LCMMax, dbs.maximal_frequent)}


def frame_rows(df, tids):
    rows = []
    for r in df.to_dict("records"):
        rows.append((list(r["itemset"]), int(r["support"])) + ((tuple(r["tids"]),) if tids else ()))
    return rows


def snapshot(d):
    out = {}
    for root, dirs, files in os.walk(d):
        for x in dirs:
            out[os.path.relpath(os.path.join(root, x), d)] = None
        for x in files:
            with open(os.path.join(root, x), "rb") as f:
                out[os.path.relpath(os.path.join(root, x), d)] = f.read()
    return out


def check_view(df, ref, opts, ctx, what):
    tids, lex, maxlen = opts
    ctx.eq(list(df.columns), ["itemset", "support", "tids"] if tids else ["itemset", "support"], what + ": columns")
    want = {k: v for k, v in ref.items() if maxlen == -1 or len(k) <= maxlen}
    got = {}
    for row in frame_rows(df, tids):
        k = frozenset(row[0])
        ctx.ok(k not in got and len(k) == len(row[0]), f"{what}: duplicate {row[0]}")
        got[k] = row
        if lex:
            ctx.eq(row[0], sorted(row[0]), what + ": items not in lexicographic order")
    ctx.eq({k: r[1] for k, r in got.items()}, {k: len(v) for k, v in want.items()}, what + ": itemsets and supports")
    if tids:
        for k, r in got.items():
            ctx.eq(sorted(r[2]), sorted(want[k]), what + f": tids of {sorted(k)}")
    return got


def check_options(case, ctx):
    kind, desc, namer, ms = case
    Miner, refer = miners()[kind]
    db = dbs.name(dbs.structured(desc), namer)
    if not any(db):
        return
    ref = refer(db, ms)
    work = os.path.join(ctx.scratch, "cwd")
    os.makedirs(os.path.join(work, "TEMP_dir"), exist_ok=True)
    with open(os.path.join(work, "TEMP_dir", "root0.dat"), "w") as f:
        f.write("precious\n")
    with open(os.path.join(work, "notes.txt"), "w") as f:
        f.write("mine\n")
    old = os.getcwd()
    os.chdir(work)
    try:
        m = Miner(min_supp=ms, verbose=len(db) % 2 == 0).fit(db)
        before = snapshot(work)
        for k, (tids, lex, maxlen) in enumerate(itertools.product((False, True), (True, False), (-1, 0, 1, 2, 3, 9, 33))):
            ctx.state((kind, desc, namer, ms, tids, lex, maxlen))
            what = f"{kind} tids={tids} lexicographic={lex} max_length={maxlen}"
            df = m.transform(db, return_tids=tids, lexicographic_order=lex, max_length=maxlen)
            ctx.step()
            check_view(df, ref, (tids, lex, maxlen), ctx, what)
            pos = m.transform(db, tids, lex, maxlen)
            ctx.step()
            ctx.eq(frame_rows(pos, tids), frame_rows(df, tids), what + ": positional options give another result")
            out = os.path.join(work, "res.txt") if k % 3 else "res.txt"
            if k % 2:      # the file is already there
                with open(out, "w") as f:
                    f.write("(9) old\n" * 99)
            r = m.transform(db, return_tids=tids, lexicographic_order=lex, max_length=maxlen, out=out)
            ctx.step()
            ctx.ok(r is None, what + ": file output must return None")
            after = snapshot(work)
            text = after.pop("res.txt", None)
            ctx.ok(text is not None, what + ": output file missing")
            ctx.eq(after, before, what + ": other files of the working directory changed")
            os.remove(out)
            lines = text.decode().split("\n")
            ctx.eq(lines[-1], "", what + ": output file must end with a newline")
            lines = lines[:-1]
            exp = []
            for row in frame_rows(df, tids):
                exp.append(f"({row[1]}) " + " ".join(map(str, row[0])))
                if tids:
                    exp.append(" ".join(map(str, row[2])))
            ctx.eq(lines, exp, what + ": file content differs from the in-memory result")
            ctx.outcome((kind, exp))
    finally:
        os.chdir(old)


def option_cases(q):
    def gen():
        for kind in ("closed", "maximal"):
            for masks in dbs.multisets(3, 3 if q else 4):
                for ms in (1, 2):
                    yield [kind, ["masks", masks], "str", ms]
            for d in dbs.STRUCTURED_SMALL:
                if q and d[0] in ("lfsr", "dup") and d[-1] not in (1, 2):
                    continue
                for nm in (("int",) if q else ("int", "numstr", "negint")):
                    yield [kind, d, nm, 2]
            for d in dbs.SCALE if not q else [d for d in dbs.SCALE[::3] if d[0] != "twins" or d[1] * d[2] < 400]:
                if d[0] not in ("cat", "dup") and d[1] < 135 and d[:2] not in (["ksub", 30], ["ksub", 47]):
                    yield [kind, d, "int", 2]
            for masks in ([3, 3, 1], [7, 3, 5]):
                for nm in ("numstr", "negint", "float", "bigint", "bytes", "npint", "npstr", "bool", "decimal", "neg", "huge", "oct"):
                    yield [kind, ["masks", masks], nm, 1]
    return gen


# ---- histories: operations on two miners sharing the process
HDB = [["masks", [3, 3, 6]], ["masks", [5, 5, 1, 5]], ["masks", [7, 1, 6]]]
OPS = ([["fit", m, d] for m in (0, 1) for d in range(len(HDB))]
       + [["tr", m, o] for m in (0, 1) for o in range(3)] + [["set", 0, 1], ["set", 0, 2], ["mut", 0]])
OPTS = [(False, True, -1), (True, False, -1), (False, True, 1)]


def check_history(case, ctx):
    kind, ops = case
    Miner, refer = miners()[kind]
    ms = [2, 1]
    obj = [Miner(min_supp=2), Miner(min_supp=1)]
    fitted = [None, None]
    data = [None, None]
    for op in ops:
        if op[0] == "fit":
            _, m, d = op
            # the caller's own list object: mutating it afterwards must not change the fitted miner
            data[m] = dbs.name(dbs.structured(HDB[d]), "int")
            fitted[m] = (dbs.structured(HDB[d]), ms[m])
            obj[m].fit(data[m])
        elif op[0] == "set":
            obj[0].set_params(min_supp=op[2])
            ms[0] = op[2]
        elif op[0] == "mut":
            if data[0]:
                data[0][0].append(99)
        else:
            _, m, o = op
            if fitted[m] is None:
                try:
                    obj[m].transform([[1]])
                except Exception:
                    ctx.step()
                    continue
                ctx.fail(f"{kind}: transform before fit did not raise")
            db, mmin = fitted[m]
            df = obj[m].transform(db, *OPTS[o])
            check_view(df, refer(db, mmin), OPTS[o], ctx, f"{kind} after {ops}: transform{OPTS[o]}")
            ctx.outcome((kind, m, repr(frame_rows(df, False))))
        ctx.step()
        ctx.state((kind, repr(fitted), ms))


def history_cases(depth):
    def gen():
        for kind in ("closed", "maximal"):
            for k in range(1, depth + 1):
                for ops in itertools.product(range(len(OPS)), repeat=k):
                    seq = [OPS[i] for i in ops]
                    if seq[-1][0] != "tr":
                        continue
                    yield [kind, seq]
    return gen


def check_jobs(case, ctx):
    kind, desc, ms = case
    Miner, refer = miners()[kind]
    db = dbs.structured(desc)
    ref = refer(db, ms)
    base = None
    import tempfile
    for jobs in (1, 2, 3):
        for lex in (True, False):
            df = Miner(min_supp=ms, n_jobs=jobs).fit(db).transform(db, True, lex)
            ctx.step()
            ctx.state((kind, desc, ms, jobs, lex))
            check_view(df, ref, (True, lex, -1), ctx, f"{kind} n_jobs={jobs}")
            rows = [(sorted(r[0]),) + r[1:] for r in frame_rows(df, True)]
            base = base or rows
            ctx.eq(rows, base, f"{kind} n_jobs={jobs}: rows differ from n_jobs=1")
        with tempfile.TemporaryDirectory(dir=ctx.scratch) as d:
            out = os.path.join(d, "o.txt")
            m = Miner(min_supp=ms, n_jobs=jobs).fit(db)
            m.transform(db, out=out)
            ctx.step()
            exp = [f"({r[1]}) " + " ".join(map(str, r[0])) for r in base]
            ctx.eq(open(out).read().split("\n")[:-1], exp, f"{kind} n_jobs={jobs}: file output")
    ctx.outcome(base)


def jobs_cases(q):
    def gen():
        ds = [["compl", 4], ["masks", [7, 3, 5, 6]], ["ksub", 5, 3], ["lfsr", 20, 7, 1]]
        if not q:
            ds = ds + [["mod", 30, 8], ["lfsr", 40, 9, 3], ["window", 12, 3], ["compl", 7]]
        for kind in ("closed", "maximal"):
            for d in ds:
                yield [kind, d, 2]
    return gen


def spaces(tier):
    q = tier == "quick"
    return [
        Space("options", option_cases(q), check_options,
              "all multisets of <=3 (4) transactions over 3 items plus structured databases, both miners, x every "
              "combination of tids/order/max_length(-1,0,1,2,3,9,33)/memory-or-file/positional-or-keyword", timeout=200),
        Space("histories", history_cases(4 if q else 5), check_history,
              "every sequence of <=4 (5) operations out of 15 (fit on 3 databases, transform with 3 option sets on 2 "
              "live miners, re-parameterise, caller mutates its data), both miners"),
        Space("jobs", jobs_cases(q), check_jobs, "n_jobs in {1,2,3} x order x memory/file on structured databases",
              timeout=240),
    ]
