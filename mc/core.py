"""Explicit-state / bounded-exhaustive exploration engine used by every check.

A property module exposes ``PROPERTY`` (id), ``LEVEL``, ``spaces(tier)`` -> list[Space].
A Space is a finite, deterministic enumeration of *histories* (JSON-able "cases":
an initial environment plus the operations applied to it) together with a
``check(case, ctx)`` which replays the history on the real code in /repo and
compares every step with a reference model.  The engine walks every case of every
space, sharded over processes, and counts what was actually visited.
"""
import hashlib
import itertools
import json
import os
import resource
import signal
import sys
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class Violation(Exception):
    pass


class CaseTimeout(BaseException):
    pass


def h64(obj):
    if not isinstance(obj, (bytes, str)):
        obj = repr(obj)
    if isinstance(obj, str):
        obj = obj.encode()
    return int.from_bytes(hashlib.blake2b(obj, digest_size=8).digest(), "big")


class Ctx:
    """per-worker recorder; handed to check functions"""

    def __init__(self):
        self.states = set()
        self.outcomes = set()
        self.transitions = 0
        self.traces = 0
        self.scratch = None
        self.case_id = None

    def state(self, key):
        self.states.add(h64(key))

    def outcome(self, key):
        self.outcomes.add(h64(key))

    def step(self, n=1):
        """n transitions of the real code compared with the model"""
        self.transitions += n

    def fail(self, msg):
        raise Violation(msg)

    def eq(self, got, want, what):
        if got != want:
            raise Violation(f"{what}: got {got!r}, expected {want!r}")

    def ok(self, cond, what):
        if not cond:
            raise Violation(what)


class Space:
    def __init__(self, name, cases, check, bound, timeout=90):
        self.name = name
        self.cases = cases      # callable -> iterator of JSON-able cases
        self.check = check      # callable (case, ctx)
        self.bound = bound      # human description of what is enumerated
        self.timeout = timeout


def _alarm(signum, frame):
    raise CaseTimeout()


def run_case(space, case, ctx, timeout=None):
    """returns None or a violation message"""
    timeout = timeout or float(os.environ.get("VP_DEV_TIMEOUT") or 0) or space.timeout
    # the limit is on processor time, so that a busy machine raises no alarm; the real-time limit catches what waits for ever
    signal.signal(signal.SIGALRM, _alarm)
    signal.signal(signal.SIGPROF, _alarm)
    signal.setitimer(signal.ITIMER_PROF, timeout)
    signal.setitimer(signal.ITIMER_REAL, 5 * timeout)
    try:
        space.check(case, ctx)
        ctx.traces += 1
        return None
    except Violation as e:
        return str(e)
    except CaseTimeout:
        return f"did not terminate within {timeout} s"
    except KeyboardInterrupt:
        raise
    except BaseException as e:  # any unexpected exception out of the code under test
        tb = traceback.extract_tb(e.__traceback__)
        where = " <- ".join(f"{os.path.basename(f.filename)}:{f.lineno}:{f.name}" for f in reversed(tb[-4:]))
        return f"unexpected {type(e).__name__}: {str(e)[:400]} at {where}"
    finally:
        signal.setitimer(signal.ITIMER_PROF, 0)
        signal.setitimer(signal.ITIMER_REAL, 0)


def _worker(wid, nworkers, spaces, deadline, max_viol, conn, scratch, known):
    import warnings
    warnings.simplefilter("ignore")
    dn = os.open(os.devnull, os.O_RDWR)
    os.dup2(dn, 1)
    os.dup2(dn, 2)
    d = os.path.join(scratch, f"w{wid}")
    os.makedirs(d, exist_ok=True)
    os.chdir(d)
    try:
        resource.setrlimit(resource.RLIMIT_AS, (8 << 30, 8 << 30))
    except Exception:
        pass
    journal = os.path.join(scratch, f"journal{wid}")
    sample = int(os.environ.get("VP_DEV_SAMPLE") or 0)      # development only: a part of the histories, for mutation analysis
    cov = os.environ.get("VP_DEV_COV")      # development only: lines of the code under test that the histories execute
    if cov:
        seen_lines, mon = set(), sys.monitoring
        root = os.environ.get("VP_DEV_REPO") or "/repo"

        def hit(code, line):
            if code.co_filename.startswith(root):
                seen_lines.add((code.co_filename[len(root) + 1:], line))
            return mon.DISABLE
        mon.use_tool_id(3, "vpcov")
        mon.register_callback(3, mon.events.LINE, hit)
        mon.set_events(3, mon.events.LINE)
    hangs = 0
    for si, sp in enumerate(spaces):
        if hangs >= 2:      # do not wait for the limit of every space
            break
        ctx = Ctx()
        ctx.scratch = d
        viol = []
        n = fresh = 0
        capped = False
        t0 = time.time()
        samples = []
        slow = (0, None)
        try:
            for i, case in enumerate(sp.cases()):
                if i % nworkers != wid or sample and i % sample:
                    continue
                if time.time() > deadline:
                    capped = True
                    break
                with open(journal, "w") as f:
                    f.write(json.dumps([si, case]))
                n += 1
                ctx.case_id = i
                tc = time.time()
                msg = run_case(sp, case, ctx)
                tc = time.time() - tc
                if tc > slow[0]:
                    slow = (tc, case)
                if n in (1, 50, 500):
                    samples.append(case)
                if msg is not None:
                    viol.append((i, case, msg))
                    if (sp.name, json.dumps(case, sort_keys=True)) not in known:
                        fresh += 1
                    if fresh >= max_viol or msg.startswith("did not terminate"):
                        hangs += msg.startswith("did not terminate")
                        break
        except BaseException as e:
            conn.send((si, "error", f"{type(e).__name__}: {e}\n{traceback.format_exc()}"))
            continue
        conn.send((si, "done", dict(n=n, states=ctx.states, outcomes=ctx.outcomes, transitions=ctx.transitions,
                                    traces=ctx.traces, viol=viol, capped=capped, wall=time.time() - t0,
                                    samples=samples, slow=slow)))
        if fresh and os.environ.get("VP_DEV_FIRST"):
            break
    conn.close()
    if cov:
        with open(os.path.join(cov, f"{os.getpid()}.json"), "w") as f:
            json.dump(sorted(seen_lines), f)
    try:  # stop joblib workers this process may have started
        lk = sys.modules.get("joblib.externals.loky.reusable_executor")
        if lk is not None and getattr(lk, "_executor", None) is not None:
            lk._executor.shutdown(wait=True, kill_workers=True)
    except BaseException:
        pass
    sys.stdout.flush()
    sys.stderr.flush()
    os._exit(0)


def explore(spaces, deadline, nworkers=8, max_viol=3, scratch="/tmp", known=()):
    import multiprocessing as mp
    mpx = mp.get_context("fork")
    procs = []
    for w in range(nworkers):
        r, s = mpx.Pipe(False)
        p = mpx.Process(target=_worker, args=(w, nworkers, spaces, deadline, max_viol, s, scratch, known))
        p.start()
        s.close()
        procs.append((w, p, r))
    res = [dict(n=0, states=set(), outcomes=set(), transitions=0, traces=0, viol=[], capped=False, wall=0.0,
                samples=[], errors=[], slow=(0, None)) for _ in spaces]
    from multiprocessing.connection import wait
    live = {r: (w, p) for w, p, r in procs}
    while live:
        for r in wait(list(live)):
            w, p = live[r]
            try:
                si, kind, d = r.recv()
            except EOFError:
                del live[r]
                p.join()
                if p.exitcode != 0:
                    try:
                        si, case = json.load(open(os.path.join(scratch, f"journal{w}")))
                    except Exception:
                        si, case = 0, None
                    res[si]["viol"].append((-1, case, f"process died (exit {p.exitcode}) while running this case"))
                continue
            if kind == "error":
                res[si]["errors"].append(d)
                continue
            a = res[si]
            for k in ("n", "transitions", "traces"):
                a[k] += d[k]
            a["states"] |= d["states"]
            a["outcomes"] |= d["outcomes"]
            a["viol"] += d["viol"]
            a["capped"] |= d["capped"]
            a["wall"] = max(a["wall"], d["wall"])
            a["samples"] += d["samples"]
            if d["slow"][0] > a["slow"][0]:
                a["slow"] = d["slow"]
    return res


# ---------------------------------------------------------------- enumeration helpers

def subsets(items, lo=0, hi=None):
    items = list(items)
    hi = len(items) if hi is None else hi
    for k in range(lo, hi + 1):
        yield from itertools.combinations(items, k)


def tuples_upto(alphabet, n, lo=0):
    for k in range(lo, n + 1):
        yield from itertools.product(alphabet, repeat=k)
