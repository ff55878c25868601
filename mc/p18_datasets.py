"""P18: dataset files are read faithfully, and the cache always gives what a first download gives, whatever was interrupted."""
import gzip
import http.server
import io
import itertools
import os
import pickle
import shutil
import signal
import socketserver
import sys
import tempfile
import threading
import zipfile

from mc.core import Space

PROPERTY = "P18"
ASSUMPTIONS = ["servers announce the length of what they send", "a crash is the end of the process at any file write (any byte) or before any file system operation; "
               "no loss of data already handed to the operating system", "lines are separated by \\n or \\r\\n, events do not start or end with blanks or quotes"]

# ---------------------------------------------------------------- a server on the loopback interface


class Server:
    def __init__(self, files):
        outer = self
        self.files = files           # path -> bytes
        self.cut = None              # send only so many bytes
        self.hits = 0

        class H(http.server.BaseHTTPRequestHandler):
            def do_GET(self):
                outer.hits += 1
                name = self.path.lstrip("/")
                data = outer.files.get(name)
                if data is None:
                    self.send_error(404)
                    return
                self.send_response(200)
                self.send_header("Content-Length", str(len(data)))
                self.end_headers()
                self.wfile.write(data if outer.cut is None else data[:outer.cut])

            def log_message(self, *a):
                pass

        class S(socketserver.ThreadingMixIn, http.server.HTTPServer):
            daemon_threads = True
        self.s = S(("127.0.0.1", 0), H)
        self.url = f"http://127.0.0.1:{self.s.server_address[1]}/"
        threading.Thread(target=self.s.serve_forever, kwargs=dict(poll_interval=0.01), daemon=True).start()

    def stop(self):
        self.s.shutdown()
        self.s.server_close()


# ---------------------------------------------------------------- loaders

FIMI = b"1 2 3 \n4 5\n2\n8 9 10\n"
HEALTH = (b"20171223-22:15:29:606|Step_LSC|30002312|onStandStepChanged 3579\n20171223-22:15:29:615|Step_LSC|30002312|flush sensor data\n"
          b"20171224-0:2:3:1|Step, \"x\"|1|y\n20171225-01:02:03:5|HiH_\xc3\xa9|12|z\n")
TV = b"2020-08-01 06:00:00,The Moblees\n2020-08-01 06:11:00,\"Big, Block \"\"Sing\"\" Song\"\n2020-08-01 06:13:00,CBC Kids\n2020-08-02 00:00:00,CBC Kids\n"


def ubiq_line(user, proc, start, end):
    return (f'UbiqLog4UCI/{user}/log_11-29-2013.txt:{{"Application":{{"ProcessName":"{proc}","Start":"{start}","End":"{end}"}}}}')


def ubiq_zip():
    """an archive as served by UCI: two users, one of them with an unreadable date"""
    b = io.BytesIO()
    with zipfile.ZipFile(b, "w", zipfile.ZIP_DEFLATED) as z:
        rows = {"25_F": [("com.app_%d" % (i % 2), f"11-{20 + i // 6:02}-2013 08:{i:02}:57", f"11-{20 + i // 6:02}-2013 08:{i + i % 3:02}:59") for i in range(50)],
                "3_M": [("x", f"11-29-2013 08:{i:02}:00", f"11-29-2013 08:{i:02}:01") for i in range(15)] + [("x", "never", "11-29-2013 08:00:01")]}
        for u, ls in rows.items():
            z.writestr(zipfile.ZipInfo(f"UbiqLog4UCI/{u}/log_11-29-2013.txt", (2014, 1, 1, 0, 0, 0)),
                       '{"Bluetooth":{"x":1}}\n' + "".join(ubiq_line(u, *l).split(":", 1)[1] + "\n" for l in ls))
        z.writestr(zipfile.ZipInfo("__MACOSX/x", (2014, 1, 1, 0, 0, 0)), "x")
    return b.getvalue(), [ubiq_line(u, *l) for u, ls in sorted(rows.items()) for l in ls]


def ubiq_ref(lines, min_occ):
    """{user: (start, ISE rows, IS rows)}"""
    import datetime as dt
    import re
    users, bad = {}, set()
    for l in lines:
        m = re.fullmatch(r'UbiqLog4UCI/(\d+_[FM])/log_[\d-]+\.txt:\{"Application":\{"ProcessName":"([^"]*)","Start":"([^"]*)","End":"([^"]*)"\}\}', l)
        if not m:
            continue
        u, p, a, b = m.groups()
        try:
            a, b = (dt.datetime.strptime(x, "%m-%d-%Y %H:%M:%S") for x in (a, b))
        except ValueError:
            bad.add(u)
            continue
        users.setdefault(u, []).extend([(a, p + "_I")] if (b - a).total_seconds() < 60 else [(a, p + "_S"), (b, p + "_E")])
    out = {}
    for u, evs in users.items():
        if u in bad:
            continue
        names = [e for _, e in evs]
        evs = [(t, e) for t, e in evs if names.count(e) > min_occ]
        if len(evs) > min_occ:
            ise = sorted(set(evs))
            is_ = []
            for t, e in ise:
                if e[-1] != "E" and (t, e[:-2]) not in is_[-1:]:
                    is_.append((t, e[:-2]))
            out[u] = (ise[0][0], ise, [e for _, e in is_])
    return out


WGET = """#!/opt/venv/bin/python -SEsI
import socket, sys
host, path = sys.argv[1].split("/", 3)[2:]
h, p = host.split(":")
c = socket.create_connection((h, int(p)))
c.sendall(f"GET /{path} HTTP/1.0\\r\\nHost: {host}\\r\\n\\r\\n".encode())
f = c.makefile("rb")
if f.readline().split()[1] != b"200":
    sys.exit(8)
for l in iter(f.readline, b"\\r\\n"):
    if l.lower().startswith(b"content-length:"):
        n = int(l.split(b":")[1])
with open(path.split("/")[-1], "wb", buffering=0) as o:
    b = f.read()
    while b:
        k = o.write(b)
        n -= k
        b = b[k:]
sys.exit(4 if n else 0)
"""


def stub(ctx):
    """stand-in for the wget command, which is not installed here"""
    d = os.path.join(ctx.scratch, "bin")
    if not os.path.exists(os.path.join(d, "wget")):
        os.makedirs(d, exist_ok=True)
        with open(os.path.join(d, "wget.tmp"), "w") as f:
            f.write(WGET)
        os.chmod(os.path.join(d, "wget.tmp"), 0o755)
        os.rename(os.path.join(d, "wget.tmp"), os.path.join(d, "wget"))
    if d not in os.environ["PATH"].split(":"):
        os.environ["PATH"] = d + ":" + os.environ["PATH"]


def load(name, home, url):
    from skmine.datasets import fimi, periodic
    periodic.UBIQ_url = url + "UbiqLog4UCI.zip"
    if name == "ubiq":
        return periodic.fetch_ubiq(data_home=home)
    fimi.BASE_URL_FIMI = url
    fimi.BASE_URL_CGI = url + "cgi/"
    periodic.health_app_url = url + "HealthApp_2k.log"
    periodic.canadianTV_url = url + "canadian_tv.txt"
    if name in SERVED:
        return getattr(fimi, "fetch_" + name)(data_home=home)
    if name == "fimi":
        return fimi.fetch_chess(data_home=home)
    if name == "mushroom":
        return fimi.fetch_mushroom(data_home=home)
    if name == "any":
        return fimi.fetch_any("own.dat", base_url=url, data_home=home)
    if name == "gz":
        return fimi.fetch_iris(data_home=home)
    if name == "health":
        return periodic.fetch_health_app(data_home=home)
    if name == "tv":
        return periodic.fetch_canadian_tv(data_home=home)
    raise KeyError(name)


SERVED = ["chess", "connect", "pumsb", "pumsb_star", "kosarak", "retail", "accidents", "mushroom"]     # fetch_<name> gets <name>.dat
UBIQ, UBIQ_LINES = ubiq_zip()
FILES = {"UbiqLog4UCI.zip": UBIQ, "chess.dat": FIMI, "own.dat": FIMI, "mushroom.dat": FIMI, "cgi/iris.D19.N150.C3.num.gz": gzip.compress(FIMI, mtime=0),
         "HealthApp_2k.log": HEALTH, "canadian_tv.txt": TV}
SIZE = {"fimi": FIMI, "any": FIMI, "gz": FILES["cgi/iris.D19.N150.C3.num.gz"], "health": HEALTH, "tv": TV, "ubiq": UBIQ}
LOADERS = ["fimi", "any", "gz", "health", "tv", "ubiq"]


def expected(name):
    """index and values of the dataset"""
    import datetime as dt
    if name == "ubiq":
        return tuple(map(list, zip(*ubiq_ref(UBIQ_LINES, 10)["25_F"][1])))
    if name == "health":
        return ([dt.datetime(2017, 12, 23, 22, 15, 29, 606000), dt.datetime(2017, 12, 23, 22, 15, 29, 615000), dt.datetime(2017, 12, 24, 0, 2, 3, 100000),
                 dt.datetime(2017, 12, 25, 1, 2, 3, 500000)], ["Step_LSC", "Step_LSC", 'Step, "x"', "HiH_\xe9"])
    if name == "tv":
        return ([dt.datetime(2020, 8, 1, 6), dt.datetime(2020, 8, 1, 6, 11), dt.datetime(2020, 8, 1, 6, 13), dt.datetime(2020, 8, 2)],
                ["The Moblees", 'Big, Block "Sing" Song', "CBC Kids", "CBC Kids"])
    return [0, 1, 2, 3], [[1, 2, 3], [4, 5], [2], [8, 9, 10]]


def dump(s):
    idx = [i.to_pydatetime() if hasattr(i, "to_pydatetime") else int(i) for i in s.index]
    vals = [list(map(int, v)) if isinstance(v, list) else str(v) for v in s.values]
    return idx, vals, str(s.name), str(s.index.name)


def in_child(fn, limit=None, kill=False):
    """run fn in a child process -> ('ok', result) / ('error', text) / ('dead', status); limit: bytes any file may take"""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 3
        try:
            os.close(r)
            signal.setitimer(signal.ITIMER_REAL, 0)
            signal.setitimer(signal.ITIMER_PROF, 0)
            signal.alarm(300)
            signal.signal(signal.SIGALRM, signal.SIG_DFL)
            if limit is not None:
                import resource
                signal.signal(signal.SIGXFSZ, signal.SIG_DFL if kill else signal.SIG_IGN)
                resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
                resource.setrlimit(resource.RLIMIT_FSIZE, (limit, resource.RLIM_INFINITY))
            try:
                out = ("ok", fn())
            except BaseException as e:
                out = ("error", f"{type(e).__name__}: {e}"[:300])
            os.write(w, pickle.dumps(out))
            code = 0
        finally:
            os._exit(code)
    os.close(w)
    data = b""
    while True:
        b = os.read(r, 65536)
        if not b:
            break
        data += b
    os.close(r)
    _, st = os.waitpid(pid, 0)
    if data:
        return pickle.loads(data)
    return ("dead", st)


def fresh(ctx):
    import skmine.datasets.fimi, skmine.datasets.periodic    # before forking
    stub(ctx)
    d = tempfile.mkdtemp(dir=ctx.scratch)
    os.environ["no_proxy"] = os.environ["NO_PROXY"] = "127.0.0.1"
    return d


def want(name):
    i, v = expected(name)
    nm = {"fimi": "chess", "any": "own", "gz": "iris.D19.N150.C3.num", "health": "1", "tv": "canadian_tv", "ubiq": "Ubiq25_F"}[name]
    return i, v, nm, "timestamp" if name in ("health", "tv", "ubiq") else "None"


def settle(name, home, srv, ctx, what, exp=None):
    """from the state left in the cache: the next fetch gives the dataset, then again without server"""
    exp = exp or want(name)
    srv.cut = None
    got = in_child(lambda: dump(load(name, home, srv.url)))
    ctx.step()
    ctx.eq(got, ("ok", exp), f"{what}: next fetch")
    hits = srv.hits
    keep = srv.files
    srv.files = {}
    got = in_child(lambda: dump(load(name, home, srv.url)))
    srv.files = keep
    ctx.step()
    ctx.eq(got, ("ok", exp), f"{what}: fetch from the cache")
    ctx.eq(srv.hits, hits, f"{what}: downloads when cached")


def check_crash(case, ctx):
    name, kind, k = case
    d = fresh(ctx)
    home = os.path.join(d, "home")
    srv = Server(dict(FILES))
    try:
        if kind in ("kill", "full"):
            got = in_child(lambda: dump(load(name, home, srv.url)), limit=k, kill=kind == "kill")
        elif kind == "cut":
            srv.cut = k
            got = in_child(lambda: dump(load(name, home, srv.url)))
        elif kind == "gone":
            srv.files = {}
            got = in_child(lambda: dump(load(name, home, srv.url)))
            srv.files = dict(FILES)
        ctx.step()
        ctx.state(case)
        ctx.outcome((name, kind, got[0]))
        if got[0] == "ok":
            ctx.eq(got[1], want(name), "first fetch")
        settle(name, home, srv, ctx, f"after {kind} at {k} ({got[0]})")
    finally:
        srv.stop()
        shutil.rmtree(d)


_hook = dict(fn=None)


def _audit(event, args):
    f = _hook["fn"]
    if f is not None and event in ("open", "os.rename", "os.listdir", "os.remove", "os.mkdir", "shutil.move", "shutil.copyfile", "os.truncate", "os.link", "subprocess.Popen"):
        f(event, args)


def check_schedule(case, ctx):
    """at the i-th file system operation of a fetch in the cache directory, another process fetches (or the first one dies)"""
    name, kind = case
    i = 0
    while True:
        d = fresh(ctx)
        home = os.path.join(d, "home")
        srv = Server(dict(FILES))
        try:
            res = os.path.join(d, "other")

            def victim():
                if not _hook.get("installed"):
                    sys.addaudithook(_audit)
                    _hook["installed"] = True
                count = [0]

                def at(event, args):
                    if not any(isinstance(a, (str, bytes)) and home in os.fsdecode(a) for a in args):
                        return
                    n = count[0]
                    count[0] += 1
                    if n != i:
                        return
                    _hook["fn"] = None
                    if kind == "die":
                        os._exit(7)
                    out = in_child(lambda: dump(load(name, home, srv.url)))
                    with open(res, "wb") as f:
                        pickle.dump(out, f)
                _hook["fn"] = at
                try:
                    return dump(load(name, home, srv.url)), count[0]
                finally:
                    _hook["fn"] = None
            got = in_child(victim)
            ctx.step()
            ctx.state((case, i))
            if kind == "die":
                reached = got[0] == "dead"
                ctx.ok(got[0] != "error", f"{got}")
            else:
                reached = os.path.exists(res)
                ctx.eq(got[0], "ok", f"fetch with another one at operation {i}: {got[1]}")
                ctx.eq(got[1][0], want(name), f"fetch with another one at operation {i}")
                if reached:
                    ctx.eq(pickle.load(open(res, "rb")), ("ok", want(name)), f"the other fetch, at operation {i}")
            settle(name, home, srv, ctx, f"after {kind} at operation {i}")
            ctx.outcome((name, kind, i))
        finally:
            srv.stop()
            shutil.rmtree(d)
        if not reached:
            ctx.ok(i >= 2, f"only {i} file system operations seen")
            return
        i += 1


def check_cache(case, ctx):
    """histories over two cache directories: fetch, remote content changes, server goes away"""
    name, ops = case
    d = fresh(ctx)
    srv = Server(dict(FILES))
    other = FIMI + b"77\n"
    remote = {"fimi": "chess.dat", "any": "own.dat"}[name]
    cached = {}
    version = {0: want(name), 1: (want(name)[0] + [4], want(name)[1] + [[77]]) + want(name)[2:]}
    cur, up = 0, True
    env = os.environ.get("SCIKIT_MINE_DATA")
    try:
        os.environ["SCIKIT_MINE_DATA"] = os.path.join(d, "env", "deep")
        for k, o in enumerate(ops):
            if o == "change":
                cur = 1 - cur
                srv.files = dict(FILES, **{remote: other if cur else FIMI}) if up else {}
            elif o == "toggle":
                up = not up
                srv.files = dict(FILES, **{remote: other if cur else FIMI}) if up else {}
            else:
                home = {"A": os.path.join(d, "A", "sub"), "B": os.path.join(d, "B"), "env": None}[o]
                hits = srv.hits
                got = in_child(lambda: dump(load(name, home, srv.url)))
                ctx.step()
                if o in cached:
                    ctx.eq(got, ("ok", version[cached[o]]), f"cached fetch at step {k} of {ops}")
                    ctx.eq(srv.hits, hits, f"requests for a cached dataset at step {k} of {ops}")
                elif up:
                    ctx.eq(got, ("ok", version[cur]), f"fetch at step {k} of {ops}")
                    cached[o] = cur
                else:
                    ctx.eq(got[0], "error", f"fetch without server at step {k} of {ops}")
            ctx.state((name, ops[:k + 1]))
        ctx.outcome((sorted(cached.items()), cur))
    finally:
        if env is None:
            os.environ.pop("SCIKIT_MINE_DATA", None)
        else:
            os.environ["SCIKIT_MINE_DATA"] = env
        srv.stop()
        shutil.rmtree(d)


def check_datasets(case, ctx):
    """several datasets in the same cache: each loader gets its own file"""
    d = fresh(ctx)
    home = os.path.join(d, "home")
    body = {n: "".join(f"{100 * SERVED.index(n) + i + 1} {i}\n" for i in range(len(n))) for n in SERVED}
    srv = Server({n + ".dat": t.encode() for n, t in body.items()})
    try:
        for n in case:
            got = in_child(lambda: dump(load(n, home, srv.url)))
            ctx.step()
            rows = [list(map(int, l.split())) for l in body[n].splitlines()]
            ctx.eq(got, ("ok", (list(range(len(rows))), rows, n, "None")), f"{n} in {case}")
        ctx.eq(srv.hits, len(set(case)), "number of downloads")
        ctx.state(case)
        ctx.outcome(case[-1])
    finally:
        srv.stop()
        shutil.rmtree(d)


def datasets(q):
    def gen():
        for a, b in itertools.product(SERVED, repeat=2):
            yield [a, b]
        if not q:
            for t in itertools.permutations(SERVED, 3):
                yield list(t)
    return gen


# ---------------------------------------------------------------- smartphone logs

def check_ubiq(case, ctx):
    from skmine.datasets import periodic
    lines, min_occ, last = case
    lines = [ubiq_line(*l) if isinstance(l, list) else l for l in lines]
    d = tempfile.mkdtemp(dir=ctx.scratch)
    home = os.path.join(d, "home")
    out = os.path.join(home, "UbiqLog", "users_ubiq")
    os.makedirs(out)
    try:
        p = os.path.join(d, "all.txt")
        with open(p, "w") as f:
            f.write("\n".join(lines) + ("\n" if last else ""))
        periodic.parse_all_user(p, out, min_occ=min_occ)
        ctx.step()
        ctx.state(case)
        ref = ubiq_ref(lines, min_occ)
        ctx.eq(sorted(os.listdir(out)), sorted(f"{u}_{k}_data.dat" for u in ref for k in ("IS", "ISE")), "files of users")
        for u, (start, ise, is_) in ref.items():
            for k, want_idx, want_ev in (("ISE", [t for t, _ in ise], [e for _, e in ise]), ("IS", list(range(1, len(is_) + 1)), is_)):
                if not want_ev:
                    continue
                s, user, st = periodic.read_ubiq_user(os.path.join(out, f"{u}_{k}_data.dat"))
                ctx.step()
                ctx.eq((user, st), (u, start), "user and start")
                ctx.eq(dump(s)[:2], (want_idx, want_ev), f"{k} events of {u}")
                s = periodic.fetch_ubiq(f"{u}_{k}_data.dat", data_home=home)
                ctx.eq(dump(s), (want_idx, want_ev, "Ubiq" + u, "timestamp"), f"fetched {k} events of {u}")
        ctx.outcome(sorted((u, len(x[1])) for u, x in ref.items()))
    finally:
        shutil.rmtree(d)


def ubiqs(q):
    T = ["11-29-2013 08:15:57", "11-29-2013 08:16:56", "11-29-2013 08:16:57", "11-30-2013 00:00:00", "11-28-2013 23:59:59"]
    big = [[u, p, a, b] for u in ("1_M", "12_F") for p in ("com.x.a", "b_c") for a, b in itertools.product(T, repeat=2)] + [["1_M", "a", "x", T[0]], ["12_F", "a", T[0], ""],
           "Binary file UbiqLog4UCI/3_M/log_1-1-2013.txt matches"]
    small = [["1_M", "a", T[0], T[1]], ["1_M", "a", T[0], T[2]], ["1_M", "a", T[4], T[3]], ["1_M", "b", T[0], T[0]], ["2_F", "a", T[3], T[3]], ["1_M", "a", "bad", T[0]]]

    def gen():
        for l in big:
            for mo in (0, 1):
                yield [[l], mo, mo == 0]
        for i, ls in enumerate(itertools.product(big, repeat=2)):
            if not q or i % 7 == 0 or ls[0] == ls[1]:
                yield [list(ls), i % 2, i % 3 != 0]
        for n in (3, 4) if q else (3, 4, 5):
            for i, ls in enumerate(itertools.product(small, repeat=n)):
                yield [list(ls), i % 3, i % 3 != 0]
    return gen


def caches(q):
    def gen():
        ops = ["A", "B", "env", "change", "toggle"]
        for n in range(1, (3 if q else 4) + 1):
            for h in itertools.product(ops, repeat=n):
                if h[-1] in ("A", "B", "env"):
                    yield ["fimi" if len(h) % 2 else "any", list(h)]
    return gen


def crashes(q):
    def gen():
        for name in LOADERS:
            n = len(SIZE[name])
            for kind in ("kill", "full", "cut"):
                step = (n // 64 if name == "ubiq" else 1) if not q else max(1, n // (16 if name == "ubiq" else 64))
                for k in sorted(set(range(0, n + 8, step)) | {0, 1, n - 1, n}):
                    yield [name, kind, k]
            yield [name, "gone", 0]
    return gen


def schedules(q):
    def gen():
        for name in LOADERS:
            for kind in ("die", "other"):
                yield [name, kind]
    return gen


# ---------------------------------------------------------------- files of transactions

def check_fimi(case, ctx):
    from skmine.datasets import fimi
    lines, sep, ints, eol, last, zipped = case
    text = eol.join(lines) + (eol if last else "")
    d = tempfile.mkdtemp(dir=ctx.scratch)
    try:
        p = os.path.join(d, "my.data.dat")
        with (gzip.open if zipped else open)(p, "wb") as f:
            f.write(text.encode())
        ref = [[int(t) if ints else t for t in l.rstrip().split(sep) if t] for l in (lines if last or (lines and lines[-1] != "") else lines[:-1])]
        ctx.state(case)
        ctx.step()
        if zipped:
            fimi.BASE_URL_CGI = "cgi:"
            s = fimi.fetch_any("my.data.dat", base_url="cgi:", data_home=d)
        else:
            s = fimi.fetch_file(p, separator=sep, int_values=ints)
            if sep == " " and ints:
                s2 = fimi.fetch_any("my.data.dat", base_url="http://127.0.0.1:9/", data_home=d)
                ctx.eq([list(t) for t in s2], ref, "fetch_any")
        ctx.eq([list(t) for t in s], ref, "transactions")
        ctx.ok(all(type(x) is (int if ints else str) for t in s for x in t), "type of items")
        ctx.eq(list(s.index), list(range(len(ref))), "index")
        ctx.eq(s.name, "my.data", "name")
        ctx.outcome(len(ref))
    finally:
        shutil.rmtree(d)


def fimis(q):
    il = ["1 2 3", "40", "5 6 ", "", "7  8", " 9", "-3 0", "10 9 10 2"]
    tl = ["dog cat", "x", "", "a  b ", "\xe9t\xe9 10", "c b c 07", "A\u2028B \x0cC\x85D"]
    cl = ["dog,kitty cat", "x", "", "a,,b", ",e", "f, g,"]
    bl = ["a\tb", "c d\te"]

    def gen():
        for n in range(1, (3 if q else 4) + 1):
            for ls in itertools.product(il, repeat=n):
                for last in (True, False):
                    yield [list(ls), " ", True, "\n", last, False]
                if n <= 2:
                    yield [list(ls), " ", True, "\r\n", True, False]
                    yield [list(ls), " ", False, "\n", False, False]
                    yield [list(ls), " ", True, "\n", True, True]
                    yield [[l.replace(" ", ",") for l in ls], ",", True, "\n", True, False]
            for ls in itertools.product(tl, repeat=n):
                yield [list(ls), " ", False, "\n", True, False]
            for ls in itertools.product(cl, repeat=n):
                yield [list(ls), ",", False, "\r\n" if n == 1 else "\n", n != 2, False]
            for ls in itertools.product(bl, repeat=n):
                yield [list(ls), "\t", False, "\n", True, False]
    return gen


def check_labels(case, ctx):
    """return_y splits the label from the items"""
    from skmine.datasets import fimi
    which, rows = case
    d = tempfile.mkdtemp(dir=ctx.scratch)
    try:
        fimi.BASE_URL_CGI = "http://127.0.0.1:9/cgi/"
        name = {"mushroom": "mushroom.dat", "iris": "iris.D19.N150.C3.num.gz", "breast": "breast.D20.N699.C2.num", "tictactoe": "ticTacToe.D29.N958.C2.num"}[which]
        text = "".join(" ".join(map(str, r)) + " \n" for r in rows)
        with (open if which == "mushroom" else gzip.open)(os.path.join(d, name), "wb") as f:
            f.write(text.encode())
        f = getattr(fimi, "fetch_" + which)
        D = f(data_home=d)
        X, y = f(data_home=d, return_y=True)
        ctx.step(2)
        ctx.state(case)
        ctx.eq([list(r) for r in D], rows, "data")
        if which == "mushroom":
            ctx.eq([list(r) for r in X], [r[1:] for r in rows], "items")
            ctx.eq(list(y), [{2: 0}.get(r[0], r[0]) for r in rows], "labels")
        else:
            ctx.eq([list(r) for r in X], [r[:-1] for r in rows], "items")
            ctx.eq(list(y), [r[-1] for r in rows], "labels")
        ctx.eq(list(X.index), list(D.index), "index")
        ctx.eq(list(y.index), list(D.index), "index")
        ctx.outcome((which, len(set(y))))
    finally:
        shutil.rmtree(d)


def labels(q):
    rl = [[1, 3, 9], [2, 3, 9], [2, 2, 23], [1, 2, 4, 7], [2, 1]]

    def gen():
        for which in ("mushroom", "iris", "breast", "tictactoe"):
            for n in range(1, (3 if q else 4) + 1):
                for rows in itertools.product(rl, repeat=n):
                    yield [which, [list(r) for r in rows]]
    return gen


# ---------------------------------------------------------------- larger files and datasets

def rows_of(n, m):
    """n transactions of up to m items: unsorted, with repeated items"""
    return [[(i * 7919 + j * j * 31 + j) % 1009 for j in range(1 + (i * i) % max(m, 1))] for i in range(n)]


def events_of(n):
    import datetime as dt
    t0 = dt.datetime(2020, 1, 1)
    return [(t0 + dt.timedelta(milliseconds=(i * 7907 % (n + 3)) * 86413), ["a", "B c", 'x, "y"', "\xe9", f"event {i % 97}", "a #1; -- 50%", "it's \\n"][i % 7]) for i in range(n)]


def check_large(case, ctx):
    kind, n, m = case
    d = fresh(ctx)
    try:
        if kind in ("ints", "texts", "huge"):
            from skmine.datasets import fimi
            rows = rows_of(n, m)
            if kind == "texts":
                rows = [[f"item{x}" * (1 + x % 3) for x in r] for r in rows]
            if kind == "huge":
                rows = [[x * (2 ** 61 + 1) - 2 ** 65 + 7 for x in r] for r in rows]
            p = os.path.join(d, "big.file.txt")
            with open(p, "w") as f:
                f.write("".join(" ".join(map(str, r)) + "\n" for r in rows))
            s = fimi.fetch_file(p, int_values=kind != "texts")
            ctx.step()
            ctx.ok([list(r) for r in s] == rows, f"{len(rows)} transactions of {m} items are not those of the file ({len(s)})")
            ctx.eq(s.name, "big.file", "name")
        elif kind == "events":
            from skmine.datasets.periodic import fetch_file
            rows = events_of(n)
            p = os.path.join(d, "log.csv")
            with open(p, "w", encoding="utf8") as f:
                f.write("".join(f"{t:%Y-%m-%d %H:%M:%S.%f}|{e}\n" for t, e in rows if not e.startswith("x")))
            rows = [(t, e) for t, e in rows if not e.startswith("x")]
            s = fetch_file(p, separator="|")
            ctx.step()
            ctx.ok(dump(s)[:2] == tuple(map(list, zip(*rows))), f"{n} events are not those of the file ({len(s)})")
        elif kind == "int-events":
            from skmine.datasets.periodic import fetch_file
            rows = [((i * 7907 % (n + 3)) * 1000003 - 5, e) for i, (_, e) in enumerate(events_of(n)) if e[0] != "x"]
            p = os.path.join(d, "log.csv")
            with open(p, "w", encoding="utf8") as f:
                f.write("".join(f"{t}|{e}\n" for t, e in rows))
            s = fetch_file(p, separator="|")
            ctx.step()
            ctx.ok(s.index.dtype.kind == "i" and dump(s)[:2] == tuple(map(list, zip(*rows))), f"{n} events are not those of the file ({len(s)})")
        else:
            rows = rows_of(n, m)
            evs = events_of(n)
            text = "".join(" ".join(map(str, r)) + " \n" for r in rows).encode()
            import csv
            tv = io.StringIO()
            csv.writer(tv, lineterminator="\n").writerows([f"{t:%Y-%m-%d %H:%M:%S.%f}", e] for t, e in evs)
            files = {"fimi": ("chess.dat", text), "any": ("own.dat", text), "gz": ("cgi/iris.D19.N150.C3.num.gz", gzip.compress(text, mtime=0)),
                     "health": ("HealthApp_2k.log", "".join(f"{t.year}{t.month:02}{t.day:02}-{t.hour}:{t.minute}:{t.second}:{t.microsecond // 1000}|{e.replace(chr(34), '')}|3|x\n" for t, e in evs).encode()),
                     "tv": ("canadian_tv.txt", tv.getvalue().encode())}
            w = want(kind)
            if kind in ("fimi", "any", "gz"):
                exp = (list(range(n)), rows) + w[2:]
            else:
                import datetime as dt
                ms = lambda t: dt.datetime.strptime(f"{t:%Y%m%d-%H:%M:%S}:{t.microsecond // 1000}", "%Y%m%d-%H:%M:%S:%f")
                exp = ([ms(t) if kind == "health" else t for t, _ in evs], [e.replace('"', "") if kind == "health" else e for _, e in evs]) + w[2:]
            srv = Server(dict([files[kind]]))
            try:
                home = os.path.join(d, "home")
                for what in ("first fetch", "cached"):
                    got = dump(load(kind, home, srv.url))
                    ctx.step()
                    ctx.ok(got == exp, f"{kind}: {what} of {n} rows is not the file of the server ({len(got[0])} rows)")
                    srv.files = {}
            finally:
                srv.stop()
        ctx.state(case)
        ctx.outcome((kind, n))
    finally:
        shutil.rmtree(d)


def larges(q):
    def gen():
        for n, m in ((10, 10), (100, 40), (1000, 12), (3000, 30), (9000, 9), (70000, 3), (5, 3000), (3, 40000)):
            for kind in ("ints", "texts", "huge"):
                yield [kind, n, m]
            for kind in ("fimi", "any", "gz"):
                yield [kind, n, m]
        for n in (10, 100, 255, 256, 257, 1000, 2000, 2001, 3000, 9000, 70000):
            yield ["events", n, 0]
            yield ["int-events", n, 0]
            for kind in ("health", "tv"):
                if n < 20000 or not q:
                    yield [kind, n, 0]
    return gen


def check_neighbours(case, ctx):
    """files of other names in the cache directory are neither read nor modified"""
    kind, names = case
    cached = {"fimi": "chess.dat", "any": "own.dat", "gz": "iris.D19.N150.C3.num.gz", "health": "health_app.csv", "tv": "canadian_tv.txt"}[kind]
    stem, ext = os.path.splitext(cached)
    other = {"before": "my_" + cached, "after": cached + ".bak", "tmp": cached + ".tmp", "part": cached + ".part", "upper": cached.upper(), "stem": stem, "hidden": "." + cached, "ext": ext, "ext2": "x" + ext,
             "longer": stem + "2" + ext, "zip": cached + ".gz", "number": stem + " (1)" + ext, "tilde": cached + "~", "dir": stem + ".d"}
    d = fresh(ctx)
    srv = Server(FILES)
    try:
        home = os.path.join(d, "home")
        os.makedirs(home)
        for n in names:
            if n == "dir":
                os.makedirs(os.path.join(home, other[n], cached))
                continue
            with open(os.path.join(home, other[n]), "w") as f:
                f.write("20200101-10:00:00:1,77 \n" if kind in ("health", "tv") else "77 78\n")
        w = want(kind)
        for k in range(2):
            got = dump(load(kind, home, srv.url))
            ctx.step()
            ctx.eq(got, w, f"{kind} beside {names}, fetch {k + 1}")
            srv.files = {}
        for n in names:
            if n not in ("dir", "tmp", "part"):
                with open(os.path.join(home, other[n])) as f:
                    ctx.ok("77" in f.read(), f"{other[n]} was modified by fetching {cached}")
        ctx.state(case)
        ctx.outcome((kind, len(names)))
    finally:
        srv.stop()
        shutil.rmtree(d)


def neighbours(q):
    names = ["before", "after", "tmp", "part", "upper", "stem", "hidden", "ext", "ext2", "longer", "zip", "number", "tilde", "dir"]

    def gen():
        for kind in ("fimi", "any", "gz", "health", "tv"):
            yield [kind, names]
            for n in range(3 if q else 4):
                for c in itertools.combinations(names, n):
                    yield [kind, list(c)]
    return gen


def check_filenames(case, ctx):
    """files of a name of the user's choice: each keeps what was downloaded for it"""
    from skmine.datasets import periodic
    d = fresh(ctx)
    home = os.path.join(d, "home")
    os.environ["HOME"], keep = d, os.environ.get("HOME")
    remote = {"health": "HealthApp_2k.log", "tv": "canadian_tv.txt"}
    first = {"health": b"20171223-22:15:29:606|first|1|x\n", "tv": b"2020-08-01 06:00:00,first\n"}
    srv = Server({})
    held = {}
    try:
        periodic.health_app_url = srv.url + remote["health"]
        periodic.canadianTV_url = srv.url + remote["tv"]
        for k, (which, name, how) in enumerate(case):
            srv.files = {r: first[w].replace(b"first", b"n%d" % k) for w, r in remote.items()}
            f = periodic.fetch_health_app if which == "health" else periodic.fetch_canadian_tv
            kw = dict(data_home={"plain": home, "tilde": "~/home", "slash": home + "/"}[how])
            s = f(**kw, filename=name) if name else f(**kw)
            ctx.step()
            own = held.setdefault(name or which, f"n{k}")
            ctx.eq([str(v) for v in s.values], [own], f"{which} {name} at step {k} of {case}")
            ctx.state(case[:k + 1])
        ctx.outcome(tuple(sorted(held.items())))
    finally:
        if keep is None:
            os.environ.pop("HOME", None)
        else:
            os.environ["HOME"] = keep
        srv.stop()
        shutil.rmtree(d)


def filenames(q):
    ops = [[w, n, h] for w, n, h in (("health", None, "plain"), ("health", "my.csv", "plain"), ("health", "y.csv", "tilde"), ("health", "my.csv", "slash"), ("tv", None, "plain"),
                                     ("tv", "tv.txt", "plain"), ("tv", "canadian_tv.txt", "tilde"))]

    def gen():
        for n in range(1, (3 if q else 4) + 1):
            for h in itertools.product(ops, repeat=n):
                if not {("tv", "canadian_tv.txt"), ("tv", None)} <= {(w, m) for w, m, _ in h}:
                    yield list(h)
    return gen


# ---------------------------------------------------------------- files of events

def check_events(case, ctx):
    import datetime as dt
    from skmine.datasets.periodic import fetch_file
    kind, rows, sep, last, gap = case
    d = tempfile.mkdtemp(dir=ctx.scratch)
    try:
        p = os.path.join(d, "log.csv")
        fmt = {"dmy": "%d/%m/%Y %H:%M:%S", "year": "%Y"}.get(kind)
        with open(p, "w", encoding="utf8") as f:
            f.write("\n".join(e if kind == "one" else f"{t}{sep}{gap}{e}" for t, e in rows) + ("\n" if last else ""))
        s = fetch_file(p, separator=sep, format=fmt) if fmt else fetch_file(p, separator=sep) if sep != "," else fetch_file(p)
        ctx.step()
        ctx.state(case)
        if kind == "one":
            idx = list(range(len(rows)))
        elif kind == "int":
            idx = [int(t) for t, _ in rows]
        elif fmt:
            idx = [dt.datetime.strptime(t, fmt) for t, _ in rows]
        else:
            idx = [dt.datetime.fromisoformat(t) for t, _ in rows]
        got = [i.to_pydatetime() if hasattr(i, "to_pydatetime") else i for i in s.index]
        ctx.eq(got, idx, "times")
        if kind in ("one", "int"):
            ctx.eq(str(s.index.dtype), "int64", "type of times")
        ctx.eq([None if v is None or v != v or str(v) == "<NA>" and e != "<NA>" else str(v) for v, (_, e) in zip(s.values, rows)], [e for _, e in rows], "events")
        ctx.eq(s.index.name, "timestamp", "name of the index")
        ctx.outcome((kind, len(rows)))
    finally:
        shutil.rmtree(d)


def events(q):
    ev = ["a", "The Moblees", "NA", "null", "None", "nan", "007", "\xe9"]
    times = {"int": ["10", "2010", "1999", "0", "-5", "20200101", "1500000000", "9223372036854775806"],
             "iso": ["2020-08-01 06:00:00", "2020-08-01 06:11:00", "1999-12-31 23:59:59"],
             "day": ["2020-08-01", "2020-07-30", "1970-01-01"],
             "dmy": ["01/02/2020 10:00:00", "13/02/2020 00:00:01", "31/12/1999 23:59:59"],
             "usec": ["2020-08-01 06:00:00.000001", "2020-08-01 06:00:00.123456", "2038-01-19 03:14:08.999999"],
             "iso-t": ["2020-08-01T06:00:00", "2020-02-29T23:59:59", "2262-01-01T00:00:00"],
             "year": ["2020", "1999", "2001"]}

    def gen():
        i = 0
        for n in range(1, (2 if q else 3) + 1):
            for es in itertools.product(ev, repeat=n):
                yield ["one", [[None, e] for e in es], ",", n % 2 == 1, ""]
        for kind, ts in times.items():
            for n in range(1, (2 if q else 3) + 1):
                for t in itertools.product(ts, repeat=n):
                    for es in itertools.product(ev[:4] if n > 2 else ev, repeat=n):
                        i += 1
                        yield [kind, [list(x) for x in zip(t, es)], [",", ";", "\t", "|"][i % 4], i % 3 != 0, "" if i % 5 else " "]
    return gen


def spaces(tier):
    q = tier == "quick"
    return [Space("transaction-files", fimis(q), check_fimi, "all files of <=3 (4) lines from an alphabet with blank lines, repeated and trailing separators, four separators, "
                  "integers and texts, \\n and \\r\\n, with and without final newline, plain and compressed"),
            Space("labelled-files", labels(q), check_labels, "all files of <=3 (4) lines from five for the four labelled datasets"),
            Space("event-files", events(q), check_events, "all logs of <=2 (3) lines: 5 kinds of times x 8 event names x 4 separators"),
            Space("large", larges(q), check_large, "files and served datasets of up to 70000 lines or 40000 items per line, items beyond 64 bits; fetched, then from the cache", timeout=200),
            Space("neighbours", neighbours(q), check_neighbours, "five datasets x all sets of <=2 (3) of 14 files of similar names in the cache directory, and all of them"),
            Space("filenames", filenames(q), check_filenames, "all sequences of <=3 (4) fetches of two datasets under names of the user's choice in a cache directory given in three ways"),
            Space("crashes", crashes(q), check_crash, "the process is killed, the disk is full or the connection breaks at every (64th part, 16th for UbiqLog) of the bytes of each of six datasets, then two fetches"),
            Space("datasets", datasets(q), check_datasets, "all sequences of two (three) of the eight files of transactions in one cache"),
            Space("ubiq-files", ubiqs(q), check_ubiq, "all smartphone logs of 1 line, of 3..4 (5) lines from six, and a 7th of (all) those of 2 lines from 43, minimum counts 0..2"),
            Space("schedules", schedules(q), check_schedule, "the process dies, or another process fetches the same dataset, before every file system operation in the cache"),
            Space("cache-histories", caches(q), check_cache, "all histories of <=3 (4) fetches, changes of the remote file and losses of the server over three cache directories")]
