"""Independent reference for periodic patterns: parser of the displayed pattern, decoder of (t0, pattern, E), code lengths."""
import math
import re


def dur(txt, is_dt):
    """a displayed duration -> nanoseconds (datetimes) or integer"""
    if not is_dt:
        return int(txt)
    m = re.fullmatch(r"(?:(-?\d+) days?, )?(\d+):(\d\d):(\d\d)(?:\.(\d{6}))?", txt)
    d, h, mi, s, us = m.groups()
    return ((((int(d or 0) * 24 + int(h)) * 60 + int(mi)) * 60 + int(s)) * 10 ** 6 + int(us or 0)) * 1000


def parse(s, names, is_dt):
    """'(a [d=3] (b)[r=2 p=5])[r=4 p=10]' -> ("n", r, p, [(0, leaf), (3, node)]) ; names: {text: event}"""
    by_len = sorted(names, key=len, reverse=True)

    def node(i):
        if s[i] == "(":
            # a block, unless an event name starts here as well (names are chosen so that this does not happen)
            kids, i = [], i + 1
            d = 0
            while True:
                k, i = node(i)
                kids.append((d, k))
                if s.startswith(" [d=", i):
                    j = s.index("] ", i)
                    d = dur(s[i + 4:j], is_dt)
                    i = j + 2
                    continue
                if s[i] != ")":
                    raise ValueError(f"cannot read pattern {s!r} at {i}")
                i += 1
                break
            m = re.compile(r"\[r=(\d+) p=([^\]]+)\]").match(s, i)
            if not m:
                raise ValueError(f"cannot read pattern {s!r} at {i}")
            return ("n", int(m.group(1)), dur(m.group(2), is_dt), kids), m.end()
        for n in by_len:
            if s.startswith(n, i) and (s.startswith(" [d=", i + len(n)) or s.startswith(")", i + len(n))):
                return ("e", names[n]), i + len(n)
        raise ValueError(f"cannot read pattern {s!r} at {i}")
    t, i = node(0)
    if i != len(s):
        raise ValueError(f"cannot read the end of pattern {s!r}")
    return t


def decode(tree, t0, E):
    """occurrences (time, event) in construction order; E: corrections of all occurrences but the first.
    Each occurrence is placed relatively to an earlier one: the first occurrence of the previous sibling block in the
    same repetition, or the first occurrence of the previous repetition, or (first of all) t0."""
    it = iter(E)
    out = []
    first = [True]

    def go(n, base):
        """base: where the first occurrence of the block is expected; returns where it really is"""
        if n[0] == "e":
            t = base
            if first[0]:
                first[0] = False
            else:
                t = base + next(it)
            out.append((t, n[1]))
            return t
        _, r, p, kids = n
        start = None
        for i in range(r):
            prev = None
            for j, (d, k) in enumerate(kids):
                if j == 0:
                    want = base if i == 0 else start + p
                    got = go(k, want)
                    start = got
                    if i == 0:
                        ret = got
                else:
                    got = go(k, prev + d)
                prev = got
        return ret
    go(tree, t0)
    left = list(it)
    if left:
        raise ValueError(f"{len(left)} corrections too many")
    return out


def size(tree):
    return 1 if tree[0] == "e" else tree[1] * sum(size(k) for _, k in tree[3])


def depth(tree):
    return 0 if tree[0] == "e" else 1 + max(depth(k) for _, k in tree[3])


def events(tree):
    return {tree[1]} if tree[0] == "e" else set().union(*[events(k) for _, k in tree[3]])


def data_stats(occs):
    """occs: iterable of (time, event)"""
    nb = {}
    for _, e in occs:
        nb[e] = nb.get(e, 0) + 1
    ts = [t for t, _ in occs]
    return nb, min(ts), max(ts)


def cost_single(nb, e, dT):
    """code length of one residual occurrence: its time and its event"""
    n = sum(nb.values())
    return math.log2(dT + 1) - math.log2(nb[e] / n)


def cl_events(tree, nb):
    n = sum(nb.values())
    if tree[0] == "e":
        return -math.log2(nb[tree[1]] / (3 * n))
    return 2 * math.log2(3) + sum(cl_events(k, nb) for _, k in tree[3])


def cl_reps(tree, nb):
    """each block is repeated at most as often as its rarest event occurs"""
    if tree[0] == "e":
        return 0.0
    return math.log2(min(nb[e] for e in events(tree))) + sum(cl_reps(k, nb) for _, k in tree[3])


def keyed(tree, t0, E):
    """[(path, perfect time, real time)] ; path: ((child, rep), ...) from the root"""
    real = [t for t, _ in decode(tree, t0, E)]
    out = []

    def go(n, base, path):
        if n[0] == "e":
            out.append((path, base))
            return
        _, r, p, kids = n
        for i in range(r):
            t = base + i * p
            for j, (d, k) in enumerate(kids):
                t += d
                go(k, t, path + ((j, i),))
    go(tree, t0, ())
    return [(path, t, real[i]) for i, (path, t) in enumerate(out)]


def cl_distances(tree, span):
    """inner periods and inter-block distances, when one repetition of the root spans `span`"""
    def go(n, Tmax, root):
        if n[0] == "e":
            return 0.0
        _, r, p, kids = n
        cl = 0.0
        rep = Tmax if root else Tmax - r + 1
        if not root:
            cl += math.log2(math.floor(Tmax / (r - 1)))
        if len(kids) > 1:
            cl += (len(kids) - 1) * math.log2(rep + 1)
        acc = 0
        for j, (d, k) in enumerate(kids):
            if j:
                acc += d
            cl += go(k, rep - acc, False)
        return cl
    return go(tree, span, True)


def code_length(tree, t0, E, nb, t_start, t_end):
    dT = t_end - t_start
    _, r, p, kids = tree
    occ = keyed(tree, t0, E)
    corr = {path: real - perfect for path, perfect, real in occ}

    def leaf(n, path):
        while n[0] == "n":
            path += ((0, 0),)
            n = n[3][0][1]
        return path
    za = leaf(kids[0][1], ((0, r - 1),))     # first occurrence of the last repetition
    sigma = corr[za]
    cl = cl_events(tree, nb) + cl_reps(tree, nb)
    cl += math.log2(math.floor((dT - sigma) / (r - 1)))
    cl += math.log2(dT - sigma - p * (r - 1) + 1)
    cl += sum(2 + abs(e) for e in E)
    if depth(tree) > 1 or len(kids) > 1:
        times = {path: perfect for path, perfect, _ in occ}
        span = max(times.values()) - times[za]

        def rightmost(n, path):
            """last leaf of each block, at its last repetition"""
            if n[0] == "e":
                return [path]
            out = []
            for j, (_, k) in enumerate(n[3]):
                if k[0] == "n" or j == len(n[3]) - 1:
                    out += rightmost(k, path + ((j, n[1] - 1),))
            return out
        slack = min(corr[x] for x in rightmost(tree, ()))
        cl += cl_distances(tree, span)
        cl += math.log2(t_end - t0 - p * (r - 1) - slack + 1)
    return cl
