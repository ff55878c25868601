"""uncovered.py DIR : code lines of /repo/skmine that no history executed (development tool; DIR was VP_DEV_COV of the runs)"""
import dis, json, os, sys, types
hit = set()
for f in os.listdir(sys.argv[1]):
    hit |= {tuple(x) for x in json.load(open(os.path.join(sys.argv[1], f)))}
root = "/repo"
tot = miss = 0
for d, _, fs in os.walk(root + "/skmine"):
    if "/tests" in d:
        continue
    for f in sorted(fs):
        if not f.endswith(".py"):
            continue
        p = os.path.join(d, f)
        src = open(p).read()
        lines = set()
        top = compile(src, p, "exec", dont_inherit=True)
        stack = [c for c in top.co_consts if isinstance(c, types.CodeType)]
        while stack:
            c = stack.pop()
            stack += [k for k in c.co_consts if isinstance(k, types.CodeType)]
            if c.co_name == "<module>":
                continue
            isclass = not (c.co_flags & 0x2)
            if isclass:
                continue
            lines |= {l for _, _, l in c.co_lines() if l and l != c.co_firstlineno}
        rel = p[len(root) + 1:]
        un = sorted(l for l in lines if (rel, l) not in hit)
        tot += len(lines); miss += len(un)
        if un:
            print(f"== {rel}: {len(un)} of {len(lines)}")
            sl = src.splitlines()
            for l in un:
                print(f"  {l:5d} {sl[l-1].strip()[:110]}")
print(tot, miss)
