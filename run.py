#!/opt/venv/bin/python
"""run.py <PROPERTY> [--tier quick|thorough] [--replay FILE] [--workers N] [--space NAME]

exit 0: property held on everything explored; exit 1: VIOLATION line printed.
"""
import json
import os
import shutil
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.abspath(__file__))
ENV = {"PYTHONHASHSEED": "0", "PYTHONDONTWRITEBYTECODE": "1", "MPLBACKEND": "Agg", "LC_ALL": "C.UTF-8", "TZ": "UTC",
       "OMP_NUM_THREADS": "1", "OPENBLAS_NUM_THREADS": "1", "MKL_NUM_THREADS": "1", "JOBLIB_MULTIPROCESSING": "1"}


def main():
    args = sys.argv[1:]
    prop = args[0]
    if prop == "--selftest":   # setup: the interpreter and the working tree can be used; nothing has to be built
        import subprocess
        sys.exit(subprocess.call(["/opt/venv/bin/python", "-W", "ignore", "-c", "import sys; sys.dont_write_bytecode = True; "
                                  "sys.path.insert(0, '/repo'); import numpy, pandas, sklearn, skmine; print('ready')"]))

    def opt(name, default=None):
        return args[args.index(name) + 1] if name in args else default

    tier = opt("--tier") or os.environ.get("VERIF_TIER") or "quick"
    if tier not in ("quick", "thorough"):
        tier = "quick"
    seed = int(os.environ.get("VERIF_SEED") or 1)
    if os.environ.get("VP_MC_READY") != "1":
        scratch = tempfile.mkdtemp(prefix="vpmc-")
        env = dict(os.environ, **ENV)
        env["VP_MC_READY"] = "1"
        env["VP_MC_SCRATCH"] = scratch
        env["SCIKIT_MINE_DATA"] = os.path.join(scratch, "data_home")
        env["MPLCONFIGDIR"] = os.path.join(scratch, "mpl")
        env["HOME"] = scratch
        env["JOBLIB_TEMP_FOLDER"] = scratch
        import subprocess
        try:
            rc = subprocess.call(["/opt/venv/bin/python", os.path.abspath(__file__)] + args, env=env)
        finally:
            shutil.rmtree(scratch, ignore_errors=True)
        sys.exit(rc)

    sys.path.insert(0, HERE)
    sys.path.insert(0, os.environ.get("VP_DEV_REPO") or "/repo")
    scratch = os.environ["VP_MC_SCRATCH"]
    import warnings
    warnings.simplefilter("ignore")
    import logging
    logging.disable(logging.CRITICAL)
    import importlib
    from mc import core
    mods = [f for f in os.listdir(os.path.join(HERE, "mc")) if f.startswith(prop.lower() + "_")]
    mod = importlib.import_module("mc." + mods[0][:-3])
    t0 = time.time()
    replay = opt("--replay")
    spaces = mod.spaces(tier if not replay else "thorough")
    if opt("--space"):
        spaces = [s for s in spaces if s.name == opt("--space")]
    if replay:
        d = json.load(open(replay))
        os.chdir(scratch)
        ctx = core.Ctx()
        ctx.scratch = scratch
        sp = [s for s in spaces if s.name == d["space"]][0]
        msg = core.run_case(sp, d["case"], ctx)
        print("replay:", msg or "property held")
        if msg:
            print(f"VIOLATION property={prop} replay={os.path.abspath(replay)}")
            sys.exit(1)
        sys.exit(0)

    budget = float(opt("--budget") or (780 if tier == "quick" else 7200))
    nworkers = int(opt("--workers") or min(8, os.cpu_count() or 1))
    known = json.load(open(os.path.join(HERE, "known_findings.json")))["findings"]
    known = {(k["property"], k["space"], json.dumps(k["case"], sort_keys=True)): k for k in known}
    res = core.explore(spaces, t0 + budget, nworkers=nworkers, scratch=scratch, max_viol=1 if os.environ.get("VP_DEV_FIRST") else 3,
                       known={k[1:] for k in known if k[0] == prop})
    cov_spaces, nviol, seen_known, errors = {}, 0, [], []
    out = os.environ.get("VP_DEV_OUT") or HERE
    outdir = os.path.join(out, "replays")
    all_states, tot = 0, dict(transitions=0, traces=0, n=0)
    samples = []
    exhaustive = True
    lines = []
    for sp, r in zip(spaces, res):
        all_states += len(r["states"])
        for k in tot:
            tot[k] += r[k]
        exhaustive &= not r["capped"] and not r["errors"]
        cov_spaces[sp.name] = dict(bound=sp.bound, histories=r["n"], distinct_states=len(r["states"]),
                                   transitions_checked=r["transitions"], histories_conforming=r["traces"],
                                   distinct_outcomes=len(r["outcomes"]), complete=not r["capped"],
                                   wall_s=round(r["wall"], 1), slowest_history_s=round(r["slow"][0], 2))
        if r["samples"]:
            samples.append({"space": sp.name, "history": r["samples"][-1]})
        errors += [(sp.name, e) for e in r["errors"]]
        for i, case, msg in sorted(r["viol"], key=lambda v: v[0]):
            k = (prop, sp.name, json.dumps(case, sort_keys=True))
            if k in known:
                seen_known.append(known[k]["what"])
                continue
            nviol += 1
            if nviol > 6:
                continue
            os.makedirs(outdir, exist_ok=True)
            path = os.path.join(outdir, f"{prop}-{sp.name}-{core.h64(k[2]):016x}.json")
            json.dump(dict(property=prop, space=sp.name, case=case, message=msg, index=i), open(path, "w"), indent=1)
            lines.append(f"[{sp.name}] case {json.dumps(case)[:600]}\n    {msg[:1200]}\n"
                         f"VIOLATION property={prop} replay={path}")
    wall = time.time() - t0
    level = getattr(mod, "LEVEL", "model_checking")
    coverage = dict(states=all_states, transitions=tot["transitions"], traces_validated_against_impl=tot["traces"],
                    samples=samples, exhaustive=bool(exhaustive), spaces=cov_spaces)
    ev = dict(property=prop, tier=tier, seed=seed, level=level, coverage=coverage, wall_s=round(wall, 2),
              violations=nviol, assumptions=getattr(mod, "ASSUMPTIONS", []))
    os.makedirs(os.path.join(out, "evidence"), exist_ok=True)
    with open(os.path.join(out, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    for name, c in cov_spaces.items():
        print(f"{prop} {name}: histories={c['histories']} states={c['distinct_states']} "
              f"transitions={c['transitions_checked']} outcomes={c['distinct_outcomes']} complete={c['complete']} "
              f"wall={c['wall_s']}s slowest={c['slowest_history_s']}s")
    for w in sorted(set(seen_known)):
        print(f"KNOWN-FINDING: property={prop} {w}")
    for l in lines:
        print(l)
    for name, e in errors:
        print(f"HARNESS ERROR in {name}: {e}", file=sys.stderr)
    print(f"{prop} {tier}: states={all_states} transitions={tot['transitions']} traces={tot['traces']} "
          f"violations={nviol} wall={wall:.1f}s")
    sys.stdout.flush()
    if nviol:
        sys.exit(1)
    if errors:
        sys.exit(3)
    sys.exit(0)


if __name__ == "__main__":
    main()
