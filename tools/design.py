"""writes DESIGN.md from the hand-written parts below, the spaces of the checks, known_findings.json and seeded/"""
import glob
import importlib
import json
import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
props = [json.loads(l) for l in open(os.path.join(HERE, "properties.jsonl"))]

INTRO = """# Model checking scikit-mine

## Approach

scikit-mine is a sequential library of data miners: its "behaviours" are histories of calls on objects (construct, fit, transform, insert, refit, export ...),
the inputs of these calls, the moments at which a time limit stops a search, the outcomes of random draws, and, for the dataset cache, crash points and interleavings of file system operations.
Every property is decided by *bounded-exhaustive exploration of the real code in /repo*: a check walks **every** history of a finite, stated space, executes it on the
code of the working tree and compares each step with an independent reference model (an oracle written from the definition, in `mc/`). Nothing is sampled: the spaces are
deterministic enumerations, sharded over 8 processes, and a check says `complete=False` (evidence `exhaustive: false`) if its time cap ever cut one short.

There is no separate model to keep bound to the code: the transition system explored *is* the implementation; the reference model is only the oracle of each transition
(`traces_validated_against_impl` counts the histories of the model that the implementation was shown to follow step by step).

* `run.py PROPERTY --tier quick|thorough` runs a check; `--replay FILE` replays one counterexample; `--space NAME` one space. It re-executes itself in the project's interpreter with `/repo` first on the path and a
  scratch HOME, data home and temporary folder that are removed at the end; nothing has to be built (pure Python), no bytecode is written in /repo.
* `mc/core.py` is the explorer: Space = (enumeration, check, bound, time limit of one history). Workers journal the history being executed, so that a crash or a hang of the code under test is reported as a violation of that history.
* Every violation is written to `replays/` with the history, and printed with a `VIOLATION property=.. replay=..` line.
* `known_findings.json` lists genuine defects: `fixed` (repaired by a "fix:" commit; suppresses nothing) and `findings` (not repaired; matched by property, space and exact history).
* `tools/props.py` is the source of `properties.jsonl` and `MANIFEST.json` (`tools/validate.sh`), `tools/design.py` of this file, `tools/plant.py` of `seeded/`, `tools/mutate.py` is the mutation analysis used to look for holes.

Why this reaches what the tests cannot: the tests execute a few hand-written inputs and single calls. Most defects found here (see the list of fixes) need an input nobody writes by hand - a tie, an empty transaction,
an item that hashes like another, a log with two occurrences at the same time, a refit after another fit, a limit that strikes between two statements, a kill between two bytes - and all of these are
points of a small exhaustive space. The bet is the small scope hypothesis; where a defect needs size rather than shape (thresholds in the code such as blocks of 100 occurrences, bitmaps above 65536 rows, 8-bit counters) *structured families* extend the
spaces beyond the exhaustive sizes.

The checks judge results, not the way they are computed: private functions are only used where the property is about them (utilities), and a missing private helper is skipped, not reported.

## Properties, spaces and oracles
"""

TEXT = {
 "P01": ("closure-lattice reference: closed sets of positive support are the intersections of transactions; supports and transaction ids by direct counting", "databases are enumerated up to order, item types and containers; relative thresholds are enumerated around every k/n, where floating point rounding decides"),
 "P02": ("as P01, keeping sets without frequent proper superset", "maximality is a global property of the result; every lattice shape of four items occurs"),
 "P03": ("a model of each option (projection, sort, filter, file lines) applied to the reference result; for histories, a fresh miner", "the product of options, and all sequences of calls on two live miners"),
 "P04": ("exact cover: each item occurrence in exactly one code; reconstruction equals the input", "every database in bounds, and every way the search can be stopped by its parameters"),
 "P05": ("`mc/slimref.py` recomputes standard cover order, greedy cover, usages and both sizes from the returned code table; local optimality against every pair merge", "the code updates sizes incrementally along the search path; the reference recomputes from scratch"),
 "P06": ("explicit-state search over canonical code tables; each transition checked by the P05 reference; refits against fresh models", "all insertion sequences up to the depth, from every reachable table"),
 "P07": ("greedy cover in code table order, Laplace-smoothed code lengths, row by row", "new data = all subsets of the items plus unknown ones, at once and alone"),
 "P08": ("arg-min of reference code lengths of per-class reference models, near ties excluded", "training sets, label types, orders, batches"),
 "P09": ("the k most used itemsets of the code table that apply, cover by them, codes by usage", "all models, batches, stop items; ties by usage accept any order (a first version fixed an order: false alarm, corrected)"),
 "P10": ("definition of emerging itemsets on both collections, borders as minimal/maximal elements", "all pairs of small collections and settings, rational thresholds in exact arithmetic"),
 "P11": ("recursive Fayyad-Irani criterion with exact ties treated as either-or; transform by counting cut points", "all columns and labelings in bounds, all row orders"),
 "P12": ("set of (time, event): union of pattern occurrences and residuals equals the input, no overlap with residuals", "all subsets of a time grid; structured logs in all time units"),
 "P13": ("an independent decoder parses the displayed table and rebuilds the occurrences; metamorphic: shift, scale, reorder, duplicates", "the table is text for humans: only decoding it for every log shows that it is faithful"),
 "P14": ("`mc/perref.py`, a reference of the MDL code of pattern trees; gain of each selected pattern over listing its occurrences; optimal period by search", "heuristic recall of nested or three-event patterns is not claimed (a first version did: removed, the search is a heuristic)"),
 "P15": ("set algebra on occurrences for all selections of pattern ids; models compared query by query after export/import", "all selections, all export/import chains of length 2"),
 "P16": ("`mc/graphs.py` expands the rewritten graph along ports and compares with the data graph (labels, edges with multiplicity); a controlled clock enumerates stopping moments", "all small labelled graphs, all stopping moments, all histories"),
 "P17": ("reference code lengths (label codes, structures, ports, prequential codes) from the returned table; first-level merges tried exhaustively", "the miner keeps lengths incrementally"),
 "P18": ("expected content per file; after any fault: next fetch complete, third one identical without network", "kill at every byte (RLIMIT_FSIZE + SIGXFSZ), disk full, connection cut at every byte, process death and a second process before every file system operation (audit hooks), against a server on the loopback interface; all in scratch directories"),
 "P19": ("shape, range, distinctness, class sizes and alphabets by definition", "all outcomes of the random generator: a scripted RandomState answers every draw, explored depth first"),
 "P20": ("the expected log of calls", "all callback signatures x results, all histories of attachments and calls"),
 "P21": ("the definition of each utility, by brute force", "all families, graphs, arrays, windows in bounds"),
 "P22": ("a fresh estimator with the same parameters", "all parameter combinations, all histories of set_params, fit, clone, copy, pickle"),
}

OUTRO = """
## Limits

* Bounds are those of the table; nothing is claimed outside them. Time-limited searches are only explored where the clock can be controlled (GraphMDL) or the limit is immediate (SLIM).
* GraphMDL: self-loops, undirected graphs, labels shared by vertices and edges, and parallel edges with the same label are outside the domain (the code rejects or does not model them). Candidates "already tested" are keyed by row index, so local optimality is only claimed for the first merge.
  `utils.get_support` counts are pinned by the existing tests and not part of a property.
* SLIM: rows whose exact code length is 0 are outside P07 (the code turns 0 into infinity); sparse input and tuples as items are not covered.
* `fetch_ubiq` downloads an archive and calls shell tools; it is not covered.
* Recall of nested patterns in P14 is a matter of heuristics and not claimed.

## False alarms met while building, and what was done

* P09 fixed the order of equally used itemsets: the order is not documented; ties are now either-or.
* P11 generated labels which were not integers, and expected one of several equal-entropy cuts: cases and oracle corrected.
* P13 compared dates after a float conversion, and drew zero distances differently from the code: decoder corrected.
* P15 compared exports by a subset of keys that depended on the pattern type: now compares answers to queries and file contents.
* P14 claimed recall of nested and three-event patterns: removed, the search is a heuristic.
* P19 required that all items occur when density x n_items < 1, where transactions are legitimately empty: condition added.

"""


def main():
    out = [INTRO]
    for p in props:
        i = p["id"]
        f = glob.glob(os.path.join(HERE, "mc", i.lower() + "_*.py"))
        out.append(f"\n### {i} {p['title']}\n\n{p['statement']}\n")
        if i in TEXT:
            out.append(f"* Oracle: {TEXT[i][0]}.\n* What is enumerated, and why it reaches further than tests: {TEXT[i][1]}.\n")
        if f:
            m = importlib.import_module("mc." + os.path.basename(f[0])[:-3])
            for s in m.spaces("quick"):
                out.append(f"* Space `{s.name}`: {s.bound}.\n")
            for a in getattr(m, "ASSUMPTIONS", []):
                out.append(f"* Assumption: {a}.\n")
        try:
            e = json.load(open(os.path.join(HERE, "tools", "costs.json")))[i]
            out.append(f"* Quick run here: {e['histories']} histories, {e['transitions']} transitions, {e['states']} distinct states, {e['wall']} s on 8 cores" + (f"; thorough: {e['thorough']}" if "thorough" in e else "") + ".\n")
        except (KeyError, FileNotFoundError):
            pass
    out.append(OUTRO)
    kf = json.load(open(os.path.join(HERE, "known_findings.json")))
    out.append("## Defects found and repaired (\"fix:\" commits in /repo)\n\n")
    for l in kf["fixed"]:
        out.append("* " + l.replace("fixed: property=", "") + "\n")
    out.append("\n## Defects recorded and not repaired\n\n")
    for k in kf["findings"]:
        out.append(f"* {k['property']}: {k['what']}\n")
    if not kf["findings"]:
        out.append("None.\n")
    out.append("\n## Planted changes (seeded/) and the checks that catch them\n\n| change | property | what it breaks | needs | caught by |\n|---|---|---|---|---|\n")
    try:
        caught = json.load(open(os.path.join(HERE, "tools", "caught.json")))
    except FileNotFoundError:
        caught = {}
    for d in sorted(glob.glob(os.path.join(HERE, "seeded", "*"))):
        m = json.load(open(os.path.join(d, "meta.json")))
        n = os.path.basename(d)
        out.append(f"| {n} | {m['property']} | {m['what_it_breaks']} | {m['needs']} | {', '.join(caught.get(n, [])) or '?'} |\n")
    try:
        out.append("\n" + open(os.path.join(HERE, "tools", "mutation_notes.md")).read())
    except FileNotFoundError:
        pass
    open(os.path.join(HERE, "DESIGN.md"), "w").write("".join(out))


main()
