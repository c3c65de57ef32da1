#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from the list of properties and of implemented checks."""
import json, os, re
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(here, "properties.jsonl"))]
HISTS = "bounded exhaustive enumeration of candle histories x parameters driven through the real code, every state compared with an explicit reference model"
OPS = "explicit-state exploration: every operation sequence up to a depth on the real code against a reference model"
SCHED = "model checking of the real goroutine code under a controlled scheduler: every interleaving of channel operations (dynamic partial-order reduction, and without reduction with stored states), plus preemption-bounded exploration between statements"
T = {
 "C01": ("explicit-state exploration of every insert/remove sequence over every order of keys, real code against a multiset model", "all operation sequences within the bounds were executed on the real tree; trusts the multiset model and that Compare outcomes, not values, matter (three key domains tried)"),
 "C02": ("explicit-state exploration of every enqueue/dequeue/empty sequence, real code against a list model", "all operation sequences within the bounds were executed on the real queue"),
 "C03": (SCHED, "every interleaving of channel operations of the pipelines within the bounds; channel operations are rewritten to scheduler calls; the same programs also run with the library not rewritten"),
 "C04": (SCHED, "every interleaving of channel operations within the bounds: deadlock, leaked goroutine, send on or close of a closed channel"),
 "C05": (SCHED, "every pair of streams over small alphabets and lengths, every interleaving within the bounds"),
 "C35": ("preemption-bounded systematic exploration of the real code of every pair of indicators at statement granularity", "every schedule with a bounded number of preemptions at the statements of the library; data races below statement level are looked for by a free-running pass under the race detector"),
}
for i in range(6, 10): T[f"C{i:02d}"] = (OPS if i == 8 else "bounded exhaustive enumeration of histories, intervals and ranges through the real code against a reference model", "all inputs within the bounds were executed on the real code and compared completely")
for i in range(10, 18): T[f"C{i}"] = ("bounded exhaustive enumeration of number sequences x periods through the real functions against definitions evaluated directly", "all sequences within the bounds; tolerance 1e-9 of the magnitude where the definition is not exact in binary")
for i in range(18, 26): T[f"C{i}"] = (HISTS, "all histories within the bounds; the reference model is an independent statement of the documented formula, tolerance 1e-9 of the magnitude")
for i in (26, 27): T[f"C{i}"] = (HISTS, "all histories within the bounds; the condition is evaluated on the values the indicator reports, exactly")
T["C28"] = T["C29"] = (HISTS.replace("every state compared with an explicit reference model", "every record and signal list checked"), "all histories within the bounds")
T["C30"] = ("explicit-state exploration: every sequence of accessor calls up to a depth on fresh objects", "all sequences within the bounds, compared exactly")
T["C31"] = ("explicit-state exploration of the tree of histories: each edge adds one candle, and the reports of both ends are compared", "all edges of the bounded tree and every prefix of the longer histories, compared exactly")
T["C32"] = ("explicit-state exploration: every sequence of calculation and reading up to a depth, on one and on two objects", "all sequences within the bounds, compared exactly")
T["C33"] = ("bounded exhaustive enumeration of histories and call sequences with every reachable word of the history guarded", "all sequences within the bounds; changes and shared memory are detected by content, with marker values before and after")
T["C34"] = ("exhaustive enumeration of the interleavings of the calls on two indicators, every ordered pair of indicators", "all pairs and all interleavings of four calls each, compared exactly")
T["C36"] = (HISTS.replace("compared with an explicit reference model", "of both constructors compared"), "all histories within the bounds, compared exactly")
T["C37"] = ("explicit-state exploration of every list of strategies up to a length against a list model", "all lists within the bounds")
T["C38"] = ("bounded exhaustive enumeration of histories x full cartesian parameter grids through every operation of the real code", "all combinations within the bounds return normally")
T["C39"] = (HISTS.replace("compared with an explicit reference model", "checked for finiteness"), "all histories within the bounds, including extreme price scales")
T["C40"] = (HISTS.replace("compared with an explicit reference model", "checked against the bounds"), "all histories within the bounds; 1e-9 relative slack for rounding")
T["C41"] = (HISTS.replace("compared with an explicit reference model", "compared with the rescaled history's"), "all histories within the bounds; powers of two only, so the comparison is exact")
T["C42"] = ("exhaustive enumeration of all texts over a small alphabet up to a length against a grammar, and of histories through the JSON round trip", "all texts and histories within the bounds")
T["C43"] = ("exhaustive enumeration of sides, lists of sides, candles and histories, printed by the real code (the report program is built and run) and read back", "all values, lists and histories within the bounds; the report is compared with the signals each strategy gives in the checker's own process")
src = "".join(open(os.path.join(here, "mc", f)).read() for f in os.listdir(os.path.join(here, "mc")) if f.endswith(".go"))
have = set(re.findall(r'(?:register|valueCheck|signalCheck)\("(C\d\d)"', src))
checks, na = [], []
for p in props:
    i = p["id"]
    if i in have:
        t, n = T[i]
        checks.append({"property": i, "quick_cmd": f"./run.sh {i} quick", "thorough_cmd": f"./run.sh {i} thorough",
                       "evidence_file": f"evidence/{i}.json", "technique": t, "level": "model_checking", "level_note": n})
    else:
        na.append({"property": i, "reason": "not built yet"})
m = {"version": 1, "setup_cmd": "./run.sh setup",
     "hooks": {"guard": "none", "enable": "no hooks in /repo: scheduling hooks are put in by a build overlay generated from the current tree", "source_commits": []},
     "checks": checks, "not_applicable": na,
     "notes": "One Go program (/verif/mc), rebuilt from /repo's working tree by run.sh for every check. DESIGN.md describes each check."}
open(os.path.join(here, "MANIFEST.json"), "w").write(json.dumps(m, indent=1) + "\n")
print(len(checks), "checks", [x["property"] for x in na])
