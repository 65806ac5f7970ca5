#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from this table (one check per property of properties.jsonl)."""
import json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TOOL = "Search over generated inputs, not proof. The real tools, built from the working tree, run on generated files; trusts the harness's own PBF writer and reader, index readers and model. "
API = "Search over generated calls, not proof. A small driver compiled into the module by overlay performs the calls; the oracle is in the harness. "
T = {
 "C01": ("property-based testing of the nodeindex tool against a reference model (rapid)", TOOL + "Ids 1..2^45, all layouts of blocks, groups and gaps; lookups through the library in the index driver."),
 "C02": ("stateful property-based testing of lookups and pass splitting against a map model (rapid)", API + "Synthetic indexes of any element shape, plus the dump tool's sub-index options."),
 "C03": ("property-based testing: independent strict decoder of the documented formats accounts for every byte", TOOL + "Where ENCODING.md and the code differ (see DESIGN.md) the decoder follows the code."),
 "C04": ("property-based differential testing of rewritenodes against a reference rewriter (rapid)", TOOL + "Documented loss: Info of ways is not asserted."),
 "C05": ("metamorphic property-based testing: many passes against one pass, byte for byte", TOOL + "Pass counts up to about 20 by index size; larger only through hidden -m of 1 MB steps."),
 "C06": ("property-based testing of wayindex and its lookup API against a map model (rapid)", TOOL),
 "C07": ("property-based testing of relindex against a reference model (rapid)", TOOL),
 "C08": ("metamorphic property-based testing: any pass count against one pass, byte for byte", TOOL),
 "C09": ("property-based differential testing of tagfilter against a reference filter (rapid)", TOOL),
 "C10": ("property-based testing of decompress: payload-level comparison and commutation with every other tool", TOOL),
 "C11": ("property-based testing of blockcount, entitycount and entityfind against a reference model", TOOL),
 "C12": ("metamorphic property-based testing over worker counts, GOMAXPROCS, skewed block sizes, woven delays between all statements, and the race detector", TOOL + "Schedules are sampled by repetition, skew, generated delays and the race detector, not enumerated."),
 "C13": ("round-trip and differential property-based testing of the wire codec against an independent codec", API),
 "C14": ("structure-aware mutation fuzzing of PBF files; oracle: failure status and termination", TOOL + "Which tool must reject which damage follows a conservative map of what each tool reads."),
 "C15": ("fault-injection property-based testing: generated write faults (errno, limits, full device, kill) at any write; oracle: success implies the fault-free output", TOOL + "Faults are injected with seccomp notification, RLIMIT_FSIZE and /dev/full; positions sampled, not enumerated."),
 "C16": ("property-based testing of packing: round-trip or refusal over boundary-biased values", API),
 "C17": ("stateful property-based testing of the block pipeline under generated delays, orders and cancellation", API + "Completion orders of workers are driven by the harness; a run that makes no progress for 60 s counts as stuck."),
 "C18": ("property-based testing of the location encoding against a bit-by-bit reference", API),
 "C19": ("end-to-end property-based testing of the tool chain against a reference model", TOOL),
 "C20": ("property-based testing of the dump tools' output against an independent index reader", TOOL),
 "C21": ("property-based testing of progress text, fraction and display widgets against a reference renderer, with the real pipeline stopped at chosen blocks", API),
 "C22": ("stateful property-based testing of the buffer pools: ownership model and content stamps, one and many threads; the tools with many workers against one", API + TOOL),
 "C23": ("round-trip property-based testing of block building with an independent decoder", API),
 "C24": ("property-based testing with directory snapshots before and after each run", TOOL),
 "C25": ("stateful property-based testing of the worker tracker against a set model", API),
 "C26": ("differential property-based testing on a pseudo terminal, key presses injected at chosen writing operations, screen read by a terminal model", TOOL),
 "C28": ("property-based testing of pass splitting against the even-share bound, on lookups and on the pass files of the real tool", API + "In the tool arm hard links made before the run keep the pass files' content; if the tool named them otherwise only the number of passes is judged."),
 "C29": ("stateful property-based testing of status lines (workers fed block by block) and of printed statistics against counting models", API + TOOL),
 "C30": ("fault-injection property-based testing: indexes cut at generated lengths; oracle: failure or the result with the whole index", TOOL + "Cut positions are sampled, biased to boundaries of the index's parts."),
 "C31": ("metamorphic property-based testing: peak private memory on few and on many blocks of a kind", TOOL + "Memory is sampled from /proc during the run; growth has to exceed half as much again plus 40 MiB, three times over, to count."),
 "C32": ("property-based testing: disk space, open files and mappings observed at every writing operation, many passes against one and many blocks against few", TOOL + "Observed at the writing calls (seccomp notification), not in between; limits leave a factor of two to four."),
 "C33": ("metamorphic property-based testing: CPU time of a run against that of a run with 16 times as much of one dimension of the input", TOOL + "Only growth beyond 3.5 times the proportional one, three times over, counts; constants are not judged."),
 "C27": ("property-based testing of generated command lines: refusal without effects, and metamorphic spelling/order/default relations", TOOL),
}
props = [json.loads(l) for l in open(os.path.join(here, "properties.jsonl"))]
assert [p["id"] for p in props] == sorted(T), set(p["id"] for p in props) ^ set(T)
checks = []
for p in props:
    i = p["id"]
    t, n = T[i]
    checks.append({"property": i, "quick_cmd": f"./check {i}", "thorough_cmd": f"VERIF_TIER=thorough ./check {i}",
                   "evidence_file": f"evidence/{i}.json", "technique": t, "level": "exploration", "level_note": n.strip()})
m = {"version": 1, "setup_cmd": "./check build", "checks": checks, "not_applicable": [],
     "notes": "No hooks in /repo: API drivers enter through go build -overlay. See DESIGN.md and known-findings.txt."}
open(os.path.join(here, "MANIFEST.json"), "w").write(json.dumps(m, indent=1) + "\n")
