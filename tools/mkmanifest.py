#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the table below."""
import json, os, glob, re
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = {
 "C01": "process-level crash monitor (worker death, panic, stack overflow) over hostile and mutated inputs, library and command line",
 "C02": "CPU-time, allocation and read-volume monitor per input over claim-amplifying hostile inputs, and comparison of the work for n and 4n parts",
 "C03": "reference-model monitor: random values in random legal spellings, read back and compared",
 "C04": "monitor of errors.txt and neighbouring values over generated abnormal and clean objects",
 "C05": "metamorphic monitor: same content at shifted positions and through chunking readers",
 "C06": "round-trip monitor with independent encoders",
 "C07": "round-trip monitor with independent predictor encoders",
 "C08": "monitor with independent prefix decoders over cut and corrupted streams",
 "C09": "reference-model monitor over generated update histories",
 "C10": "reference-model monitor over files with damaged cross-reference data",
 "C11": "monitor with independent encryption of generated documents",
 "C12": "error-oracle monitor over wrong passwords and damaged encryption data",
 "C13": "reference-model monitor of accessors, interleaved with sequential reading",
 "C14": "exactly-once monitor of report lines against planted items",
 "C15": "conservation monitor between planted files, files.txt and dumped files",
 "C16": "trace monitor of extracted text against generated content programs",
 "C17": "reference-model monitor of generated ToUnicode maps",
 "C18": "exactly-once monitor of raw.pdf entries against the document model",
 "C19": "file-system snapshot and system-call trace monitor around every parse",
 "C20": "command line monitor over flag, path and failure states against the library",
 "C21": "Go race detector plus result comparison under concurrent stress",
 "C22": "history monitor: random call sequences against fresh parsers",
 "C23": "resource monitor (descriptors, goroutines, temporary files, heap) around parses",
 "C24": "fault-injecting reader monitor: windows of failing calls, then recovery checked",
 "C26": "conservation monitor: what sound objects hold is looked for after damaged objects were mixed in",
 "C25": "reference-model monitor of tree walks",
}
NOTE = "Decided for the executions of the run only (counts in the evidence file): inputs are generated from the seed, the oracle is the harness's own model of the input, independent of the code under test. Trusts the Go toolchain, its standard library and the harness."
have = set()
for f in glob.glob(os.path.join(root, "harness", "*.go")):
    have |= set(re.findall(r'ID:\s*"(C\d\d)"', open(f).read()))
checks, na = [], []
for l in open(os.path.join(root, "properties.jsonl")):
    p = json.loads(l)["id"]
    if p in have:
        checks.append({"property": p, "quick_cmd": f"./run.sh {p}", "thorough_cmd": f"TIER=thorough ./run.sh {p}",
                       "evidence_file": f"evidence/{p}.json", "technique": TECH[p], "level": "exploration", "level_note": NOTE})
    else:
        na.append({"property": p, "reason": "no check yet: its monitor is still being written"})
m = {"version": 1, "setup_cmd": "./setup.sh", "checks": checks, "not_applicable": na,
     "notes": "All monitors are black box (no hooks in /repo). ./run.sh ID builds the harness against /repo's working tree in a scratch directory under /tmp that it removes, and runs the workload as an unprivileged user inside it."}
json.dump(m, open(os.path.join(root, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(root, "MANIFEST.json"), "a").write("\n")
