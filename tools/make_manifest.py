"""Write /verif/MANIFEST.json from the list of claimed checks."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(HERE, "properties.jsonl"))]
BUILT = json.load(open(os.path.join(HERE, "tools", "built.json")))
DISK = ("deterministic simulation: the real code runs as scheduled actors on a simulated disk; a seeded search "
        "picks schedules, prior states, edits and faults (error returns, short/torn transfers, full or read-only disk, "
        "interrupts, kills)")
SESSION = ("deterministic simulation: the real library runs in one process under a seeded scheduler that chooses call "
           "histories, thread interleavings at line granularity, injected allocation/numerical/interrupt failures and "
           "the state of random sources, figures and settings; answers are compared with isolated runs of the same calls")
NOTE = {
 "S": "Seeded search over plans, not exhaustive; bounds: at most 4 concurrent commands, 6 phases, 1 disk; kills lose the "
      "process, not data already given to the operating system.",
 "E": "Seeded search, not exhaustive; at most 3 concurrent commands; kills lose the process, not written data.",
 "M": "Seeded search over environments and outcomes of a simulated external program.",
 "C": "Seeded search, not exhaustive; at most 4 threads, about 12 calls per history, records of at most 4096 samples; "
      "thread switches at source lines of the library (code inside numpy/scipy is atomic).",
 "R": "Seeded search, not exhaustive; at most 4 threads, about 15 calls per history.",
 "I": "Seeded search over import histories, not exhaustive; at most 3 threads and 4 interrupted steps; third-party "
      "modules do not fail.",
 "F": "Seeded search over figure sessions, not exhaustive; Agg backend only.",
 "D": "Seeded search over sessions and file faults, not exhaustive; Agg backend only.",
}
checks = []
for p in props:
    i = p["id"]
    if i in BUILT:
        checks.append({"property": i, "quick_cmd": "./check " + i, "thorough_cmd": "./check " + i + " thorough",
                       "evidence_file": "/verif/evidence/%s.json" % i,
                       "technique": "seeded deterministic simulation with fault injection (" +
                       (DISK if i[0] in "SE" or i == "D01" else SESSION if i[0] in "CRFDI" else
                        "the real runner with a simulated external program and environment") + ")",
                       "level": "exploration", "level_note": NOTE[i[0]]})
na = []
for p in props:
    i = p["id"]
    if i[0] == "N":
        na.append({"property": i, "reason": "a pure function of its arguments: no schedule, clock, I/O, randomness or "
                   "multi-party behaviour for a simulator to vary; needs an input-space technique (property-based "
                   "testing, numeric proof), which is outside the studied family"})
    elif i not in BUILT:
        na.append({"property": i, "reason": "check not built yet"})
m = {"version": 1, "setup_cmd": "./setup.sh",
     "hooks": {"guard": "none", "enable": "no hook was needed in /repo: every seam is installed from outside before import",
               "source_commits": []},
     "checks": checks, "not_applicable": na,
     "notes": "All checks import /repo/python/src directly. ./replay FILE re-executes a replay file. See DESIGN.md."}
json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(HERE, "MANIFEST.json"), "a").write("\n")
print(len(checks), "checks", len(na), "not applicable")
