#!/usr/bin/env python3
"""Writes MANIFEST.json from worlds.py and properties.jsonl."""
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(HERE, "tools"))
sys.dont_write_bytecode = True
import worlds
T = "deterministic simulation with fault injection: "
TECH = {
    "C01": "seeded search over histories of a simulated block store with lost, torn and short writes and crashes, against a model of the stored values",
    "C02": "seeded search over corruption sequences applied to stored records, decoded under a simulated heap with AddressSanitizer",
    "C03": "seeded search over exchanges between nodes running differently built copies of the library on a lossy simulated network",
    "C04": "seeded search over operation histories with allocation faults, refined against a reference integer set",
    "C05": "seeded search over positions of allocation failure in range-set histories, against a before/after reference",
    "C06": "seeded search over positions of allocation failure in region-operation histories, before/after comparison",
    "C07": "seeded search over positions of allocation failure in pixel and chunk queries, before/after comparison",
    "C08": "seeded scheduler over instrumented memory accesses of real threads, happens-before race detection, comparison with a lone execution",
    "C09": "seeded search over histories of copying, changing and releasing objects on a simulated heap that poisons released memory, with allocation faults, against a value model",
    "C10": "seeded search over write failures, short writes and throwing stream buffers under printing operations",
    "C11": "seeded search over histories and memory contents (heap fill, stack fill, rounding-neutral process state), comparison with the same call in a fresh process",
    "C12": "seeded search over storage faults on serialised Python objects, read back by simulated other interpreters",
    "C13": "seeded search over failure points of Python iterables, sequences and numbers passed to the library, against a model of what must be unchanged",
    "C14": "seeded search over histories of creating, changing and dropping Python references with garbage collection at chosen points, against a value model",
    "C15": "seeded search over histories of big-integer operations with digit storage and memory running out, against reference integers",
}
NOTE = {
    "C01": "Sampled store histories and regions; every read-back is compared in type, bytes, equality and about 200 query answers with a region built directly from the same arguments.",
    "C02": "Sampled corruptions of generated encodings through all seven entry points; memory errors are seen by AddressSanitizer, leaks and allocation size by the simulated heap, hangs by a step budget.",
    "C03": "Six real builds in one process (clang, gcc, -O0 to -O3, portable codec, no SIMD); all on one little-endian machine. An independent reader of the format and records of the pinned commit fix its meaning.",
    "C04": "Sampled histories against a reference set written independently of the library.",
    "C05": "Failure positions are sampled (and enumerated for short operations); memory is assumed to run out only in operator new.",
    "C06": "Failure positions are sampled; memory is assumed to run out only in operator new.",
    "C07": "Failure positions are sampled; memory is assumed to run out only in operator new.",
    "C08": "Preemption at instrumented memory accesses and synchronisation calls of the library under a seeded scheduler; sequentially consistent interleavings only, with vector clocks for data races.",
    "C09": "Sampled histories; use-after-release by AddressSanitizer, leaks by heap accounting, independence by re-observing every live object against its model value after every step.",
    "C10": "Sampled objects, stream states and failure positions.",
    "C11": "Sampled calls and histories; results are compared bit for bit with those of a freshly started process and under different fills of heap and stack.",
    "C12": "Sampled objects, protocols, containers and faults, each run in its own interpreter process.",
    "C13": "Sampled calls and failure positions, each run in its own interpreter process.",
    "C14": "Sampled histories, each run in its own interpreter process, with the extension compiled with AddressSanitizer.",
    "C15": "Sampled histories against reference integers written independently of the library (another base); all integers are compared after every primitive.",
}
WHY = "a pure, sequential function of its input: no schedule, clock, message, I/O, crash or fault can change the answer, so a simulator would only be an input generator with a numerical oracle, which is another technique"
NA = {"G13": "the mapping is computed by the external hpgeom package from its arguments alone; there is no schedule, I/O or fault to simulate (object transport of this class is covered by C12)",
      "G14": "string parsing and formatting is a sequential function of the string; there is no schedule, I/O or fault to simulate"}
props = [json.loads(l) for l in open(HERE + "/properties.jsonl")]
LEG = {
    "C01": "histories of files written and read by Python interpreters",
    "C02": "damaged bytes and states given to the Python classes",
    "C04": "histories of range sets made through the Python bindings, with failing iterables",
    "C05": "allocations of the extension module failing inside Python calls on range sets",
    "C06": "allocations and calls of the package's Python modules failing inside region calls",
    "C07": "allocations and calls of numpy, hpgeom and the library failing inside pixel and chunk queries, HEALPix included",
    "C08": "Python threads switched at any bytecode of the package",
    "C09": "histories of Python references to regions",
    "C11": "histories of Python questions against a pristine interpreter",
}
checks, na = [], []
for p in props:
    i = p["id"]
    if i in worlds.WORLDS:
        checks.append({"property": i, "quick_cmd": "./check " + i, "thorough_cmd": "./check %s --tier thorough" % i,
                       "evidence_file": "evidence/%s.json" % i, "technique": T + TECH[i], "level": "exploration", "level_note": NOTE[i] + (" A second batch, through the Python package: %s." % LEG[i] if i in LEG else "")})
    elif i[0] == "C":
        na.append({"property": i, "reason": "its simulator is not built yet"})
    else:
        na.append({"property": i, "reason": NA.get(i, WHY)})
m = {"version": 1, "setup_cmd": "python3 tools/build.py all", "checks": checks, "not_applicable": na,
     "notes": "No hooks in /repo were needed: memory, streams, threads and Python objects are reached through operator new, std::streambuf, compiler instrumentation and the Python object protocols. Commits in /repo are fixes only; see known-findings.txt."}
with open(HERE + "/MANIFEST.json", "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
