#!/usr/bin/env python3
"""Write MANIFEST.json: the properties with a check, the others with a reason."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = "deterministic simulation with fault injection: seeded search over schedules, timing and faults"
COMMON = (" Found by seeded search, so absence of a violation is evidence, not proof. Trusted: the simulated kernel"
          " (threads, futexes, clocks, processes, pipes, files, /proc, terminal), the oracle, and sequential consistency"
          " (weak memory orderings are not simulated).")
NOTE = {
 "C01": "Real cmakeperf code on simulated threads, clock, processes and disk; every run judged against the recorded process and file history.",
 "C02": "Job failures, spawn failures, disk errors, output of any size and encoding are injected; outcome compared with the injected history.",
 "C03": "Every simulated process start is compared with the compilation database and the concurrency limit.",
 "C04": "The handle is dropped at arbitrary points; the simulated process table is checked when drop returns.",
 "C05": "Available memory is simulated; preemptions are compared with a reference model of the documented safety margin.",
 "C06": "Recorded peak memory and wall time are compared with the simulated truth.",
 "C07": "Bounded-progress liveness under stalls, interruptions, delayed signals and any amount of job output.",
 "C08": "Real freshness code on simulated clocks and file system with stat faults and clock jumps, against a reference verdict.",
 "C09": "Real loaders on simulated files with short reads, interruptions, errors and truncations, against a reference parser.",
 "C10": "The whole crofiler program on a simulated terminal, file system and job processes; profile bytes compared before and after.",
 "C11": "As C10 for trace measurements with a simulated compiler.",
 "C12": "As C10; screens compared with those of a fresh load of the same trace.",
 "C13": "As C10, with random keys, faults and crashes of everything underneath; liveness bounds on every key and on quitting.",
 "C14": "As C10, with the program killed at an arbitrary system call, restarted on the surviving files.",
 "C16": "As C10; every screen compared with an executable model of the navigation that replays the keys, also while answers of the processing threads are late.",
 "C17": "As C10; database, profile, trace and compiler probe are made to fail or answer in every way, the message is compared with what was injected.",
 "C15": "Real crofiler and simpp on simulated standard streams; output compared byte for byte with an undisturbed run.",
}
CLAIMED = open(os.path.join(V, "tools/claimed.txt")).read().split()
NA = {
 "C20": "pure function of its input with no concurrency, time, I/O or fault behaviour for a simulator to control (its observable effect is covered by C09 and C12)",
 "C21": "pure function of its input with no concurrency, time, I/O or fault behaviour for a simulator to control",
 "C22": "sequential pure data structure with no concurrency, time, I/O or fault behaviour for a simulator to control",
 "C23": "pure function of its input with no concurrency, time, I/O or fault behaviour for a simulator to control",
 "C24": "pure function of its input with no concurrency, time, I/O or fault behaviour for a simulator to control",
}
ids = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
m = {"version": 1, "setup_cmd": "bash tools/build.sh drv drvtrace bins",
     "checks": [], "not_applicable": []}
for i in ids:
    if i in CLAIMED:
        m["checks"].append({"property": i, "quick_cmd": f"bash tools/check.sh {i}", "thorough_cmd": f"bash tools/check.sh {i} --tier thorough",
                            "evidence_file": f"evidence/{i}.json", "technique": TECH, "level": "exploration",
                            "level_note": NOTE[i] + COMMON})
    else:
        m["not_applicable"].append({"property": i, "reason": NA.get(i, "check not built yet")})
m["notes"] = ("No hooks in /repo: the programs are built unchanged, with coverage instrumentation added by a compiler wrapper,"
              " and every libc call they make is served by the simulated kernel in target/harness/release/libsimrt.so.")
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(V, "MANIFEST.json"), "a").write("\n")
