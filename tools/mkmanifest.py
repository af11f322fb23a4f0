#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = {
 "hist": "stateful model-based property testing of generated operation histories (recorded choices, shrinking, ASan/UBSan variant; libFuzzer leg in the thorough tier)",
 "cost": "property testing of generated histories with a comparison-counting oracle",
 "fd": "stateful property testing against real descriptors with a byte-stream model",
 "fun": "property testing against a reference implementation and algebraic laws",
 "sim": "property testing of generated schedules in a deterministic thread and clock simulator",
 "steps": "property testing of generated histories with a step-counting oracle (every basic block, load and store of the library counted)",
 "threads": "property testing of generated histories in simulated threads under generated schedules, with model oracles and a happens-before race detector",
 "stack": "property testing of generated histories on threads with small stacks",
 "fault": "fault enumeration over generated histories: every allocation of a history refused in turn",
}
N = {
 "hist": "Random search: no claim beyond the histories generated. Trusts the sequence/map/string models, the link-level stand-ins for malloc/free/abort and, for the second variant, the sanitizers.",
 "cost": "Random search over histories and sizes up to some thousands of entries; the bound is checked per operation (or on averages for the hash table). Trusts that all comparisons go through the supplied functions.",
 "fd": "Random search; real pipes, files and sockets of this kernel, contained in anonymous or unlinked files. Trusts the kernel's accounting of consumed bytes.",
 "fun": "Random search over strings and pointers, biased to boundaries; trusts a byte-wise reference.",
 "sim": "Random and priority-based schedules, preempting at every lock operation and memory access of the library's object code, with virtual time; sequentially consistent memory. Trusts the simulator's model of pthread mutexes and condition variables (including spurious wakeups).",
 "steps": "Random search over histories and sizes up to 25000 (thorough: 100000) elements; bounds are 3 to 5 times the measured cost of the current code, so constant-factor changes below that pass. Trusts that the compiler's instrumentation covers all of the library's code.",
 "threads": "Random and priority-based schedules of 2-4 threads, preempting at every memory access of the library's object code; sequentially consistent memory. Races are judged by happens-before, so they are found without a wrong result.",
 "stack": "Random search over sizes up to 150000 elements or 2 MB strings; stack use below 160 KiB in total passes.",
 "fault": "For each generated history all (or, for long ones, sampled) single refusals of a memory request are tried; abort() is intercepted. No claim about histories not generated.",
}
K = {**{f"C{i:02}": "hist" for i in range(1, 43)}, "C14": "cost", "C15": "cost", "C16": "cost", "C21": "fd", "C23": "fun", "C24": "fun",
     "C25": "sim", "C26": "sim", "C27": "sim", "C28": "sim", "C29": "fault",
     "C33": "steps", "C34": "steps", "C36": "threads", "C37": "stack", "C38": "threads"}
ids = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
done = sys.argv[1].split(",") if len(sys.argv) > 1 else ids
checks = [{"property": i, "quick_cmd": f"bin/check {i}", "thorough_cmd": f"bin/check {i}", "technique": T[K[i]],
           "level": "fault_enumeration" if i == "C29" else "exploration", "level_note": N[K[i]]} for i in ids if i in done]
m = {"version": 1, "setup_cmd": "python3 -c \"import json; json.load(open('MANIFEST.json'))\" && mkdir -p evidence replays build", "checks": checks,
     "not_applicable": [{"property": i, "reason": "check under construction"} for i in ids if i not in done],
     "notes": "Every check rebuilds the library from /repo's working tree in a scratch folder under build/ and removes it. bin/replay FILE runs a replay file again. Known and fixed findings: known-findings.txt."}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
