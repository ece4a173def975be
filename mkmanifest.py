#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl (run by hand after changing either)."""
import json, os
H = os.path.dirname(os.path.abspath(__file__))
T = {
 "C01": "online bit-codec oracle over executed macro calls, debug/release builds and Miri",
 "C02": "canary and neighbour-bit monitors around every executed field write",
 "C03": "bit-codec oracle on native runs and on Miri-interpreted big-endian and 32-bit runs",
 "C04": "independent wire-format encoder compared with stored bytes of random API histories",
 "C05": "model comparison of reopened archives after random API histories",
 "C06": "self-describing element streams checked online; flush boundaries and >4 GiB via a sparse-write shim",
 "C07": "self-describing item streams checked online; flush boundaries and >4 GiB via a sparse-write shim",
 "C08": "counting global allocator watched online during long appending runs",
 "C09": "lockstep list model over random operation histories",
 "C10": "lockstep slice model with must-panic oracle over random views and iterator histories",
 "C11": "lockstep slice model with must-panic oracle over multivector views and iterator histories",
 "C12": "fault-injected archives with an expected-verdict oracle",
 "C13": "crash injection at every intercepted file-system call, offline check of what is left",
 "C14": "error injection at every intercepted file-system call, offline check of every reported success",
 "C15": "storage snapshots around create/open/read histories",
 "C16": "life-cycle monitor over histories of several writers, also while unwinding",
 "C17": "lockstep map model over operation sequences on both storages",
 "C18": "AddressSanitizer, Miri and overflow-checked runs over malformed data and misuse",
 "C19": "checksums of every held slice re-checked after each step of ownership histories",
 "C20": "field-value model of equality, copying and printed forms over executed pairs",
 "C21": "ThreadSanitizer runs with content checksums under concurrent readers",
 "C23": "counting allocator, page-fault, processor-time and read counters around opening and accessing sparse archives of up to 40 GiB per resource",
 "C24": "heap, descriptor and mapping balance over repeated histories, with injected faults and abandoned writers",
 "C25": "snapshot comparison of everything uninvolved after each injected failure, panic or misuse, with AddressSanitizer",
 "C26": "operation, byte, allocation and processor-time meters compared with linear limits while writing",
 "C27": "model comparison of archives read through every path form and after every change of place",
 "C28": "readers called back at every intercepted file-system operation and polling a concurrent writer process, with an expected-content oracle",
 "C29": "every error compared with an independently computed set of reasons (damaged stores) or with the recorded failing system call (fault injection at the libc boundary): class, resource name, OS error, printed form",
 "C22": "diff reconstruction monitor over mismatching schema pairs",
}
LV = {
 "C13": "fault_enumeration", "C14": "fault_enumeration",
}
NOTE = {
 "C13": "Every mutating file-system call of the generated writer histories (up to a cap for large ones) is a crash point, with partial writes; histories are sampled. Process death only, not power loss. Trusts the interposed libc entry points to be all the crate uses.",
 "C14": "Every intercepted file-system call of the generated histories (up to a cap for large ones) fails in turn; histories and errors are sampled. Failures of stat are injected too.",
 "C18": "No sanitizer report, trap or invalid access on everything executed; ASan sees heap/stack, not file mappings (guarded by page ends only); Miri runs a small sample without the aliasing model. Two known findings are listed.",
 "C21": "No data race report on the schedules that occurred; views hold no synchronisation, so few schedules suffice to expose one.",
 "C08": "Bound of 256 MiB and no growth between thirds of the run, measured by a counting global allocator on the runs executed.",
}
D = "Held on all executions generated from the seed (sampled, boundary-biased; exhaustive only where the evidence says so). Trusts the oracles in harness/src and the instrumented builds to behave as the ordinary one."
m = {
 "version": 1,
 "setup_cmd": "python3 setup.py",
 "checks": [], "not_applicable": [],
 "notes": "No hooks in /repo: faults are injected by libc symbols the harness executable defines. Each check builds the harness against /repo's working tree into target/check (git-ignored).",
}
for l in open(os.path.join(H, "properties.jsonl")):
    p = json.loads(l)
    i = p["id"]
    if i not in T:
        continue
    m["checks"].append({
        "property": i, "quick_cmd": "python3 check.py %s --tier quick" % i, "thorough_cmd": "python3 check.py %s --tier thorough" % i,
        "evidence_file": "evidence/%s.json" % i, "technique": "runtime monitoring: " + T[i], "level": LV.get(i, "exploration"), "level_note": NOTE.get(i, D)})
json.dump(m, open(os.path.join(H, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(H, "MANIFEST.json"), "a").write("\n")
