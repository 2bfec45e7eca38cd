#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl."""
import json, os
V = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
T = {
 "C01": "runtime monitor: reference result for every construction",
 "C02": "runtime monitor: reference result for every construction, with debug-assertion precondition checks on the unchecked unwrap",
 "C03": "runtime monitor: permutation and softmax oracle (f64 with error band)",
 "C04": "runtime monitor: flag invariant recomputed after every step of random pipelines",
 "C05": "runtime monitor: conservation invariant after every step of random pipelines",
 "C06": "runtime monitor: reference result (ties free)",
 "C07": "runtime monitor: f64 reference with error band, exact-arithmetic boundary inputs",
 "C08": "runtime monitor: f64 reference with error band, exact-arithmetic boundary inputs",
 "C09": "runtime monitor: f64 reference with error band, exact-arithmetic boundary inputs",
 "C10": "runtime monitor: f64 reference with error band, exact-arithmetic boundary inputs",
 "C11": "runtime monitor: per-token reference; banned tokens followed through whole chains under hostile random streams",
 "C12": "runtime monitor: per-token reference over generated histories",
 "C13": "runtime monitor: per-token reference over generated histories",
 "C14": "runtime monitor: lower and upper reference matchers over planted repetitions",
 "C15": "runtime monitor: per-token reference",
 "C16": "runtime monitor: reference selection",
 "C17": "runtime monitor: offline frequency checker over recorded draws (chi-square, exact tails, independence), hostile random streams",
 "C18": "runtime monitor: reference step in f64 over sequences of calls, frequency checker over recorded draws",
 "C19": "runtime monitor: reference step in f64 over sequences of calls, frequency checker over recorded draws",
 "C20": "runtime monitor: event logs of probe samplers, paired executions compared bitwise",
 "C21": "runtime monitor under concurrency stress: order log inside the lock replayed one at a time, unique values per thread; Miri with many schedules, ThreadSanitizer (thorough)",
 "C22": "runtime monitor: reference interpreter of option strings beside the real parser",
 "C23": "runtime monitor: reference slot machine beside the real chain builder",
 "C24": "hostile fuzzing with panic, overflow, abort and CPU-time monitors; Miri; AddressSanitizer (thorough)",
 "C25": "runtime monitor: counting and withholding resources",
 "C26": "runtime monitor: paired executions compared bitwise",
 "C27": "runtime monitor: paired executions of differently configured samplers compared bitwise",
 "C28": "runtime monitor: closed-loop runs, bounded-progress restatement of convergence",
 "C29": "runtime monitor: paired executions through the wrappers, event logs of probe samplers",
 "C30": "runtime monitor: result and state of every call on values without an order or a softmax",
 "C31": "runtime monitor: paired executions on differently presented candidates compared bitwise",
 "C32": "runtime monitor: frame condition on entries, settings, history and draws around every call",
 "C33": "runtime monitor: counting allocator (live and peak bytes per thread) around repeated scenarios and single calls",
 "C34": "runtime monitor: reference interpreter in f64 beside every step of generation loops, ranks of the selections tested for uniformity and independence",
 "C35": "runtime monitor: paired executions of partly and fully configured samplers compared bitwise",
 "C36": "runtime monitor: reference interpreter telling the cause of every failure, beside the error values returned",
}
checks = []
for l in open(os.path.join(V, "properties.jsonl")):
    i = json.loads(l)["id"]
    checks.append({
        "property": i,
        "quick_cmd": f"./check.sh {i} quick",
        "thorough_cmd": f"./check.sh {i} thorough",
        "technique": T[i],
        "level": "exploration",
        "level_note": "Held on the executions observed (counts and kinds in the evidence file), nothing more. Trusts the oracle in harness/src/props, the compiler and rand 0.8's WeightedIndex."
    })
json.dump({
    "version": 1,
    "setup_cmd": "./setup.sh",
    "checks": checks,
    "not_applicable": [],
    "notes": "No hooks in /repo: everything observed is public API. Repairs are listed in known_findings.txt; there are no open findings."
}, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
