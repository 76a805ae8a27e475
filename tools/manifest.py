#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from properties.jsonl (run after changing the property list)."""
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NA = {
    "C35": "Encoding and decoding are pure functions of one value: no schedule, time, I/O, fault or other party can affect the outcome, so simulating executions adds nothing over calling the function. (Their observable consequences - blocks reading back as requested, hashes chaining, state surviving upgrades - are decided under C22, C24, C25, C27 and C28.)",
}
NOTE = ("Seeded search over simulated executions of the real canister WebAssembly; a violation is a concrete replayable execution. "
        "Silence means no violation in the explored runs (counts in the evidence file), not a proof. "
        "Trusted: the simulated IC system API, the reference model in sim/world.mjs, the Candid/CBOR/hash code in sim/candid.mjs, rustc.")
EXTRA = {
    "C02": " Assumes the installer funds initial balances and the CMC reports its refunds honestly.",
    "C05": " Traps are injected at every kind of system call; traps between two system calls are equivalent to one at the next call because nothing observable happens in between.",
    "C12": " Interleavings are those of message delivery; the IC executes one message at a time.",
    "C13": " A repeat after the window must be refused as TooOld or Duplicate.",
    "C27": " Upgrades are explored only with no open call context (the canister is stopped first, as the platform's safe procedure demands).",
    "C28": " The released build is the pinned commit, kept as baseline/cycles-ledger-47d8590.wasm.gz.",
    "C34": " The fake CMC is driven both by the ledger and directly.",
}
checks, na = [], []
for line in open(os.path.join(ROOT, "properties.jsonl")):
    pid = json.loads(line)["id"]
    if pid in NA:
        na.append({"property": pid, "reason": NA[pid]})
        continue
    checks.append({
        "property": pid,
        "quick_cmd": f"node sim/run.mjs check {pid}",
        "thorough_cmd": f"VERIF_TIER=thorough node sim/run.mjs check {pid}",
        "evidence_file": f"evidence/{pid}.json",
        "technique": "deterministic simulation with fault injection: seeded random schedules, faults and clocks over the real canister wasm, judged by two reference models",
        "level": "exploration",
        "level_note": NOTE + EXTRA.get(pid, ""),
    })
m = {"version": 1, "setup_cmd": "python3 sim/build.py", "checks": checks, "not_applicable": na,
     "notes": "No hooks in /repo are needed: the seam is the IC system API (ic0) that the canisters import. Replay a violation with: node sim/run.mjs replay <file>. Known findings and repairs: known-findings.txt."}
json.dump(m, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(ROOT, "MANIFEST.json"), "a").write("\n")
print(len(checks), "checks,", len(na), "not applicable")
