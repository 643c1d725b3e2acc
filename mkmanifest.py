#!/usr/bin/env python3
"""Writes MANIFEST.json: one entry for every property the explorer knows (argument: list of ids)."""
import json, subprocess, sys
T = {
 "hist": "stateless and explicit-state model checking of the real code against reference models",
 "enum": "exhaustive enumeration of bounded input structures on the real code against an independent oracle",
 "fault": "exhaustive fault enumeration: every failure point of every operation of bounded histories",
}
K = {"C13": "enum", "C14": "enum", "C15": "enum", "C19": "fault"}
LEVEL = {"hist": "model_checking", "enum": "exploration", "fault": "fault_enumeration"}
NOTE = {
 "hist": "Every execution within the bounds listed in the evidence was run on the real code (release build with debug assertions) and compared with an independent model; nothing is sampled. Trusted: the reference models and specification client in mc/src, SHA-256 (sha2 crate), rustc. Not covered: longer histories, more keys, other value alphabets.",
 "enum": "Every structure and value within the bounds listed in the evidence was tried on the real code and compared with an independent encoder, decoder and digest written from the IC interface specification; nothing is sampled. Trusted: that client, SHA-256 (sha2 crate), rustc. Not covered: values outside the alphabets.",
 "fault": "Every failure point (each call of caller-supplied code, each byte of an encoding) of every bounded case was exercised on the real code; nothing is sampled. Trusted: the reference models in mc/src, unwinding of std collections. Not covered: failures inside Ord, hashing or allocation, larger histories.",
}
ids = [json.loads(l)["id"] for l in open("properties.jsonl")]
known = [l.split()[0] for l in subprocess.run(["mc/target/release/mc", "list"], capture_output=True, text=True).stdout.splitlines()]
checks = []
for i in ids:
    if i not in known:
        continue
    k = K.get(i, "hist")
    checks.append({
        "property": i,
        "quick_cmd": f"./check.sh {i}",
        "thorough_cmd": f"VERIF_TIER=thorough ./check.sh {i}",
        "evidence_file": f"evidence/{i}.json",
        "technique": T[k],
        "level": LEVEL[k],
        "level_note": NOTE[k],
    })
json.dump({
    "version": 1,
    "setup_cmd": "./check.sh build",
    "hooks": {"guard": "none", "enable": "no hooks: the checks only use the public API of /repo", "source_commits": []},
    "checks": checks,
    "not_applicable": [{"property": i, "reason": "check not built yet"} for i in ids if i not in known],
    "notes": "See DESIGN.md. Regenerate with ./mkmanifest.py after building.",
}, open("MANIFEST.json", "w"), indent=1)
