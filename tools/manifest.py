#!/usr/bin/env python3
"""Writes MANIFEST.json from the table below."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = "abstract interpretation of rustc's LLVM IR: "
VN = T + "value numbering against specification terms"
rows = {}
def add(ids, technique, level, note):
    for i in ids.split():
        rows[i] = (technique, level, note)
BASE = " Trusted: rustc's IR emission, the analyzer, the specification terms."
add("C01 C03 C04 C06 C07", VN, "proof",
    "every output bit equals the specification's term for symbolic key, nonce and counter; nothing is executed and no solver is used." + BASE)
add("C02", VN + ", induction over batches", "proof",
    "per-batch equality with symbolic counter; post-state equality closes the induction over histories; counter carries by classes of concrete low words." + BASE)
add("C05 C08", VN, "proof", "positions symbolic over the full counter width." + BASE)
add("C09 C10", VN + ", induction over an arbitrary table/state", "proof",
    "initialisation with symbolic key/IV, then steps from an arbitrary state." + BASE)
add("C11", VN + ", per key length and from an arbitrary permutation state", "proof",
    "key scheduling checked per analysed key length (quick: a few, thorough: more); generator steps from an arbitrary state." + BASE)
add("C12", T + "constant folding of the constructor result per length class", "proof",
    "each length below 80 (RC4: 301) and one symbolic class for all longer ones." + BASE)
add("C13 C14 C15", VN + ", induction over buffer index and operation", "proof",
    "each read/position/stream/state operation from each analysed buffer index, seeds and streams symbolic." + BASE)
add("C16", T + "last-writer (volatile zero) typestate of each secret-dependent byte at drop", "proof",
    "bytes of the value itself; copies the compiler spills to the stack are outside the property." + BASE)
add("C17", T + "read effects of the formatting implementations", "other",
    "no load of the formatted value on any path; no proof object, a rule over all paths." + BASE)
add("C18", T + "secret taint of branches and addresses", "proof",
    "LLVM IR before optimisation passes; table ciphers (HC-256, RC4): control flow only; instruction latency and codegen outside." + BASE)
add("C19", T + "bounds, alignment and initialisation of every access", "proof",
    "over the enumerated call histories with symbolic contents." + BASE)
add("C20", T + "target-feature requirements along the call graph per CPU model; compile-fail witnesses for forced backends", "proof",
    "twelve CPU models x builds; x86-64 only (NEON needs no detection)." + BASE)
add("C21", T + "reachability of panicking calls", "proof", "over the enumerated call histories with symbolic contents." + BASE)
add("C22", T + "effects on mutable globals; value numbering of interleaved instances", "proof",
    "the CPU-feature cache is the only mutable global allowed." + BASE)
add("C23", "type-level witnesses (programs rustc must accept) and compile-fail twins", "proof",
    "decided by rustc's trait solver over the public API; no value is computed at run time.")
add("C24", VN + ", cross-compiled IR", "proof",
    "aarch64 NEON, i686, big-endian powerpc IR from the same source, core compiled from rust-src." + BASE)
add("C25", VN, "proof",
    "messages of enumerated lengths and splits at symbolic positions; lengths are bounded, the splits are those listed in checks.rs." + BASE)
add("C26", VN + " on every build option; compile matrix", "proof",
    "the matrix enumerates the documented features and backend options." + BASE)
import sys
for i in "C11 C17 C18 C19 C20 C21 C22 C23 C24 C25 C26".split():
    rows[i] = (rows[i][0], "other", rows[i][2])
skip = dict(l.split("=", 1) for l in sys.argv[1:])
props = [json.loads(l) for l in open(V + "/properties.jsonl")]
m = {"version": 1, "setup_cmd": "bash setup.sh", "checks": [], "not_applicable": []}
for p in props:
    i = p["id"]
    if i in skip:
        m["not_applicable"].append({"property": i, "reason": skip[i]})
        continue
    t, l, n = rows[i]
    m["checks"].append({"property": i, "quick_cmd": f"bash check.sh {i} quick", "thorough_cmd": f"bash check.sh {i} thorough",
                        "technique": t, "level": l, "level_note": n})
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
open(V + "/MANIFEST.json", "a").write("\n")
