#!/usr/bin/env python3
"""Write /verif/MANIFEST.json from the engines' tables."""
import json, os, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(ROOT, "lib"))
import registry, sae_check, lse_check

NOT_APPLICABLE = {
    "C30": "The Java and Swift wrappers call the C interface through JNI and Xcode projects; no JNI headers, Swift compiler or encoder of "
           "those languages for an SMT solver is present. The C side of the same calls is decided under C20.",
}
SAE = ("symbolic execution of the compiled crates over an expression graph of the prime field; each branch and assertion decided by z3 "
       "(QF_FF) for every value; counterexamples and witness paths replayed on the real curve25519-dalek")
SAE_NOTE = ("bounded: the listed numbers of attributes and protocol steps; every field element, group element, challenge and draw within "
            "them; hashes are random oracles; group elements are their discrete logarithms (exact for a prime-order group)")
LSE = ("symbolic execution of the crates' optimized LLVM IR (emitted by the repository's own compiler at each run): inputs, lengths, allocator "
       "outcomes and random draws are bit-vectors; each branch, bound, access and claim decided by z3 for every value; counterexamples and witness "
       "paths replayed natively on the real crates")
LSE_NOTE = ("bounded: input lengths as listed in DESIGN.md; inside them every byte; curve arithmetic is abstract (any result), decoding of points is "
            "exact on a set of real encodings and on visibly invalid ones")

ids = [json.loads(l)["id"] for l in open(os.path.join(ROOT, "properties.jsonl"))]
checks, na = [], []
for i in ids:
    s, k = i in sae_check.PROPERTIES, i in lse_check.PROPERTIES
    if s or k:
        checks.append({"property": i, "quick_cmd": "python3 check.py %s" % i, "thorough_cmd": "python3 check.py %s --thorough" % i,
                       "technique": "; and ".join(([SAE] if s else []) + ([LSE] if k else [])), "level": "model_checking",
                       "level_note": "; ".join(([SAE_NOTE] if s else []) + ([LSE_NOTE] if k else []))})
    else:
        na.append({"property": i, "reason": NOT_APPLICABLE.get(i, "no check yet")})
with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
    json.dump({"version": 1, "setup_cmd": "true", "checks": checks, "not_applicable": na}, f, indent=1)
    f.write("\n")
