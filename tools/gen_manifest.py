#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from the properties, the harness files and the notes below."""
import json, os, re, subprocess
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NA = {
    "C26": "the command-line crate 'visqol' depends on the published visqol-rs 0.3.1 and consists of clap, csv and serde glue; argument parsing and serialisation are driven by generated code and dynamic formatting that the symbolic executor cannot encode within reach",
}
common = ("Bounded symbolic execution of the crate's optimised LLVM IR, regenerated from /repo on every run; z3 and cvc5 decide every "
          "assertion for all values within the stated bounds, and every counterexample is replayed on the natively compiled crate before it is "
          "reported. Trusted: rustc, the IR interpreter (validated on concrete runs against the native code in every run), the solvers. ")
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    h = os.path.join(V, "harness", i + ".rs")
    if os.path.exists(h) and i not in NA:
        t = open(h).read()
        get = lambda k: " ".join(re.findall(r"^//@ %s: (.*)" % k, t, re.M))
        note = common + "Bounds: " + get("bounds") + "."
        if get("assume"):
            note += " Assumes: " + get("assume") + "."
        if get("stub"):
            note += " Replaced: " + get("stub") + "."
        checks.append({
            "property": i,
            "quick_cmd": "python3 check.py " + i,
            "thorough_cmd": "VERIF_TIER=thorough python3 check.py " + i,
            "evidence_file": "evidence/%s.json" % i,
            "technique": "symbolic execution of the crate's LLVM IR with SMT (z3, cvc5)",
            "level": "model_checking",
            "level_note": note,
        })
    else:
        na.append({"property": i, "reason": NA.get(i, "no check has been built yet")})
hooks = subprocess.run(["git", "-C", "/repo", "log", "--format=%H %s"], stdout=subprocess.PIPE, text=True).stdout.splitlines()
m = {
    "version": 1,
    "setup_cmd": "bash tools/setup.sh",
    "hooks": {
        "guard": "rustc cfg visqol_verif",
        "enable": "RUSTFLAGS='--cfg visqol_verif' with VISQOL_VERIF_HARNESS naming the harness source that src/lib.rs includes (see build_harness.sh)",
        "source_commits": [l.split()[0] for l in hooks if " verif:" in l],
    },
    "checks": checks,
    "not_applicable": na,
    "notes": "Known findings and repaired defects: known_findings.txt. Bounds, assumptions and planted bugs: DESIGN.md.",
}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
