#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from the checks that exist."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "sa"))
import all_checks as checks

NA = {
    "C34": "How long an operation takes is not determined by the source: it depends on the code generated for slice comparison, on memcmp of the "
           "platform and on the machine. A rule that bans comparison operators on codes would judge how the code is written, not what it does.",
}
TECH = "abstract interpretation of MIR (bit-precise decision-diagram domain, symbolic-length sequences)"
TECHS = {
    "C35": TECH + ", on a combined attribute set (cfg-guarded hook); compile witness for programs of users",
    "C30": "abstract interpretation of MIR with a symbolic fault: which call that returns a codec error fails is an input of the analysis",
    "C31": "effect analysis: closed call graph over MIR, inventory of statics and interior mutability, Send/Sync as proved by the compiler",
    "C32": "abstract interpretation of MIR with an allocation-size accumulator",
    "C18": "abstract interpretation of MIR: unreachability of every panic edge and of every violated precondition of an unsafe call",
    "C19": "abstract interpretation of MIR: unreachability of every panic edge and of every violated precondition of an unsafe call",
}
NOTE = ("Sound over the inputs stated in DESIGN.md for this property, relative to the compiler's MIR, the hand-written models of standard library and "
        "crypto functions (sa/models.py) and allocation always succeeding. Undecided obligations are counted in the evidence and are none on the unchanged tree.")
NOTES = {}


def main():
    props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
    out = {"version": 1, "setup_cmd": "python3 sa/build.py --driver", "checks": [], "not_applicable": [],
           "hooks": {"guard": "stun_codec_verif", "enable": "rustc --cfg stun_codec_verif, passed for /repo's crate by the MIR dumper when MIRDUMP_CFG is set (sa/build.py)",
                     "source_commits": ["9a0492abcbec9451aa9e32337f27941239aceb32"]}}
    for p in props:
        i = p["id"]
        if i in checks.CHECKS:
            out["checks"].append({"property": i, "quick_cmd": "./check %s quick" % i, "thorough_cmd": "./check %s thorough" % i,
                                  "technique": TECHS.get(i, TECH), "level": "other", "level_note": NOTES.get(i, NOTE)})
        else:
            out["not_applicable"].append({"property": i, "reason": NA.get(i, "The check for this property is not built yet.")})
    with open(os.path.join(V, "MANIFEST.json"), "w") as f:
        json.dump(out, f, indent=1)
        f.write("\n")
    print(len(out["checks"]), "checks,", len(out["not_applicable"]), "not applicable")


main()
