#!/usr/bin/env python3
"""Writes MANIFEST.json. CLAIMED: the properties whose checks exist; the others go under not_applicable with a reason."""
import json, os, subprocess
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
EXPR = "TLA+ specification of expressions (spec/Expr.tla, spec/ExprCheck.tla); TLC decides each case recorded from the real "
CLAIMED = {
    "C13": (EXPR + "simplifier: generated expressions, bounds, alignments", "model_checking",
            "bounded expression sizes and values; cases are sampled (seeded), every recorded case is decided by TLC"),
    "C14": (EXPR + "bounds_of / constant_*_bound / prove_* / interval operations", "model_checking",
            "bounded expression sizes and values; cases are sampled (seeded), every recorded case is decided by TLC"),
    "C16": (EXPR + "substitute / depends_on / compare", "model_checking",
            "bounded expression sizes and values; cases are sampled (seeded), every recorded case is decided by TLC"),
}
EXTRA = os.path.join(V, "bin", "claimed.json")
if os.path.exists(EXTRA):
    CLAIMED.update({k: tuple(v) for k, v in json.load(open(EXTRA)).items()})
NA = {}
NAF = os.path.join(V, "bin", "not_applicable.json")
if os.path.exists(NAF):
    NA = json.load(open(NAF))
ids = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
hooks = subprocess.run(["git", "-C", "/repo", "log", "--format=%H", "--grep=^Hook:"], capture_output=True, text=True).stdout.split()
m = {
    "version": 1,
    "setup_cmd": "python3 bin/setup.py",
    "hooks": {"guard": "SLINKY_VERIFY", "enable": "the checks compile /repo's sources with -DSLINKY_VERIFY and link harness/hooks.cc",
              "source_commits": hooks},
    "checks": [{"property": i, "quick_cmd": "VERIF_TIER=quick bin/check " + i, "thorough_cmd": "VERIF_TIER=thorough bin/check " + i,
                "technique": CLAIMED[i][0], "level": CLAIMED[i][1], "level_note": CLAIMED[i][2]} for i in ids if i in CLAIMED],
    "not_applicable": [{"property": i, "reason": NA.get(i, "no check built yet")} for i in ids if i not in CLAIMED],
    "notes": "TLA+ with TLC. See DESIGN.md.",
}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
