#!/usr/bin/env python3
"""Writes /verif/properties.jsonl and /verif/MANIFEST.json from properties.py."""
import json, os, sys
HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
sys.path.insert(0, HERE)
sys.path.insert(0, ROOT)
from properties import PROPS, NOT_APPLICABLE, LEVEL_NOTES, TECHNIQUES  # noqa: E402
from checks import CHECKS  # noqa: E402

INC = "include/ieompp/"


def path(p):
    return p if p.startswith(("src/", "include/", "tools/")) else INC + p


with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
    for p in PROPS:
        assert len(p["title"]) <= 80, p["id"]
        files = [path(x) for x in p["files"]]
        for x in files:
            assert os.path.exists(os.path.join("/repo", x)), x
        f.write(json.dumps({
            "id": p["id"], "title": p["title"], "statement": p["statement"],
            "quantifier": {"over": p.get("over", ["inputs"]), "text": p["for_all"]},
            "why_tests_cant": p["why"],
            "anchors": {"files": files,
                        "mechanism": [{"name": n, "where": path(w)} for n, w in p["mechanism"]],
                        "hook_needed": None},
        }, ensure_ascii=False) + "\n")

na = {x["property"] for x in NOT_APPLICABLE}
for p in PROPS:
    assert (p["id"] in CHECKS) != (p["id"] in na), p["id"]
for c in CHECKS:
    assert c in {p["id"] for p in PROPS}, c
manifest = {
    "version": 1,
    "setup_cmd": "python3 run_check.py --setup",
    "checks": [{
        "property": p["id"],
        "quick_cmd": "python3 run_check.py %s quick" % p["id"],
        "thorough_cmd": "python3 run_check.py %s thorough" % p["id"],
        "technique": TECHNIQUES.get(p["id"], "property-based testing: generated inputs against an independent reference; libFuzzer in the thorough tier"),
        "level": "exploration",
        "level_note": LEVEL_NOTES.get(p["id"], "Random search with shrinking over the generated space described in DESIGN.md; no proof. Trusts the reference in the harness, the compiler and the sanitizers."),
    } for p in PROPS if p["id"] in CHECKS],
    "not_applicable": NOT_APPLICABLE,
    "notes": "No hooks: the harnesses include the headers of /repo and use their public interface only. Blaze is not installed; shim/ holds a minimal stand-in.",
}
with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
    json.dump(manifest, f, indent=1, ensure_ascii=False)
    f.write("\n")
print(len(PROPS), "properties", len(manifest["checks"]), "checks")
