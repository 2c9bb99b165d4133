"""Writes /verif/MANIFEST.json from the registry."""
import json
import os
import sys

here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, here)
from lib.registry_meta import META  # noqa: E402

TECHNIQUE = {
    "C01": "property-based testing: generated queries, token round-trip oracle",
    "C02": "property-based testing: adversarial literals, round-trip and metamorphic oracle",
    "C03": "property-based testing: idempotence",
    "C04": "property-based testing: metamorphic re-spelling",
    "C05": "property-based testing: differential against an independent pretty-printer",
    "C06": "property-based testing: generated queries, token kind oracle",
    "C07": "fuzzing: token soup and grammar mutation, token preservation oracle",
    "C08": "property-based testing: scaled query families, call counting",
    "C09": "stateful property-based testing: call histories against fresh processes",
    "C17": "property-based testing: metamorphic re-spelling and formatting",
    "C28": "property-based testing: metamorphic embedding into surrounding queries",
    "C29": "property-based testing: metamorphic renaming",
    "C18": "fuzzing of validation with generated and faulty queries",
}
SCOPED = "property-based testing: queries generated with scopes, planted faults, reference model"
FILES = "property-based testing: generated files, trees and runs of the command line against a reference model"

props = [json.loads(line) for line in open(os.path.join(here, "properties.jsonl"))]
checks = []
missing = []
for p in props:
    if p["id"] not in META:
        missing.append({"property": p["id"], "reason": "the check is not built yet"})
        continue
    meta = META[p["id"]]
    files = p["id"] >= "C20" and p["id"] <= "C27" or p["id"] == "C30"
    checks.append(
        {
            "property": p["id"],
            "quick_cmd": "python3-vt check.py " + p["id"],
            "thorough_cmd": "VERIF_TIER=thorough python3-vt check.py " + p["id"],
            "evidence_file": "evidence/{}.json".format(p["id"]),
            "technique": TECHNIQUE.get(p["id"], FILES if files else SCOPED),
            "level": meta["level"],
            "level_note": "Searches generated cases; silent on what it did not generate. Assumes: " + "; ".join(meta["assumptions"]),
        }
    )
manifest = {
    "version": 1,
    "setup_cmd": "true",
    "checks": checks,
    "not_applicable": missing,
    "notes": "Pure Python, nothing to build. VERIF_SEED and VERIF_TIER are honoured; replay a failure with "
    "`python3-vt check.py ID --replay FILE`.",
}
with open(os.path.join(here, "MANIFEST.json"), "w") as f:
    json.dump(manifest, f, indent=1)
    f.write("\n")
print(len(checks), len(missing))
