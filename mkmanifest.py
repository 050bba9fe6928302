"""writes MANIFEST.json"""
import json
import os

ROOT = os.path.dirname(os.path.abspath(__file__))
props = [json.loads(x) for x in open(os.path.join(ROOT, "properties.jsonl"))]
NOTE = ("Every explored call on the real library is judged by TLC against an exact (rational arithmetic) TLA+ specification of step functions; "
        "programs come from TLC (enumerated small scope and simulated behaviours of the specification) and from seeded random drivers over 22 numeric, Timestamp, tz-aware and "
        "Timedelta domains. Assurance is bounded by the programs explored; trusts TLC, the projection of results (harness/enc.py) and float comparison within rounding error.")
EXTRA = {
    "C17": " Each program is run in two domains and the two logs have to be images of one another.",
    "C14": " Each query is also put to a freshly built equal function.",
}
m = {
    "version": 1,
    "setup_cmd": "./setup.sh",
    "checks": [
        {
            "property": p["id"],
            "quick_cmd": "./check.sh %s quick" % p["id"],
            "thorough_cmd": "./check.sh %s thorough" % p["id"],
            "technique": "TLA+ specification checked with TLC; TLC trace validation of recorded executions and replay of TLC-generated behaviours",
            "level": "model_checking",
            "level_note": NOTE + EXTRA.get(p["id"], ""),
        }
        for p in props
    ],
    "not_applicable": [],
    "notes": "See DESIGN.md. Findings (all repaired) are listed in known_findings.json.",
}
json.dump(m, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
