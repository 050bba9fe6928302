"""evidence/<property>.json: what one run of a check covered, all counted on that run."""
import json
import os

import scope

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
OUT = os.path.join(ROOT, "evidence")

RULE = (
    "a case is one public call executed on the real library and judged by TLC against spec/Trace.tla; it is counted as distinct and "
    "non-trivial if the call is one the property speaks about, some operand or result has at least one step, and no other such call of the "
    "run had the same domain, operation, arguments, operand functions and result"
)


def write(prop, tier, seed, tot, ops, doms, focus, samples, errors, other, derr, model, fresh, known, wall):
    m = model or {}
    cov = {
        "states": tot["states"] + m.get("states", 0),
        "transitions": tot["consumed"] + m.get("transitions", 0),
        "traces_validated_against_impl": tot["sessions"] - len(errors) - tot["cuts"],
        "samples": samples[:4],
        "distinct_nontrivial": len(focus),
        "rule": RULE,
        "calls_by_operation": dict(sorted(ops.items())),
        "sessions_by_domain": dict(sorted(doms.items())),
        "sessions_cut": tot["cuts"],
        "sessions_inconclusive": len(errors),
        "sessions_left_out_for_time": tot.get("skipped", 0),
        "verdicts_outside_scope": other,
        "driver_errors": len(derr),
        "known_findings_seen": len(known),
    }
    if m:
        cov["model"] = m
    ev = {
        "property": prop,
        "tier": tier,
        "seed": int(seed) if str(seed).lstrip("-").isdigit() else 0,
        "level": "model_checking",
        "coverage": cov,
        "assumptions": [
            "TLC and the CommunityModules evaluate the specification correctly",
            "the projection (harness/enc.py, domains.py) reads an object through a deep copy: initial_value, step_values, closed",
            "values are compared as rationals recovered within 2e-14 (function values) or 1e-10 (computed statistics): numeric accuracy beyond that is not decided",
        ],
        "wall_s": round(wall, 1),
        "violations": sum(n for n, _ in fresh),
    }
    os.makedirs(OUT, exist_ok=True)
    with open(os.path.join(OUT, prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)


CLAUSES = [{"value"}, {"closed"}, {"minimal"}, {"frame"}, {"stale"}, {"domain"}]


def in_focus(prop, e):
    if prop in ("C16", "C17"):
        return True
    v = {"prop": prop, "event": e, "clauses": []}
    return any(scope.inscope(prop, {**v, "clauses": list(c)}) for c in CLAUSES)


def nontrivial(e):
    fs = [s[1] for s in e["snap"]]
    o = e["res"]
    fs += [o["f"]] if o["k"] in ("new", "mut") else o.get("fs", [])
    return any(f["p"] for f in fs)


def key(dom, e):
    import hashlib

    heapless = {k: v for k, v in e.items() if k not in ("a", "b", "ids", "ref", "lim")}
    heapless["snap"] = [s[1] for s in e["snap"]]
    heapless["scal"] = [e[k] for k in ("a", "b") if isinstance(e.get(k), list) and e[k] and e[k][0] == "s"]
    return hashlib.blake2b((dom + json.dumps(heapless, sort_keys=True)).encode(), digest_size=8).digest()
