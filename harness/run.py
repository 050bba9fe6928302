"""Decides one property:  run.py --prop C01 [--tier quick|thorough] [--replay FILE]

1. programs over the public API are generated: enumerated by TLC from spec/Gen.tla (modelgen.py) and drawn by random drivers,
   the enumerated ones are run on the specification (spec/Model.tla), which has to satisfy the second formulation of the properties,
2. all are executed on the staircase of /repo, every call logged with its projected outcome,
3. every log is validated by TLC against spec/Trace.tla, which is the only judge,
4. verdicts within the property's scope are violations."""
import argparse
import json
import multiprocessing as mp
import os
import random
import re
import shutil
import sys
import tempfile
import time
import traceback
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
sys.path.insert(0, HERE)

import evid  # noqa: E402
import modelgen  # noqa: E402
import scope  # noqa: E402
import tlc  # noqa: E402

OUT = os.path.join(ROOT, "out")
TIERS = {"quick": 1.0, "thorough": 14.0}
BUDGET = 640  # seconds after which no further batch is begun (the sessions left out are reported)
MAXREP = 6


def run_driver(prop, idx, seed, opts):
    import drivers
    from gen import G, GenStop
    from session import Stop

    fn = drivers.DRIVERS[prop][idx][0]
    g = G(seed, **opts)
    g.S.unit = prop in scope.UNITS and random.Random("unit/%s" % seed).random() < float(os.environ.get("UNITP", "0.3"))
    why = None
    try:
        fn(g)
    except Stop:
        why = "stop"
    except GenStop:
        why = "genstop"
    except Exception:
        why = "driver: " + traceback.format_exc()[-700:]
    return g.S, why


def rep(rec, domain):
    from session import replay

    return replay(rec["prog"], domain, rec.get("snap_all", False), rec.get("fresh", False), rec.get("alt", False))


def pair_domain(seed, S):
    """the reference domain a program is run in too"""
    scaled = any(x["op"] == "resample" and x["f"] == "integral" for x in S.prog)  # values which scale with the unit
    c = ("int", "floatu") if scaled else ("int", "int", "floatu", "float", "int3")
    return random.Random("pair/%s" % seed).choice([d for d in c if d != S.dom.name])


def pairup(S, R):
    for e, f in zip(S.ev, R.ev):
        e["ref"] = f


def job(a):
    """execute a batch of programs and judge it; returns a summary"""
    prop, specs, workdir = a
    sess, recs, derr = [], [], []
    t0 = time.time()
    for s in specs:
        try:
            if s[0] == "drv":
                S, why = run_driver(prop, s[1], s[2], s[3])
                pair = pair_domain(s[2], S) if prop == "C17" else None
            elif s[0] == "gen":
                import drivers
                import modelgen

                S, why = modelgen.replay(prop, s[1], s[2], drivers.C17_DOMAINS if prop == "C17" else None)
                pair = pair_domain(s[2], S) if prop == "C17" else None
            else:
                S, why = rep(s[1], s[1]["domain"]), None
                pair = s[1].get("pair")
            if pair:
                pairup(S, rep({"prog": S.prog, "snap_all": S.snap_all, "fresh": S.fresh}, pair))
        except Exception:
            derr.append(traceback.format_exc()[-700:])
            continue
        if why and why.startswith("driver"):
            derr.append(why)
        if S.ev:
            sess.append(S.ev)
            recs.append({"prop": prop, "domain": S.dom.name, "pair": pair, "prog": S.prog, "snap_all": S.snap_all, "fresh": S.fresh, "alt": S.alt, "src": list(s[:3]) if s[0] == "drv" else s[2] if s[0] == "gen" else s[1].get("src")})
    t1 = time.time()
    out = {"sessions": len(sess), "events": sum(map(len, sess)), "derr": derr, "viol": [], "texec": t1 - t0, "ops": {}, "doms": {}, "objs": 0}
    for e in sess:
        for x in e:
            out["ops"][x["op"]] = out["ops"].get(x["op"], 0) + 1
    for rec in recs:
        out["doms"][rec["domain"]] = out["doms"].get(rec["domain"], 0) + 1
    focus = {}
    for e, rec in zip(sess, recs):
        for x in e:
            if evid.in_focus(prop, x) and evid.nontrivial(x):
                focus.setdefault(evid.key(rec["domain"], x), (x, rec))
    out["focus"] = list(focus)
    out["samples"] = [{"domain": rec["domain"], "call": {k: v for k, v in x.items() if k != "ref"}} for x, rec in list(focus.values())[:2]]
    if sess:
        j = tlc.judge(sess, workdir, workers=1)
        for v in j["verdicts"]:
            k = v["sid"]
            out["viol"].append({**recs[k], "prog": recs[k]["prog"][: v["l"]], "clauses": v["clauses"], "want": v["want"], "event": sess[k][v["l"] - 1], "l": v["l"]})
        for key in ("states", "generated", "consumed"):
            out[key] = j[key]
        out["cuts"] = len(j["cuts"])
        out["errors"] = [{"msg": e["msg"], "rec": recs[e["sid"]]} for e in j["errors"]]
        out["cutrecs"] = [{**recs[c["sid"]], "prog": recs[c["sid"]]["prog"][: c["l"]]} for c in j["cuts"][:2]]
    out["tjudge"] = time.time() - t1
    return out


def specs_for(prop, tier, seed, scale=1.0):
    import drivers

    n = int(scope.SESSIONS[prop] * TIERS[tier] * scale)
    table = drivers.DRIVERS[prop]
    tot = sum(w for _, w, _ in table)
    out = []
    for idx, (fn, w, opts) in enumerate(table):
        for k in range(max(1, round(n * w / tot))):
            out.append(("drv", idx, "%s/%s/%s%d/%d" % (seed, prop, fn.__name__, idx, k), opts))
    random.Random(seed).shuffle(out)
    return out


def signature(v):
    e = v["event"]
    return json.dumps([e["op"], e.get("f"), sorted(v["clauses"]), (e["res"].get("e") if e["res"]["k"] == "err" else None)])


def shrink(v, prop, workdir, budget=25):
    """greedy removal of steps; every candidate is re-executed and re-judged"""
    t0 = time.time()
    best = v
    for _ in range(4):
        if time.time() - t0 > budget:
            break
        cands = []
        prog = best["prog"]
        used = scope.needed(prog)
        trials = [used] if len(used) < len(prog) else []
        trials += [[k for k in range(len(prog)) if k != d] for d in range(len(prog) - 1)]
        for keep in trials:
            p = scope.renumber(prog, keep, best)
            if p:
                cands.append(("rep", {**{k: best[k] for k in ("domain", "pair", "snap_all", "fresh", "alt")}, "prog": p}, None))
        if not cands:
            break
        r = job((prop, cands, workdir))
        good = [x for x in r["viol"] if signature(x) == signature(v) and len(x["prog"]) < len(best["prog"])]
        if not good:
            break
        best = min(good, key=lambda x: len(x["prog"]))
    return {**best, "prop": prop, "src": v.get("src")}


def describe(v):
    e = v["event"]
    args = {k: x for k, x in e.items() if k not in ("res", "snap", "op")}
    got = e["res"].get("f") or e["res"].get("x") or e["res"].get("fs") or e["res"].get("why") or e["res"]["k"]
    return "%s %s [%s]: clauses=%s got=%s want=%s" % (e["op"], json.dumps(args), v["domain"], ",".join(v["clauses"]), json.dumps(got)[:200], json.dumps(v["want"])[:200])


def findings():
    p = os.path.join(ROOT, "known_findings.json")
    return json.load(open(p))["findings"] if os.path.exists(p) else []


def matches(v, f):
    """a finding names the op, optional function, the clauses and optionally the exception"""
    e = v["event"]
    m = f["match"]
    return (e["op"] == m["op"] and m.get("f") in (None, e.get("f")) and set(v["clauses"]) <= set(m["clauses"])
            and m.get("e") in (None, e["res"].get("e")))


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("--prop", required=True)
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER") or "quick")
    ap.add_argument("--replay")
    ap.add_argument("--scale", type=float, default=1.0)
    ap.add_argument("--all", action="store_true", help="show verdicts outside the property's scope too")
    ap.add_argument("--jobs", type=int, default=8)
    ap.add_argument("--budget", type=float, default=BUDGET)
    ap.add_argument("--out", help="scratch folder for replays and evidence (development)")
    ap.add_argument("--nodrv", action="store_true", help="enumerated programs only")
    ap.add_argument("--nogen", action="store_true", help="random drivers only")
    ap.add_argument("--nodesign", action="store_true", help="no model checking of the specification")
    ap.add_argument("--dump", help="write all in-scope violations to this file")
    a = ap.parse_args()
    prop = a.prop
    if a.out:
        global OUT
        OUT = evid.OUT = a.out
    tier = a.tier if a.tier in TIERS else "quick"
    seed = os.environ.get("VERIF_SEED") or "1"
    work = tempfile.mkdtemp(prefix="verif" + prop)
    try:
        sys.exit(go(a, prop, tier, seed, work))
    finally:
        shutil.rmtree(work, ignore_errors=True)


def go(a, prop, tier, seed, work):
    t0 = time.time()
    if a.replay:
        rec = json.load(open(a.replay))
        r = job((prop, [("rep", rec, None)], work))
        bad = [v for v in r["viol"] if scope.inscope(prop, v)]
        for v in r["viol"]:
            print(describe(v))
        if bad:
            print("VIOLATION property=%s replay=%s" % (prop, a.replay))
            return 1
        print("replay: no violation" + (" (verdicts outside the scope of %s)" % prop if r["viol"] else ""))
        return 0
    specs = [] if a.nodrv else specs_for(prop, tier, seed, a.scale)
    model = {}
    bg = None
    progs = []
    if not a.nogen:
        bg = ThreadPoolExecutor(2)
        path, progs = modelgen.generate(prop, tier, seed, work)
        more = modelgen.specs(prop, progs, seed)
        random.Random(seed).shuffle(more)
        specs += more if a.scale >= 1 else more[: int(len(more) * a.scale)]
    random.Random(seed).shuffle(specs)
    per = max(1, min(250, (len(specs) + a.jobs - 1) // a.jobs))
    jobs = [(prop, specs[k : k + per], work) for k in range(0, len(specs), per)]
    tot = {"sessions": 0, "events": 0, "states": 0, "generated": 0, "consumed": 0, "cuts": 0}
    viol, derr, errors, ops, doms, other = [], [], [], {}, {}, 0
    tex = tj = skipped = 0
    outside = []
    focus, samples = set(), []
    failed = ref = None
    global DEADLINE
    DEADLINE = t0 + a.budget
    with mp.get_context("fork").Pool(a.jobs) as pool:
        if progs and not a.nodesign:
            model = bg.submit(modelgen.design, path, progs, 2 if tier == "quick" else 3)
            if prop in modelgen.REFINED:
                ref = bg.submit(modelgen.refinement, tier, seed)
        for r in pool.imap_unordered(safe_job, jobs):
            if "fatal" in r:
                failed = r["fatal"]
                continue
            if "skipped" in r:
                skipped += r["skipped"]
                continue
            for k in tot:
                tot[k] += r.get(k, 0)
            for k, n in r["ops"].items():
                ops[k] = ops.get(k, 0) + n
            for k, n in r["doms"].items():
                doms[k] = doms.get(k, 0) + n
            derr += r["derr"]
            focus.update(r["focus"])
            samples += r["samples"]
            errors += r.get("errors", [])
            tex += r["texec"]
            tj += r["tjudge"]
            for v in r["viol"]:
                if a.all or scope.inscope(prop, v):
                    viol.append(v)
                else:
                    other += 1
                    outside.append(v)
    design = None
    if model:
        try:
            model = model.result()
            if ref:
                model["representation"] = ref.result()
        except Exception:
            design, model = traceback.format_exc()[-3000:], {}
    # group and report
    groups = {}
    for v in viol:
        groups.setdefault(signature(v), []).append(v)
    reps = []
    known, fresh = [], []
    fnd = [f for f in findings() if f["property"] == prop and f.get("status") != "fixed"]
    for s, vs in groups.items():
        left = []
        for v in vs:
            for f in fnd:
                if matches(v, f):
                    known.append(f)
                    break
            else:
                left.append(v)
        if left:
            fresh.append((len(left), min(left, key=lambda v: len(v["prog"]))))
    fresh.sort(key=lambda x: -x[0])
    os.makedirs(OUT, exist_ok=True)
    if outside:
        json.dump(outside[:20], open(os.path.join(OUT, "%s-%s-outside.json" % (prop, tier)), "w"))
    if a.dump:
        json.dump([[n, v] for n, v in fresh], open(a.dump, "w"))
    for k, (n, v) in enumerate(fresh):
        if k < MAXREP and not a.all and time.time() - t0 < 500:
            try:
                v = shrink(v, prop, work, 10 if k else 20)
            except Exception:
                pass
        path = os.path.join(OUT, "%s-%s-%d.json" % (prop, tier, k))
        json.dump(v, open(path, "w"), indent=1)
        reps.append(path)
        print("%5d x %s" % (n, describe(v)))
        if not a.all:
            print("VIOLATION property=%s replay=%s" % (prop, path))
    for f in {json.dumps(f, sort_keys=True) for f in known}:
        f = json.loads(f)
        print("KNOWN-FINDING: property=%s %s" % (prop, f["what"]))
    print("%s %s: %d programs enumerated, design model %s states%s; %d sessions, %d calls validated, %d TLC states, %d cut, %d inconclusive, %d verdicts outside scope, driver errors %d%s; exec %.0f s judge %.0f s (cpu), wall %.0f s"
          % (prop, tier, len(progs), model.get("states", "-"), ", representation %(one_step_transitions)d transitions + %(history_states)d in histories" % model["representation"] if "representation" in model else "", tot["sessions"], tot["consumed"], tot["states"], tot["cuts"], len(errors), other, len(derr), "; %d sessions left out (time)" % skipped if skipped else "", tex, tj, time.time() - t0))
    for d in derr[:3]:
        print("driver error:", d)
    for e in errors[:3]:
        print("inconclusive:", e["msg"])
    tot["skipped"] = skipped
    evid.write(prop, tier, seed, tot, ops, doms, focus, samples, errors, other, derr, model, fresh, known, time.time() - t0)
    if fresh and not a.all:
        return 1
    if failed or design:
        print("check failed:", failed or design)
        return 2
    return 0


DEADLINE = None


def safe_job(a):
    if DEADLINE and time.time() > DEADLINE:
        return {"skipped": len(a[1])}
    try:
        return job(a)
    except Exception:
        return {"fatal": traceback.format_exc()[-3000:]}


if __name__ == "__main__":
    main()
