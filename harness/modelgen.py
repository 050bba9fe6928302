"""Programs enumerated by TLC (spec/Gen.tla): checked on the specification (spec/Model.tla) and replayed into the real code."""
import json
import os
import random
import re
import time

import scope
import tlc

CONT = ["list", "tuple", "dict", "array", "series", "objseries", "dupseries", "stairsarray", "pandas", "arrops"]
ARITH = ("add", "sub", "mul", "div")


def offset(seed):
    return sum(map(ord, str(seed))) % 97


def generate(prop, tier, seed, work):
    """TLC enumerates the families of the property; returns (file, programs)"""
    path = os.path.join(work, "programs.ndjson")
    rc, out = tlc.run("Gen.tla", "Gen.cfg", {"PROP": prop, "TIER": tier, "OFFSET": str(offset(seed)), "DUMP": path}, heap="6g")
    if rc != 0 or not os.path.exists(path):
        raise tlc.TlcError("program generation failed (%d):\n%s" % (rc, out[-3000:]))
    with open(path) as f:
        return path, [json.loads(x) for x in f]


def design(path, progs, workers=4, timeout=820):
    """the properties on the specification: every program as a behaviour of the machine"""
    t0 = time.time()
    rc, out = tlc.run("Model.tla", "Model.cfg", {"DUMP": path}, workers=workers, heap="8g", timeout=timeout)
    if rc != 0:
        raise tlc.TlcError("the specification does not satisfy its properties (%d):\n%s" % (rc, out[-4000:]))
    gen, states = tlc.stats(out)
    want = sum(len(p["prog"]["calls"]) + 1 for p in progs)
    if states != want:
        raise tlc.TlcError("design model incomplete: %d states, expected %d\n%s" % (states, want, out[-2000:]))
    fam = {}
    for p in progs:
        d = fam.setdefault(p["part"], {"programs": 0, "calls": 0})
        d["programs"] += 1
        d["calls"] += len(p["prog"]["calls"])
    return {"states": states, "transitions": states - len(progs), "programs": len(progs), "families": fam, "wall_s": round(time.time() - t0, 1)}


REFINED = ("C12", "C13", "C14", "C16")


def refinement(tier, seed):
    """spec/Impl.tla: one step from every heap of a part of the universe (quick) or the whole (thorough), and random histories"""
    t0 = time.time()
    quick = tier == "quick"
    env = {"TIER": "quick", "OFFSET": str(offset(seed)), "DEPTH": "1", "STRIDE": "16" if quick else "1", "SIM": "no"}
    rc, out = tlc.run("Impl.tla", "Impl.cfg", env, workers=2, heap="6g", timeout=300 if quick else 840)
    if rc != 0:
        raise tlc.TlcError("the design of the representation does not refine the specification (%d):\n%s" % (rc, out[-4000:]))
    gen, states = tlc.stats(out)
    n = 60 if quick else 1500
    env.update(DEPTH="25", STRIDE="16", SIM="yes")
    rc, out = tlc.run("Impl.tla", "Impl.cfg", env, workers=1, heap="4g", timeout=300, args=("-simulate", "num=%d" % n, "-depth", "25", "-seed", str(offset(seed))))
    if rc != 0:
        raise tlc.TlcError("the design of the representation does not refine the specification, history (%d):\n%s" % (rc, out[-4000:]))
    m = re.findall(r"The number of states generated: (\d+)", out)
    return {"one_step_states": states, "one_step_transitions": gen, "histories": n, "history_states": int(m[-1]) if m else 0, "wall_s": round(time.time() - t0, 1)}


# ----------------------------------------------------------------- chunking
def refs(c):
    out = []
    for k in ("a", "b"):
        o = c.get(k)
        if c["op"] == "resample" and k == "b":
            continue
        if isinstance(o, list) and len(o) == 2 and o[0] == "o":
            out.append(o[1])
        elif isinstance(o, list) and len(o) == 2 and o[0] == "l":
            out += o[1]
    return out + list(c.get("ids", []))


def chunks(prog, size):
    """cut a program where nothing refers back and no given function has been changed"""
    calls = prog["calls"]
    n = len(calls)
    last = {}  # call -> last call that refers to it
    for j, c in enumerate(calls):
        for k in refs(c):
            if k > 1000:
                last[k - 1000] = j
    out, start, live, dirty = [], 0, -1, False
    grp = prog.get("grp", 0)
    for j, c in enumerate(calls):
        live = max(live, last.get(j + 1, -1))
        if c["op"] == "layer" and c["a"][1] <= 1000:
            dirty = True
        clean = not dirty or (grp and (j + 1) % grp == 0)
        if j + 1 - start >= size and live <= j and clean:
            out.append((start, j + 1))
            start, dirty = j + 1, False
    if start < n:
        out.append((start, n))
    return out


def specs(prop, progs, seed, size=40):
    out = []
    for p in progs:
        q = p["prog"]
        for a, b in chunks(q, 16 if q.get("snap") else size):
            used = sorted({k for c in q["calls"][a:b] for k in refs(c) if k <= 1000})
            out.append(("gen", {"fns": {k: q["fns"][k - 1] for k in used}, "forms": {k: q["forms"][k - 1] for k in used} if "forms" in q else {}, "calls": q["calls"][a:b], "base": a,
                                "snap": bool(q.get("snap")), "fresh": bool(q.get("fresh"))},
                        "%s/%s/%s/%d/%d" % (seed, prop, p["part"], p["k"], a), {}))
    return out


# ------------------------------------------------------------------ replaying
def hints(g, c, prop):
    r, op = g.r, c["op"]
    if op == "bin":
        return g.opform()
    if op in ("clip", "masktup", "wheretup"):
        return {"form": r.choice(["pos", "kw"]), "str": r.random() < 0.2, "finf": r.random() < 0.1}
    if op == "layer":
        return {"route": r.choice(["scalar", "vector", "vector", "frame"])}
    if op == "stat":
        f = ["method", "method", "agg", "aggwhere", "agglist"]
        if c["f"] in ("median", "mode"):
            f = ["method", "agg"] + (["median50"] if c["f"] == "median" else [])
        if c["f"] in ("min", "max"):
            f = ["method"]
        return {"form": r.choice(f)}
    if op == "aggstat":
        return {"form": r.choice(["agg", "list"] if c["f"] in ("min", "max") else ["agg", "list", "clip"])}
    if op == "ecdf":
        return {"form": r.choice(["call", "scalar", "sample", "limit"])}
    if op in ("pct", "frac"):
        return {"form": r.choice(["call", "scalar", "sample"])}
    if op == "hist":
        return {"form": r.choice(["seq", "ii"]), "intbins": r.random() < 0.5}
    if op == "slstat":
        return {"cuts": r.choice(["ii", "breaks", "period"]), "form": r.choice(["method", "agg", "agglist", "apply", "twice"])}
    if op == "slhist":
        return {"cuts": r.choice(["ii", "breaks", "period"]), "form": r.choice(["seq", "ii"])}
    if op in ("slmode", "slices"):
        return {"cuts": r.choice(["ii", "breaks", "period"])}
    if op == "resample":
        return {"cuts": r.choice(["ii", "breaks", "period"])}
    if op == "agg":
        return {"cont": r.choice(CONT), "form": r.choice(["top", "top", "array", "acc", "reduce", "func"])}
    if op == "arrbin":
        form = r.choice(["op", "op", "method"])
        if not c["rev"] and c["f"] in ARITH and r.random() < 0.15:
            form = "series"
        return {"cont": r.choice(["list", "array", "series"]), "form": form,
                "cont2": "stairsarray" if form == "series" else r.choice(["stairsarray", "list", "array", "series"])}
    if op == "arrneg":
        return {"cont": r.choice(["list", "array", "pandas", "arrops"])}
    if op == "table":
        return {"form": r.choice(["top", "array", "acc"]), "cont": r.choice(["list", "tuple", "dict", "series", "array", "pandas", "arrops"])}
    if op in ("covm", "corrm"):
        return {"form": r.choice(["top", "array", "acc"]), "cont": r.choice(["list", "tuple", "dict", "array", "pandas", "arrops"])}
    if op in ("limit", "sample"):
        return {} if prop == "C03" else {"forms": 3}
    return {}


def replay(prop, prog, seed, domains=None):
    """realise the functions through random public routes, then issue the calls"""
    from gen import G, GenStop
    from session import Stop

    fns = {int(k): v for k, v in prog["fns"].items()}
    c0 = next(iter(fns.values()))["c"] if fns else "left"
    g = G(seed, domains=domains, closed=c0, pool="ints")
    g.S.snap_all = prog["snap"]
    why = None
    try:
        obj = {}
        for k, f in fns.items():
            form = prog.get("forms", {}).get(k)
            if form:
                obj[k] = g.realise_form((f["i"], f["p"], f["v"]), f["c"], form)
                continue
            obj[k] = g.realise((f["i"], f["p"], f["v"]), f["c"])
            if g.r.random() < 0.3:
                g.maybe_touch(obj[k])
        g.S.fresh = prog["fresh"]
        g.S.unit = prop in scope.UNITS and random.Random("unit/%s" % seed).random() < 0.2
        res = {}
        at = lambda k: res.get(k - 1000) if k > 1000 else obj[k]
        for j, c in enumerate(prog["calls"], prog["base"] + 1):
            a = {k: v for k, v in c.items() if k != "op"}
            for k in ("a", "b"):
                o = a.get(k)
                if c["op"] != "resample" or k == "a":
                    if isinstance(o, list) and o and o[0] == "o":
                        a[k] = ["o", at(o[1])]
                    elif isinstance(o, list) and o and o[0] == "l":
                        a[k] = ["l", [at(x) for x in o[1]]]
            if "ids" in a:
                a["ids"] = [at(x) for x in a["ids"]]
                if None in a["ids"]:
                    raise GenStop()
            ids = g.do(c["op"], hints(g, c, prop), **a)
            if ids and c["op"] != "layer":
                res[j] = ids[0]
    except Stop:
        why = "stop"
    except GenStop:
        why = "genstop"
    return g.S, why
