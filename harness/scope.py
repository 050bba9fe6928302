"""Which verdicts belong to which property."""
import laws

FN = {"bin", "un", "clip", "mask", "where", "masktup", "wheretup", "fills", "fillm", "fillf", "shift", "diff", "agg", "copy",
      "slices", "arrbin", "arrneg", "resample", "new", "fromvals", "layer"}
ARITH = {"add", "sub", "mul", "div"}
REL = {"lt", "le", "gt", "ge", "eq", "ne"}
LOGIC = {"and", "or", "xor"}
VAL = {"value", "raised", "kind", "form", "labels"}
STATQ = {"stat", "aggstat", "vsums", "vsumsna", "ecdf", "pct", "frac", "quant", "hist", "describe", "vir"}

# sessions per quick run
SESSIONS = {"C%02d" % k: 3000 for k in range(1, 21)}


def inscope(prop, v):
    e = v["event"]
    op, f, c = e["op"], e.get("f"), set(v["clauses"])
    if op == "law" and f in laws.OF.get(prop, ()):
        return True
    return bool(SCOPE[prop](op, f, c, e, v))


def _fnvalue(c):
    """the function returned is not the prescribed one, or none was returned, or it is the prescribed one for the operands
    as they were but not for the operands as they are now (they were changed)"""
    return bool(c & {"value", "raised", "kind"}) and "mismatch" not in c or bool(c - {"value", "raised", "kind", "mismatch", "minimal", "closed", "alias", "ident", "noraise", "labels", "input"})


def _views(c):
    return any(x.startswith("v:") for x in c)


SCOPE = {}


def rule(p):
    def deco(fn):
        SCOPE[p] = fn
        return fn

    return deco


def lastmut(v):
    """the op that made / last changed the object the call looks at"""
    return None


@rule("C01")
def _(op, f, c, e, v):
    return (op == "bin" and f in ARITH or op == "un" and f == "neg") and _fnvalue(c)


@rule("C02")
def _(op, f, c, e, v):
    return op == "layer" and (_fnvalue(c) or "ident" in c) or op == "new" and _fnvalue(c)


@rule("C03")
def _(op, f, c, e, v):
    return op in ("limit", "sample", "views") and (_fnvalue(c) or _views(c)) or op == "touch" and bool(c & {"raised", "kind"})


@rule("C04")
def _(op, f, c, e, v):
    return op == "bin" and f in REL and _fnvalue(c) or v["prop"] == "C04" and "raised" in c and "mismatch" not in c


@rule("C05")
def _(op, f, c, e, v):
    return (op == "bin" and f in LOGIC or op == "un" and f in ("inv", "bool")) and _fnvalue(c)


@rule("C06")
def _(op, f, c, e, v):
    return (op in ("clip", "mask", "where", "masktup", "wheretup") or op == "un" and f in ("isna", "notna")) and (_fnvalue(c) or op in ("masktup", "wheretup", "clip") and "raised" in c)


@rule("C07")
def _(op, f, c, e, v):
    return op in ("fills", "fillm", "fillf") and _fnvalue(c)


@rule("C08")
def _(op, f, c, e, v):
    return (op in ("stat", "aggstat") and f in ("mean", "integral", "var", "std") or op in ("vsums", "vsumsna")) and _fnvalue(c)


@rule("C09")
def _(op, f, c, e, v):
    return (op in ("ecdf", "pct", "frac", "quant", "hist", "describe") or op in ("stat", "aggstat") and f in ("median", "mode")) and _fnvalue(c)


@rule("C10")
def _(op, f, c, e, v):
    return (op == "vir" or op in ("stat", "aggstat") and f in ("min", "max")) and _fnvalue(c)


@rule("C11")
def _(op, f, c, e, v):
    return op in ("slstat", "slmode", "slhist", "slices", "resample") and (_fnvalue(c) or "raised" in c)


def _lossy(v):
    """the prescribed function without some of its steps: genuine changes were dropped as if they were none"""
    g, w = v["event"]["res"].get("f"), v.get("want")
    w = w.get("f") if isinstance(w, dict) else None
    if not isinstance(g, dict) or not isinstance(w, dict) or "p" not in g or "p" not in w:
        return False
    steps = dict(zip(w["p"], map(tuple, w["v"])))
    return g["i"] == w["i"] and len(g["p"]) < len(w["p"]) and all(steps.get(t) == tuple(x) for t, x in zip(g["p"], g["v"]))


@rule("C12")
def _(op, f, c, e, v):
    return "minimal" in c or "value" in c and _lossy(v) or op in ("ident", "truth", "law") and _fnvalue(c)


@rule("C13")
def _(op, f, c, e, v):
    return bool(c & {"frame", "alias", "input"}) or op == "poke" and bool(c)


@rule("C14")
def _(op, f, c, e, v):
    return bool(c & {"stale", "unstable"}) or op in STATQ and "frame" in c


@rule("C15")
def _(op, f, c, e, v):
    return bool(c & {"closed", "mismatch", "noraise"}) or op == "sample" and _fnvalue(c)


@rule("C16")
def _(op, f, c, e, v):
    return op in FN and (_fnvalue(c) or "raised" in c) or bool(c & {"raised", "kind", "domain"})


@rule("C17")
def _(op, f, c, e, v):
    return "labels" in c or "domain" in c


@rule("C18")
def _(op, f, c, e, v):
    return op in ("agg", "arrbin", "arrneg", "table", "covm", "corrm") and (_fnvalue(c) or "raised" in c)


@rule("C19")
def _(op, f, c, e, v):
    return op in ("cov", "corr", "covm", "corrm") and _fnvalue(c)


@rule("C20")
def _(op, f, c, e, v):
    return op in ("shift", "diff", "roll") and _fnvalue(c)


# ----------------------------------------------------------------- shrinking
def refs(step):
    out = []
    for k in ("a", "b"):
        o = step.get(k)
        if isinstance(o, list) and len(o) == 2 and o[0] == "o":
            out.append(o[1])
        elif isinstance(o, list) and len(o) == 2 and o[0] == "l":
            out += o[1]
    return out + list(step.get("ids", []))


NEW1 = {"new", "fromvals", "bin", "un", "clip", "mask", "where", "masktup", "wheretup", "fills", "fillm", "fillf", "shift", "diff", "agg", "copy", "resample"}


def produces(step):
    op = step["op"]
    if op in NEW1:
        return 1
    if op == "slices":
        return len(step["ivs"])
    if op in ("arrbin", "arrneg"):
        return len(step["ids"])
    return 0


def needed(prog):
    """indices of the steps the last one depends on (queries in between are dropped)"""
    first, nxt = {}, 1
    prod = []
    for s in prog:
        prod.append(range(nxt, nxt + produces(s)))
        nxt += produces(s)
    want = set(refs(prog[-1]))
    keep = [len(prog) - 1]
    for k in range(len(prog) - 2, -1, -1):
        s = prog[k]
        if set(prod[k]) & want or s["op"] in ("layer", "poke") and set(refs(s)) & want:
            keep.append(k)
            want |= set(refs(s))
    return sorted(keep)


def renumber(prog, keep, v):
    """the sub-program, or None if it refers to objects that are gone (or mixes: a raising step produces nothing)"""
    m, nxt, old = {}, 1, 1
    out = []
    keep = set(keep)
    for k, s in enumerate(prog):
        n = produces(s)
        if k in keep:
            if any(r not in m for r in refs(s)):
                return None
            t = json_copy(s)
            for key in ("a", "b"):
                o = t.get(key)
                if isinstance(o, list) and len(o) == 2 and o[0] == "o":
                    o[1] = m[o[1]]
                elif isinstance(o, list) and len(o) == 2 and o[0] == "l":
                    o[1] = [m[x] for x in o[1]]
            if "ids" in t:
                t["ids"] = [m[x] for x in t["ids"]]
            out.append(t)
            for j in range(n):
                m[old + j] = nxt + j
            nxt += n
        old += n
    return out


def json_copy(x):
    import json

    return json.loads(json.dumps(x))


# properties whose random sessions make some calls in other units of the values (session.degrees)
UNITS = ("C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C09", "C10", "C11", "C12", "C16", "C18", "C19", "C20")
