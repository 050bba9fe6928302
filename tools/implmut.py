"""Is the design model (spec/Impl.tla) able to fail?  Every mutation below is a mistake of design or implementation;
TLC has to find a heap which breaks an invariant (development tool; no check uses it)."""
import os
import shutil
import subprocess
import sys
import tempfile
from concurrent.futures import ThreadPoolExecutor

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MUT = {
    "layering keeps the cached statistics": ("    ELSE LayeredPlain(a, ts)\n", "    ELSE [LayeredPlain(a, ts) EXCEPT !.cache = a.cache]\n"),
    "shifting keeps the cached statistics": ("Shifted(a, t) == [Forget(a) EXCEPT", "Shifted(a, t) == [a EXCEPT"),
    "a constant is added although pieces are undefined": ("ELSE IF HasNa(a) THEN LET q", "ELSE IF FALSE THEN LET q"),
    "step changes are added although pieces are undefined": ("ELSE IF HasNa(a) \\/ HasNa(b) THEN Values2", "ELSE IF FALSE THEN Values2"),
    "reflected subtraction leaves the step changes": ("g(y) == IF rev /\\ o = \"sub\" THEN Neg(y) ELSE y", "g(y) == y"),
    "sums of step changes are not reduced": ("IN Reduce(ByDeltas(a.c, Bin(o, a.i, b.i), x,", "IN (ByDeltas(a.c, Bin(o, a.i, b.i), x,"),
    "layering several triples does not reduce": ("ELSE Reduce(ByDeltas(a.c, i, x, [k", "ELSE (ByDeltas(a.c, i, x, [k"),
    "layering one triple keeps vanished changes": ("    IN IF d[j] = Zero THEN", "    IN IF FALSE THEN"),
    "layering keeps the values": ("ELSE ByDeltas(q.c, q.i, q.x, q.d)", "ELSE [ByDeltas(q.c, q.i, q.x, q.d) EXCEPT !.vv = q.vv, !.v = q.v]"),
    "layering ignores undefined pieces": ("    ELSE IF a.has /\\ HasNa(a) THEN Forget", "    ELSE IF FALSE THEN Forget"),
    "step changes at a point after an undefined piece are relative to zero": ("Sub(v[k], LastDef(i, v, k - 1))]", "Sub(v[k], IF k > 1 /\\ IsNaN(v[k - 1]) THEN Zero ELSE LastDef(i, v, k - 1))]"),
    "masking with a step-free function returns the operand itself, cache included, also when nothing remains": ("THEN Forget(a) ELSE Bare(a.c, NaN))", "THEN Forget(a) ELSE a)"),
    "clipping keeps the first step point": ("[x0 EXCEPT ![1] = lo[1]]", "x0"),
    "reduction compares with the initial value only": ("THEN o.v[1] = o.i ELSE o.v[k] = o.v[k - 1]", "THEN o.v[1] = o.i ELSE o.v[k] = o.i"),
    "step-free functions are identical to any": ("    /\\ a.has = b.has\n    /\\ a.has => IF", "    /\\ a.has /\\ b.has => IF"),
    "identical looks at the initial value and the step points": ("a.x = b.x /\\ a.v = b.v", "a.x = b.x"),
    "negation leaves the step changes": ("!.d = [k \\in 1 .. Len(a.d) |-> Neg(a.d[k])]]\nPerValue", "!.d = a.d]\nPerValue"),
    "logic takes the side of the receiver": ("Values2(o, a, b, IF a.has THEN a.c ELSE b.c)", "Values2(o, a, b, a.c)"),
}


def one(item):
    name, (a, b) = item
    d = tempfile.mkdtemp()
    try:
        for f in ("Rat.tla", "StepFn.tla", "Impl.cfg"):
            shutil.copy(os.path.join(ROOT, "spec", f), d)
        s = open(os.path.join(ROOT, "spec", "Impl.tla")).read()
        if s.count(a) != 1:
            return name, "does not apply (%d)" % s.count(a)
        open(os.path.join(d, "Impl.tla"), "w").write(s.replace(a, b))
        p = subprocess.run(["java", "-XX:+UseParallelGC", "-Xss64m", "-Xmx3g", "-cp", "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar",
                            "tlc2.TLC", "-workers", "1", "-metadir", os.path.join(d, "m"), "-noGenerateSpecTE", "-config", "Impl.cfg", "Impl.tla"],
                           cwd=d, env={**os.environ, "TIER": "quick", "DEPTH": "1", "STRIDE": os.environ.get("STRIDE", "8"), "OFFSET": "1", "SIM": "no"}, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=1500)
        out = p.stdout.decode()
        hit = [x for x in out.splitlines() if "is violated" in x]
        return name, hit[0] if hit else "NOT FOUND rc=%d %s" % (p.returncode, out[-300:] if p.returncode else "")
    finally:
        shutil.rmtree(d, ignore_errors=True)


if __name__ == "__main__":
    with ThreadPoolExecutor(4) as ex:
        for n, r in ex.map(one, MUT.items()):
            print("%-75s %s" % (n, r))
            sys.stdout.flush()
