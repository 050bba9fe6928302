"""Running TLC."""
import json
import os
import re
import shutil
import subprocess
import tempfile

JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
SPEC = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "spec")


class TlcError(Exception):
    pass


def run(module, cfg, env=None, workers=1, heap="3g", args=(), timeout=800, cwd=None):
    """returns (exit code, stdout)"""
    meta = tempfile.mkdtemp(prefix="tlcmeta")
    cmd = ["java", "-XX:+UseParallelGC", "-XX:ParallelGCThreads=2", "-Xss64m", "-Xmx" + heap, "-cp", JARS, "tlc2.TLC", "-workers", str(workers),
           "-metadir", meta, "-noGenerateSpecTE", "-config", cfg, *args, module]
    e = dict(os.environ)
    e.update(env or {})
    try:
        p = subprocess.run(cmd, cwd=cwd or SPEC, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
        return p.returncode, p.stdout.decode("utf-8", "replace")
    except subprocess.TimeoutExpired as x:
        return 124, (x.stdout or b"").decode("utf-8", "replace")
    finally:
        shutil.rmtree(meta, ignore_errors=True)


def stats(out):
    m = re.findall(r"([\d,]+) states generated, ([\d,]+) distinct states found", out)
    if not m:
        return 0, 0
    return tuple(int(x.replace(",", "")) for x in m[-1])


def printed(out, tag):
    res = []
    for line in out.splitlines():
        if line.startswith('"' + tag + " "):
            s = json.loads(line)  # TLC prints the string quoted
            res.append(json.loads(s[len(tag) + 1:]))
    return res


def judge(sessions, workdir, workers=2, timeout=800):
    """sessions: list of event lists.  Returns dict with verdicts, cuts, errors, states, consumed."""
    todo = list(range(len(sessions)))
    verdicts, cuts, errors = [], [], []
    states = gen = consumed = 0
    for attempt in range(12):
        if not todo:
            break
        fd, path = tempfile.mkstemp(suffix=".ndjson", dir=workdir)
        with os.fdopen(fd, "w") as f:
            for k in todo:
                f.write(json.dumps(sessions[k], separators=(",", ":")) + "\n")
        rc, out = run("Trace.tla", "Trace.cfg", {"TRACE_FILE": path}, workers=workers, timeout=timeout)
        os.unlink(path)
        if rc == 0:
            g, d = stats(out)
            vs = {v["sid"]: v for v in printed(out, "VERDICT")}
            cs = {v["sid"]: v for v in printed(out, "CUT")}
            expect = 0
            for j, k in enumerate(todo, 1):
                n = vs[j]["l"] if j in vs else cs[j]["l"] if j in cs else len(sessions[k])
                expect += n + 1
            if d != expect:
                raise TlcError("trace validation is incomplete: %d states, expected %d\n%s" % (d, expect, out[-2000:]))
            states += d
            gen += g
            consumed += expect - len(todo)
            for j, k in enumerate(todo, 1):
                if j in vs:
                    verdicts.append({**vs[j], "sid": k})
                if j in cs:
                    cuts.append({**cs[j], "sid": k})
            todo = []
        else:
            m = re.findall(r"^(?:/\\ )?sid = (\d+)", out, re.M)
            if not m:
                raise TlcError("TLC failed (%d):\n%s" % (rc, out[-4000:]))
            j = int(m[-1])
            em = re.search(r"Error: (.*(?:\n.*){0,6})", out)
            errors.append({"sid": todo[j - 1], "msg": em.group(1)[:500] if em else out[-300:], "out": out[-3000:]})
            del todo[j - 1]
    if todo:
        raise TlcError("too many evaluation errors: %s" % errors[-1]["msg"])
    return {"verdicts": verdicts, "cuts": cuts, "errors": errors, "states": states, "generated": gen, "consumed": consumed}
