"""Running TLC and reading what it printed."""
import json, os, re, shutil, subprocess, tempfile
from .env import SPEC, ToolError, WORKERS, scratch

JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"


def run(module, cfg, env=None, workers=WORKERS, timeout=800, heap="6g", extra=(), expect_error=False, deque=False):
    """cfg: text of the configuration file. Returns stats; lines printed with PrintT(<<"TAG", ...>>) in .prints"""
    d = tempfile.mkdtemp(prefix="tlc", dir=scratch())
    for f in os.listdir(SPEC):
        if f.endswith(".tla"):
            os.symlink(os.path.join(SPEC, f), os.path.join(d, f))
    with open(os.path.join(d, module + ".cfg"), "w") as f:
        f.write(cfg)
    e = dict(os.environ)
    e.update(env or {})
    cmd = ["java", "-XX:+UseParallelGC", "-Xmx" + heap, "-Xss64m", "-XX:TieredStopAtLevel=4",
           "-cp", JARS, "tlc2.TLC", "-workers", str(workers), "-metadir", os.path.join(d, "states"),
           "-noGenerateSpecTE", "-config", module + ".cfg"] + list(extra) + [module + ".tla"]
    try:
        r = subprocess.run(cmd, cwd=d, env=e, capture_output=True, text=True, timeout=timeout, errors="replace")
    except subprocess.TimeoutExpired:
        raise ToolError("TLC timed out on " + module)
    out = r.stdout
    m = re.search(r"(\d+) states generated, (\d+) distinct states found, (\d+) states left", out)
    depth = re.search(r"depth of the complete state graph search is (\d+)", out)
    stats = {
        "rc": r.returncode, "out": out,
        "generated": int(m.group(1)) if m else 0, "distinct": int(m.group(2)) if m else 0,
        "depth": int(depth.group(1)) if depth else 0,
    }
    ok = "Model checking completed. No error has been found." in out
    if "-simulate" in extra:
        m = re.search(r"The number of states generated: (\d+)", out)
        stats["generated"] = stats["distinct"] = int(m.group(1)) if m else 0
        ok = bool(m) and r.returncode == 0 and "Error:" not in out
    stats["ok"] = ok
    if not ok and not expect_error:
        keep = os.path.join(os.path.dirname(scratch()), "tlc-failure-%s.txt" % module)
        with open(keep, "w") as f:
            f.write(out + "\n" + r.stderr)
        raise ToolError("TLC failed on %s (rc %d, log %s):\n%s" % (module, r.returncode, keep, out[-1500:]))
    shutil.rmtree(d, ignore_errors=True)
    return stats


def tagged(out, tag):
    """JSON payloads of PrintT lines of the form  "<tag> <json>"  (a printed TLA+ string),
    in an order that does not depend on how the workers of TLC were scheduled."""
    res = []
    pre = '"' + tag + " "
    for line in out.splitlines():
        if line.startswith(pre) and line.endswith('"'):
            body = line[len(pre):-1]
            # TLC prints string values with \" and \\ escaped
            body = body.replace('\\"', '"').replace("\\\\", "\\") if "\\" in body else body
            res.append(body)
    return [json.loads(b) for b in sorted(res, key=lambda b: (len(b), b))]


def write_trace(events):
    fd, path = tempfile.mkstemp(prefix="trace", suffix=".ndjson", dir=scratch())
    with os.fdopen(fd, "w") as f:
        for e in events:
            f.write(json.dumps(e, ensure_ascii=True) + "\n")
    return path


def validate(module, events, run_obj=None, constants="", timeout=800, heap="8g"):
    """Validate recorded events against a trace specification. Returns {event id: set of tags}.

    The trace specification prints  "BAD {"id":..,"tags":[..]}"  for every event it cannot explain
    and has the postcondition that every event was consumed."""
    if not events:
        return {}
    for i, e in enumerate(events):
        e["id"] = i
    path = write_trace(events)
    cfg = "INIT TInit\nNEXT TNext\nCHECK_DEADLOCK FALSE\nPOSTCONDITION TAccepted\n" + constants
    st = run(module, cfg, env={"TRACE": path}, timeout=timeout, heap=heap)
    if st["distinct"] != len(events) + WORKERS:
        raise ToolError("trace of %d events, but TLC consumed %d" % (len(events), st["distinct"] - WORKERS))
    os.unlink(path)
    bad = {}
    for b in tagged(st["out"], "BAD"):
        bad[b["id"]] = set(b["tags"])
    if run_obj is not None:
        run_obj.validated += len(events)
        run_obj.model(module, st, "trace validation, one step per recorded event")
    return bad
