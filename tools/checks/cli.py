"""C22: runs of the command line program and the files around it (spec/CliFs.tla)."""
import hashlib, json, os, random, re, shutil, subprocess, threading, time
from concurrent.futures import ThreadPoolExecutor
from vlib import drv, env, jv, rs, src, tlc
from vlib.env import rng
from .service import drained

CFG = """INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
CONSTANTS Runs = %d Emit = %s Kill = %s Faults = %s
INVARIANTS Complete OneStep NothingEarly OnlyTarget Whole Vectors
"""
MODES = ["rust", "typescript", "typescript/typealias", "kotlin/jackson", "kotlin/kotlinx", "python", "zod", "shape"]
NAMES = ("F", "G", "S")


def dig(b):
    if b is None:
        return "-"
    if isinstance(b, str):
        b = b.encode("utf-8", "surrogatepass")
    return hashlib.sha1(b).hexdigest()[:20] if b else ""


def read(path):
    try:
        with open(path, "rb") as f:
            return f.read()
    except FileNotFoundError:
        return None


class Seq:
    """A directory with files, and runs in it."""

    def __init__(self, k, bin_, r, first):
        self.dir = os.path.join(env.scratch(), "cli%d" % k)
        self.lib = src.preload()
        self.bin, self.r = bin_, r
        os.makedirs(self.dir + "/d/t")
        self.events, self.info, self.refs = [], [], []
        for n, c in first.items():
            p = self.dir + "/d/" + n
            if n != "S" and r.random() < 0.2:             # the name may be a link, to a file that is there or not
                os.symlink("t/" + n, p)
            if c is not None:
                with open(p, "wb") as f:
                    f.write(c)
                if r.random() < 0.2:
                    os.chmod(p, 0o444)
        self.event({"k": "init", "fs": self.look()}, None)

    def look(self):
        return {n: dig(read(self.dir + "/d/" + n)) for n in NAMES}

    def event(self, e, info):
        self.events.append(e)
        self.info.append(info)

    def nowhere(self):
        """A target that cannot be written."""
        r, d = self.r, self.dir + "/d"
        k = r.choice(["dir", "dir/", "parent", "file/", "", "long", "loop", "full"])
        if k == "loop" and not os.path.islink(d + "/loop"):
            os.symlink("loop", d + "/loop")
        return {"dir": "t", "dir/": "t/", "parent": "no/such", "file/": "S/x", "": "", "long": "n" * 300, "loop": "loop", "full": "/dev/full"}[k]

    def path(self, n):
        return self.r.choice([n, "./" + n, self.dir + "/d/" + n, "t/../" + n])

    def run(self, what):
        """what: in, o, mode of CliModel, with any of the extras below."""
        r = self.r
        d = self.dir + "/d"
        mode = "json_schema" if what["mode"] == "schema" else r.choice(MODES)
        o = {}
        if r.random() < 0.2:
            o["unwrap"] = r.choice(["/-", "/a", "/"])
        if r.random() < 0.2:
            o["property_name_format"] = r.choice(["camelCase", "snake_case"])
        flag = r.random() < 0.5
        name = r.choice([None, "Root", "Foo", "foo bar", "é"])
        block = rs.block(dict(o, output_mode=mode))
        argv, data, stdin = [], None, None
        sample = what.get("sample")
        kind = what["in"]
        ref = {"op": "gen", "name": name or "Root", "block": block}
        if kind in ("text", "bad text"):
            text = sample if kind == "text" else what["bad"]
            ref["input"] = text
            if isinstance(text, bytes):  # not UTF-8
                argv, data, ref = ["-"], text, None
            elif len(text) > 60000 or r.random() < 0.5:
                argv, data = ["-"], text.encode()
            else:
                argv = [text]
        elif kind in ("macro", "bad macro"):
            args = rs.lit(name or "Root") + "," + rs.lit(sample) + "," + block
            text = "json_typegen!(" + args + ")"
            if kind == "bad macro":
                forms = [text[:-1], "json_typegen!(" + args + " x)", "json_typegen!(" + args[:-2] + ")", "json_typegen!()", "json_typegen!"]
                if isinstance(what["bad"], str):
                    forms.append("json_typegen!(" + rs.lit("R") + "," + rs.lit(what["bad"]) + ")")
                else:
                    forms.append(spoil(r, text))
                text = r.choice(forms)
            ref = {"op": "gen", "via": "macro", "input": text}
            if isinstance(text, bytes):
                argv, data, ref = ["-"], text, None
            elif len(text) > 60000 or r.random() < 0.4:
                argv, data = ["-"], text.encode()
            else:
                argv = [text]
        elif kind == "bad options":
            text = sample
            ref = {"op": "gen", "name": name or "Root", "input": text, "block": r.choice(["{", "{ nope: 1 }", "{ derives: 1 }", "{} x", "x", "{ output_mode: }"])}
            flag, block = False, ref["block"]
            if len(text) > 60000 or r.random() < 0.4:
                argv, data = ["-"], text.encode()
            else:
                argv = [text]
        elif kind in NAMES:
            content = read(d + "/" + kind)
            if content is not None and r.random() < 0.3:
                argv, stdin = ["-"], d + "/" + kind
                try:
                    text = content.decode()
                    ref["input"] = text
                except UnicodeDecodeError:
                    ref = None
            else:
                argv = [self.path(kind)]
                c = os.path.join(env.scratch(), "ref-" + dig(content))
                if content is not None and not os.path.exists(c):
                    with open(c + "." + str(threading.get_ident()), "wb") as f:
                        f.write(content)
                    os.replace(c + "." + str(threading.get_ident()), c)
                ref["input"] = c
        elif kind == "never":                 # runs that cannot succeed
            ref = None
            argv = r.choice([["t"], ["no/such/file"], ["S/x"], ["-n", "X"], ["--nope", sample[:100]], ["-O", "nope", "S"], ["S", "S"], ["n" * 300],
                             [what["url"] + "/%d" % r.randrange(4)], [what["url"] + "/%d" % r.randrange(4)], ["http://127.0.0.1:1/x"], ["json_typegen!(1)"], [""], ["-o"]])
            if argv in (["-o"],) and what["o"]:
                argv = ["t"]
        if kind != "bad macro" and kind != "macro" and kind != "never":
            if flag:
                argv += ["-O", mode]
                ob = rs.block(o)
                if ob != "{}" or r.random() < 0.5:
                    argv += ["--options", ob]
            else:
                argv += ["--options", block]
            if name:
                argv += r.choice([["-n", name], ["--name", name]])
        if kind == "never" and r.random() < 0.5 and argv != ["-o"]:
            argv += ["-O", mode]
        sink = True
        target = what["o"]
        if target == "nowhere":
            argv_o = ["-o", self.nowhere()]
            sink = False
        elif target:
            argv_o = [r.choice(["-o", "--output"]), self.path(target)]
        else:
            argv_o = []
        argv = argv_o + argv if r.random() < 0.5 else argv + argv_o
        full = False
        if not target and r.random() < 0.05:
            full, sink = True, False
        dead = what.get("kill", False)
        out = open("/dev/full", "wb") if full else subprocess.PIPE
        inp = open(stdin, "rb") if stdin else subprocess.PIPE if data is not None else subprocess.DEVNULL
        watch = data is not None and (dead or r.random() < 0.3)
        env.still()
        environ, torn, writes = None, False, ""
        if not full and sink and r.random() < 0.35:       # writes that take less than they are given, are interrupted or fail
            items = [r.choice(["E", "1", "2", "7", "30", "100", "4096", "60000"]) for _ in range(r.choice([1, 2, 4, 12]))]
            torn = r.random() < 0.25
            if torn:                                      # never so much that all of a result fits
                items = [r.choice(["E", "1", "2", "3"]) for _ in range(r.choice([0, 1, 3]))] + ["X"]
            writes = "_".join(items)
            environ = dict(os.environ, LD_PRELOAD=self.lib, VERIF_WRITE=writes)
        p = subprocess.Popen([self.bin] + argv, cwd=d, stdin=inp, stdout=out, stderr=subprocess.PIPE, env=environ)
        try:
            if watch:
                k = r.randrange(len(data))
                p.stdin.write(data[:k])
                p.stdin.flush()
                drained(p.stdin.fileno(), lambda: p.poll() is not None)
                time.sleep(0.002)
                self.event({"k": "mid", "obs": {"fs": self.look()}}, {"argv": argv, "after": k})
                if dead:
                    p.kill()
                data = data[k:]
            try:
                so, se = p.communicate(None if dead else data, timeout=60)
            except subprocess.TimeoutExpired:
                env.hung(["command line"] + argv)
                p.kill()
                so, se = p.communicate()
        except BrokenPipeError:
            so, se = p.communicate()
        finally:
            for f in (out, inp):
                if hasattr(f, "close"):
                    f.close()
        obs = {"exit": p.returncode if p.returncode >= 0 else 128 - p.returncode, "stdout": dig(so or b""), "msg": bool((se or b"").strip()), "fs": self.look()}
        self.refs.append((len(self.events), ref))
        self.event({"k": "run", "run": {"o": target, "sink": sink, "dead": bool(dead and watch), "torn": torn}, "obs": obs},
                   {"argv": [a[:300] for a in argv], "stdin": bool(stdin or data), "writes": writes, "what": {x: y for x, y in what.items() if x in ("in", "o", "mode")},
                    "exit": p.returncode, "stderr": (se or b"").decode("utf-8", "replace")[:300], "stdout": (so or b"").decode("utf-8", "replace")[:200]})

    def done(self):
        shutil.rmtree(self.dir, ignore_errors=True)


def play(run, plans, label):
    """plans: (first files, runs). Returns nothing; reports violations."""
    bin_ = env.build("json_typegen_cli", "drv")
    src.preload()

    def one(k):
        first, runs, r = plans[k]
        s = Seq(k, bin_ + "/json_typegen", r, first)
        try:
            for w in runs:
                s.run(w)
        finally:
            s.done()
        return s
    with ThreadPoolExecutor(8) as ex:
        seqs = list(ex.map(one, range(len(plans))))
    want = {}
    for s in seqs:
        for _, ref in s.refs:
            if ref is not None:
                want.setdefault(json.dumps(ref, sort_keys=True), ref)
    keys = list(want)
    ans = dict(zip(keys, drv.run(bin_ + "/drv", [want[k] for k in keys])))
    evs, info = [], []
    for s in seqs:
        for i, ref in s.refs:
            a = {"err": ""} if ref is None else ans[json.dumps(ref, sort_keys=True)]
            s.events[i]["run"]["ref"] = {"a": "ok", "out": dig(a["ok"])} if "ok" in a else {"a": "err", "out": ""}
        evs += s.events
        info += [(i, s) for i in s.info]
    for i, e in enumerate(evs):
        e["id"] = i
    path = tlc.write_trace(evs)
    st = tlc.run("TraceCli", "INIT TInit\nNEXT TNext\nCHECK_DEADLOCK FALSE\nPOSTCONDITION TAccepted\n", env={"TRACE": path}, workers=1)
    if st["distinct"] != len(evs) + 1:
        raise env.ToolError("trace not consumed")
    os.unlink(path)
    run.validated += len(evs)
    run.model("TraceCli", st, "trace validation (%s), one step per run or look at the files" % label)
    for b in tlc.tagged(st["out"], "BAD"):
        i, s = info[b["id"]]
        run.violation("%s: %s: %s" % (label, ",".join(b["tags"]), json.dumps(i)[:500]),
                      {"tags": b["tags"], "run": i, "event": evs[b["id"]], "sequence": s.info})
    n = sum(e["k"] == "run" for e in evs)
    ok = sum(e["k"] == "run" and e["obs"]["exit"] == 0 for e in evs)
    run.extra["runs_" + label] = {"sequences": len(plans), "runs": n, "successful": ok}
    return seqs


def spoil(r, sample):
    """The sample with bytes that are not UTF-8 inside a string or key."""
    b = sample.encode()
    at = [m.start() + 1 for m in re.finditer(b'"', b)]
    j = r.choice(at)
    return b[:j] + r.choice([b"\xff", b"\xe9", b"\xc3", b"\xed\xa0\x80", b"\xc0\x80", b"\x80", b"\xf8\x88\x80\x80\x80"]) + b[j:]


def concrete(r, g, plan, url):
    """Contents for the tokens of a plan."""
    sample = '{"a": %s, "b": %s}' % (jv.spell(g.sample(maxsize=r.choice([2, 10, 60])), r), r.choice(["1", '"x"', "[null,2]"]))
    if r.random() < 0.03:
        sample = json.dumps([{"k%d" % i: i, "s": "x" * r.randrange(40)} for i in range(r.choice([300, 3000]))])
    bad = r.choice([sample[:-1], sample + "]", sample[:len(sample) // 2] or "{", sample + " x"] + 2 * [spoil(r, '{"a": "", "b": [1]}')])
    old = r.choice([b"x", b"old\n", b"", b"\xff\xfe\x00", b"y" * 200, b"pub struct Root {}\n" * r.choice([1, 400]), b"z" * 200000, spoil(r, '{"a": "", "b": [1]}')])
    first = {}
    for n, c in plan["fs"].items():
        first[n] = None if c == "-" else sample.encode() if c == "sample" else old
    runs = []
    for w in plan["runs"]:
        w = dict(w, sample=sample, bad=bad, url=url)
        runs.append(w)
    return first, runs


def c22(run):
    quick = run.quick()
    r = rng("cli")
    st = tlc.run("CliModel", CFG % (2, "FALSE", "TRUE", "TRUE"))
    run.model("CliModel", st, "all sequences of 2 runs, killed at any step or not, writes in portions and failing")
    if not quick:
        st = tlc.run("CliModel", CFG % (3, "FALSE", "FALSE", "FALSE"), timeout=3000, heap="16g")
        run.model("CliModel", st, "all sequences of 3 runs")
    st = tlc.run("CliModel", CFG % (2, "TRUE", "FALSE", "FALSE"))
    plans = tlc.tagged(st["out"], "RUNS")
    run.log("model done", len(plans), "behaviours")
    doc = b'{"a": [1, 2, 3]}'
    server = src.Server([src.script(doc, "length", 404, [len(doc)], "close"), src.script(doc, "length", 500, [len(doc)], "close"),
                         src.script(doc, "length", 200, [len(doc) - 1], "reset"), src.script(doc + b"]", "length", 200, [len(doc) + 1], "close")])
    url = server.url(0)[:-2]
    try:
        both(run, r, plans, quick, url)
    finally:
        server.stop()
    run.assumptions += ["the process runs as root, so that permissions do not stop it; targets that cannot be written are directories, missing parents, links to themselves, overlong names and /dev/full",
                        "what a file holds when writing the complete result fails half-way is not judged, nor whether a link is followed or replaced",
                        "a process is killed while it waits for its input"]


def both(run, r, plans, quick, url):
    g = jv.Gen(r)
    chosen = r.sample(plans, 2200) if quick else plans
    p = [concrete(r, g, x, url) + (random.Random(r.random()),) for x in chosen]
    play(run, p, "model")
    run.log("behaviours of the model done")
    # longer sequences, with runs that cannot succeed and runs that are killed while they read
    kinds = ["text", "bad text", "macro", "bad macro", "bad options", "F", "G", "S", "never"]
    p = []
    for i in range(250 if quick else 4000):
        plan = {"fs": {"F": r.choice(["-", "old", "sample"]), "G": r.choice(["-", "old"]), "S": r.choice(["sample", "sample", "old"])}, "runs": []}
        for _ in range(r.choice([3, 4, 6])):
            w = {"in": r.choice(kinds), "o": r.choice(["", "F", "F", "G", "G", "nowhere"]), "mode": r.choice(["types", "types", "schema"])}
            if w["in"] in ("text", "bad text", "macro") and r.random() < 0.3:
                w["kill"] = True
            plan["runs"].append(w)
        p.append(concrete(r, g, plan, url) + (random.Random(r.random()),))
    s = play(run, p, "long")
    run.log("long sequences done")
    run.sample({"sequence": [i for i in s[0].info if i][:3]})
