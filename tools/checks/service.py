"""C21: every interface, every history and every schedule gives the same answer to the same request (spec/Service.tla)."""
import array, fcntl, hashlib, http.server, json, os, re, subprocess, termios, threading, time
from concurrent.futures import ThreadPoolExecutor
from vlib import drv, env, jv, rs, tlc
from vlib.env import rng

MODEL_CFG = """INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
CONSTANTS N = %d Portions = %d Emit = TRUE
INVARIANTS OwnAnswer SameKeySameAnswer Interfaces Vectors
"""
MODES = ["rust", "typescript", "typescript/typealias", "kotlin/jackson", "kotlin/kotlinx", "python", "json_schema", "zod", "shape"]
FORMATS = ["", "lowercase", "UPPERCASE", "PascalCase", "camelCase", "snake_case", "SCREAMING_SNAKE_CASE", "kebab-case", "SCREAMING-KEBAB-CASE"]
STYLES = ["add_imports", "assume_existing", "qualified_paths"]
NAMES = ["Root", "Foo", "foo_bar", "pub Foo", "pub(crate) Foo Bar", "été", "a b", "1x", "", " ", "-", "--x", " Root ", "9", "pub", "pub ", "pub(", "q\"\\", "a\nb", "{}", "$&", "HashMap", "type"]


def model(run, n, portions):
    st = tlc.run("ServiceModel", MODEL_CFG % (n, portions))
    run.model("ServiceModel", st, "%d calls, samples in %d portions, all interleavings" % (n, portions))
    return tlc.tagged(st["out"], "SCHED")


def sha(s):
    return hashlib.sha1(s.encode("utf-8", "surrogatepass") if isinstance(s, str) else s).hexdigest()[:20]


class Req:
    """What is asked for: name, options (of a block), hints, sample text."""

    def __init__(self, name, o, hints, sample):
        self.name, self.o, self.hints, self.sample = name, o, hints, sample

    def block(self, without=()):
        return rs.block({k: v for k, v in self.o.items() if k not in without}, self.hints)

    def desc(self):
        return {"name": self.name, "options": self.block(), "sample": self.sample[:200]}


def event(req, iface, answer, named=True, mode="", o=None):
    o = dict(req.o if o is None else o)
    if req.hints:
        o["hints"] = [[h["p"], h["t"]] for h in req.hints]
    if "ok" in answer:
        a, out = "ok", sha(answer["ok"])
    elif "err" in answer:
        a, out = "err", answer.get("digest") or sha(answer["err"])
    else:
        a, out = "panic" if "panic" in answer else "crash" if "crash" in answer else "hang", "?"
    return {"i": iface, "name": req.name if named else "(none)", "o": o, "m": mode, "s": sha(req.sample), "a": a, "out": out}


def sql(r):
    cols = ", ".join("%s %s%s" % (r.choice(["id", "name", "b c", "type"]).replace(" ", "_") + str(i), r.choice(["INT", "VARCHAR(9)", "DATE", "DECIMAL"]),
                                  r.choice(["", " NOT NULL"])) for i in range(r.randint(1, 4)))
    return "CREATE TABLE t (%s);" % cols


def request(r, g):
    o, hints = {}, []
    if r.random() < 0.85:
        o["output_mode"] = r.choice(MODES)
    for k in ("deny_unknown_fields", "use_default_for_missing_fields", "allow_option_vec", "collect_additional"):
        if r.random() < 0.2:
            o[k] = r.random() < 0.8
    if r.random() < 0.3:
        o["property_name_format"] = r.choice(FORMATS)
    if r.random() < 0.5:
        o["import_style"] = r.choice(STYLES)
    if r.random() < 0.2:
        o["field_visibility"] = r.choice(["", "pub", "pub(crate)"])
    if r.random() < 0.2:
        o["derives"] = r.choice(["", "Debug", "Debug, Clone", "serde::Serialize"])
    if r.random() < 0.2:
        o["unwrap"] = r.choice(["", "/", "/-", "/a", "/0"])
    if r.random() < 0.2:
        o["infer_map_threshold"] = r.choice(["", "0", "1", "2", "5"])
    if r.random() < 0.2:
        hints = [{"p": r.choice(["", "/a", "/-", "/-/a", "/b"]), "t": r.choice(["map", "Foo", "a::B"])} for _ in range(r.choice([1, 1, 2]))]
    if r.random() < 0.06:
        o["input_mode"] = "sql"
        sample = sql(r)
    else:
        sample = jv.spell(g.sample(maxsize=r.choice([6, 20, 60])), r)
        if r.random() < 0.07:
            j = r.randrange(len(sample))
            if inline(sample[:j] + sample[j + 1:]):
                sample = sample[:j] + sample[j + 1:]
    return Req(r.choice(NAMES), o, hints, sample)


def inline(sample):
    return sample.strip()[:1] in ("{", "[")


def cli(binary, argv, data=None, cwd=None, environ=None):
    env.still()
    try:
        p = subprocess.run([binary] + argv, input=data, stdin=subprocess.DEVNULL if data is None else None, capture_output=True, timeout=60, cwd=cwd, env=environ)
    except subprocess.TimeoutExpired:
        env.hung(["command line"] + argv)
        return {"hang": True}
    err = p.stderr.decode("utf-8", "replace")
    if p.returncode == 0:
        return {"ok": p.stdout.decode("utf-8", "replace")}
    if p.returncode == 1 and err.startswith("Error: ") and not p.stdout:
        return {"err": err[len("Error: "):-1]}
    return {"crash": p.returncode, "stderr": err[:300]}


def environment(r):
    e = {"PATH": os.environ.get("PATH", ""), "HOME": r.choice(["/", "/nonexistent", env.scratch()])}
    for k, vs in (("LANG", ["C", "tr_TR.UTF-8", "de_DE"]), ("LC_ALL", ["C", "ja_JP.UTF-8"]), ("TZ", ["UTC", "Asia/Tokyo"]), ("TERM", ["dumb", "xterm"]),
                  ("RUST_BACKTRACE", ["1"]), ("COLUMNS", ["10"]), ("NO_COLOR", ["1"]), ("RUST_LOG", ["trace"]), ("USER", ["x"])):
        if r.random() < 0.4:
            e[k] = r.choice(vs)
    return e


def interfaces(run, reqs, r, every=False):
    """Each request through all interfaces."""
    bin_ = env.build("drv", "json_typegen_cli", "wasmdrv")
    d = os.path.join(env.scratch(), "ifc")
    os.makedirs(d, exist_ok=True)
    cwds = [d, "/", env.scratch()]
    jobs, wasm, clis = [], [], []          # (request, interface, event arguments, call)
    libinfo, wasminfo, cliinfo = [], [], []
    for n, q in enumerate(reqs):
        path = os.path.join(d, "s%d.json" % n)
        with open(path, "w", encoding="utf-8", newline="") as f:
            f.write(q.sample)
        is_sql = q.o.get("input_mode") == "sql"
        mode = q.o.get("output_mode")

        def lib(what, req, iface="lib", q=q):
            libinfo.append((q, iface, what, {}))
            jobs.append(req)
        lib("library, options block", {"op": "gen", "name": q.name, "input": q.sample, "block": q.block()})
        if not (set(q.o) & {"allow_option_vec", "input_mode"}):
            o = {k: v for k, v in q.o.items() if k != "infer_map_threshold"}
            if q.o.get("infer_map_threshold"):
                o["infer_map_threshold"] = int(q.o["infer_map_threshold"])
            if o.get("property_name_format") == "":
                o["property_name_format"] = None
            lib("library, options set", {"op": "gen", "name": q.name, "input": q.sample, "opts": o, "block": rs.block(hints=q.hints)})
        args = rs.lit(q.name) + ", " + rs.lit(q.sample)
        blk = q.block()
        forms = [args + ", " + blk, args + ", " + rs.lit(blk)] + ([args] if blk == "{}" else [])
        form = r.choice(forms)
        lib("macro arguments", {"op": "gen", "via": "macro_input", "input": form}, "macro_input")
        lib("macro text", {"op": "gen", "via": "macro", "input": "json_typegen!(" + form + ");"}, "macro")
        if not is_sql:
            lib("library, file", {"op": "gen", "name": q.name, "input": path, "block": q.block()})
            lib("macro arguments, file", {"op": "gen", "via": "macro_input", "input": rs.lit(q.name) + "," + rs.lit(path) + "," + blk}, "macro_input")
        wasminfo.append((q, "wasm", "wasm", {}))
        wasm.append([q.name, q.sample, blk])

        def c(what, argv, data=None, iface="cli", q=q, **kw):
            cliinfo.append((q, iface, what, kw))
            clis.append((argv, data, r.choice(cwds), environment(r)))
        name = ["-n", q.name] if r.random() < 0.5 and q.name[:1] != "-" else ["--name=" + q.name]
        opts = ["--options", q.block()]
        without = dict(q.o)
        if mode:
            del without["output_mode"]
        c("CLI", [q.sample] + name + opts)
        if every or n % 2:
            c("CLI, standard input", ["-"] + name + opts, q.sample.encode())
            c("CLI, macro", ["json_typegen!(" + form + ");"] + r.choice([[], ["-n", "Other"], ["--options", "{x}"], ["-O", "zod"]]), iface="macro")
        if every or n % 3 == 0:
            c("CLI, macro through standard input", ["-"], ("\n json_typegen!(" + form + ");\n").encode(), iface="macro")
            if not is_sql:
                c("CLI, file", [path] + name + opts)
            # the flag decides
            m = r.choice(MODES + ["kotlin"])
            c("CLI, output mode flag", ["-O", m] + opts + name + [q.sample], mode=m)
            c("CLI, output mode flag alone", [q.sample, "--output-mode", m] + ["--options", q.block(("output_mode",))] + name, mode=m, o=without)
            c("CLI, no name", [q.sample] + opts, named=False)
    ans = drv.run(bin_ + "/drv", jobs)
    wans = drv.run(bin_ + "/wasmdrv", wasm, as_request=json.dumps)
    for a in wans:
        if a.get("ok", "").startswith("Error: "):
            a["err"] = a.pop("ok")[len("Error: "):]
    with ThreadPoolExecutor(8) as ex:
        cans = list(ex.map(lambda x: cli(bin_ + "/json_typegen", x[0], x[1], x[2], x[3]), clis))
    evs, info = [], []
    for meta, answers in ((libinfo, ans), (wasminfo, wans), (cliinfo, cans)):
        for (q, iface, what, kw), a in zip(meta, answers):
            evs.append(event(q, iface, a, **kw))
            info.append((q, what, a))
    return evs, info


# ------------------------------------------------------------------------------------------------ histories

def pool():
    a = '{"a":{"b":1}}'
    P = [Req("Root", {"output_mode": m}, [], a) for m in ("rust", "python", "typescript", "kotlin/jackson", "zod")]
    P += [Req("Foo", {"output_mode": "rust"}, [], a),
          Req("pub(crate) Root", {"output_mode": "rust"}, [], a),
          Req("Root", {"output_mode": "rust"}, [], '{"a":{"b":"x"}}'),
          Req("Root", {"output_mode": "rust"}, [], '{"a":{"b":"x"},"c":[{"b":"y"},{}]}'),
          Req("Root", {"output_mode": "rust"}, [{"p": "/a", "t": "Foo"}], a),
          Req("Root", {"output_mode": "rust", "property_name_format": "camelCase", "collect_additional": True}, [], a),
          Req("Root", {"output_mode": "rust", "unwrap": "/a"}, [], a),
          Req("Root", {"output_mode": "rust", "import_style": "qualified_paths"}, [], a),
          Req("Root", {"output_mode": "rust", "infer_map_threshold": "0"}, [], a),
          Req("Root", {"output_mode": "rust"}, [], '{"a":{"b":1}'),
          Req("Root", {"output_mode": "rust"}, [], '{"a":{"b":1}} x'),
          Req("Root", {"output_mode": "python"}, [], '{"root":{"Root":[{"x":1,"A B":[1,"s"]},{"x":null,"é":2}]},"roots":[{"x":1}]}'),
          Req("Root", {"output_mode": "python", "import_style": "qualified_paths"}, [], '{"root":{"Root":[{"x":1,"A B":[1,"s"]},{"x":null,"é":2}]},"roots":[{"x":1}]}'),
          Req("Root", {"output_mode": "kotlin/jackson", "import_style": "add_imports", "property_name_format": "snake_case"}, [], '{"fooBar":1,"a":{"b":[]},"$x":{"y":null}}'),
          Req("Root", {"output_mode": "json_schema"}, [], '[{"k":1},{"k":null},{}]'),
          Req("Root", {"output_mode": "shape"}, [{"p": "/-/k", "t": "map"}], '[{"k":{}},{"k":{"x":[1,2.5]}}]'),
          Req("Root", {"output_mode": "rust", "input_mode": "sql"}, [], "CREATE TABLE t (a INT)"),
          Req("Root", {"output_mode": "rust", "input_mode": "sql"}, [], "SELECT 1")]
    return P


def call(q, path=None):
    return {"op": "gen", "name": q.name, "input": path or q.sample, "block": q.block()}


def histories(run, r, n_random, long_):
    """Sequences of calls, each in a process of its own, and long histories in one process."""
    binary = env.build("drv") + "/drv"
    P = pool()
    seqs = [(i,) for i in range(len(P))] + [(i, j) for i in range(len(P)) for j in range(len(P))]
    seqs += [tuple(r.randrange(len(P)) for _ in range(r.choice([3, 3, 4, 6]))) for _ in range(n_random)]
    seqs += [tuple(r.randrange(len(P)) for _ in range(long_)) for _ in range(4)]

    def one(seq):
        proc = drv.Proc([binary], cwd=env.scratch())
        out = []
        try:
            for i in seq:
                ans, fail = proc.ask(json.dumps(call(P[i])).encode() + b"\n", 60)
                if fail:
                    proc.close()
                out.append({fail: True} if fail else json.loads(ans))
        finally:
            proc.close()
        return out
    with ThreadPoolExecutor(8) as ex:
        res = list(ex.map(one, seqs))
    evs, info = [], []
    for seq, answers in zip(seqs, res):
        for k, (i, a) in enumerate(zip(seq, answers)):
            evs.append(event(P[i], "lib", a))
            info.append((P[i], {"history": [P[j].desc() for j in seq[max(0, k - 5):k]]}, a))
    run.extra["histories"] = len(seqs)
    return evs, info


def parallel(run, r, rounds):
    """The same calls from eight threads at once."""
    binary = env.build("drv") + "/drv"
    P = pool()
    evs, info = [], []
    reqs = []
    for _ in range(rounds):
        idx = [r.randrange(len(P)) for _ in range(60)]
        reqs.append((idx, {"op": "par", "threads": 8, "reqs": [call(P[i]) for i in idx]}))
    for (idx, _), a in zip(reqs, drv.run(binary, [q for _, q in reqs], nproc=2, timeout=120)):
        if "par" not in a:
            evs.append(event(P[idx[0]], "lib", a))
            info.append((P[idx[0]], "threads", a))
            continue
        for t in a["par"]:
            for x in t:
                q = P[idx[x["i"]]]
                evs.append(event(q, "lib", x["r"]))
                info.append((q, "threads", x["r"]))
    return evs, info


def changing(run, r, n):
    """One process, asked again and again for the same file or address, whose content changes meanwhile."""
    binary = env.build("drv") + "/drv"
    docs = {}
    hr = rng("headers")

    class Handler(http.server.BaseHTTPRequestHandler):
        protocol_version = "HTTP/1.1"

        def do_GET(self):
            body = docs[self.path]
            self.send_response(200)
            for k, v in hr.choice([[], [("ETag", '"1"'), ("Cache-Control", "max-age=3600")], [("Last-Modified", "Mon, 01 Jan 2024 00:00:00 GMT"), ("Expires", "Thu, 01 Jan 2099 00:00:00 GMT")]]):
                self.send_header(k, v)
            self.send_header("Content-Length", str(len(body)))
            self.end_headers()
            self.wfile.write(body)

        def log_message(self, *a):
            pass
    server = http.server.ThreadingHTTPServer(("127.0.0.1", 0), Handler)
    threading.Thread(target=server.serve_forever, daemon=True).start()
    evs, info = [], []
    try:
        def one(k):
            proc = drv.Proc([binary], cwd=env.scratch(), env={x: y for x, y in os.environ.items() if x.lower() not in ("http_proxy", "all_proxy")})
            path = os.path.join(env.scratch(), "changing%d.json" % k)
            rr = rng("changing", k)
            g = jv.Gen(rr)
            a, b = ('{"%s": %s}' % x for x in rr.sample([("a", '1'), ("a", '"x"'), ("b", 'true'), ("a", '[1]'), ("b", '{}')], 2))
            width = max(len(a), len(b))
            pool_ = [a.ljust(width), b.ljust(width), jv.spell(g.sample(maxsize=8), rr), '{"a": 1', '[{"a":1},{}]']
            name, o = rr.choice(["Root", "Foo"]), {"output_mode": rr.choice(MODES)}
            out, past = [], []
            try:
                for _ in range(rr.choice([2, 3, 6])):
                    text = rr.choice(pool_)
                    q = Req(name, o, [], text)
                    if k % 3:
                        if rr.random() < 0.5 and os.path.exists(path):
                            os.unlink(path)
                        with open(path, "w", encoding="utf-8", newline="") as f:
                            f.write(text)
                        os.utime(path, (1700000000, 1700000000))
                        where = path
                    else:
                        docs["/%d" % k] = text.encode()
                        where = "http://127.0.0.1:%d/%d" % (server.server_address[1], k)
                    ans, fail = proc.ask(json.dumps(call(q, where)).encode() + b"\n", 60)
                    if fail:
                        proc.close()
                    ans = {fail: True} if fail else json.loads(ans)
                    out.append((q, {"earlier contents of the same " + ("file" if k % 3 else "address"): list(past)}, ans))
                    past.append(text)
                    inl, fail = proc.ask(json.dumps(call(q)).encode() + b"\n", 60)
                    if fail:
                        proc.close()
                    out.append((q, "inline", {fail: True} if fail else json.loads(inl)))
            finally:
                proc.close()
            return out
        with ThreadPoolExecutor(8) as ex:
            for out in ex.map(one, range(n)):
                for q, what, a in out:
                    if not inline(q.sample) and what == "inline":
                        continue
                    evs.append(event(q, "lib", a))
                    info.append((q, what, a))
    finally:
        server.shutdown()
        server.server_close()
    run.extra["calls_on_changing_sources"] = len(evs)
    return evs, info


def drained(fd, gone=lambda: False):
    """Wait until the reader has taken everything from the pipe."""
    buf = array.array("i", [1])
    end = time.time() + 20
    while time.time() < end:
        fcntl.ioctl(fd, termios.FIONREAD, buf)
        if buf[0] == 0:
            return True
        if gone():
            return False
        time.sleep(0.0002)
    return False


def schedules(run, r, scheds, portions, assignments, tag):
    """Replays schedules of the model: each call reads its sample from a named pipe that is fed step by step."""
    binary = env.build("drv") + "/drv"
    P = [q for q in pool() if q.o.get("input_mode") != "sql"]
    jobs = []
    for s in scheds:
        n = max(s)
        for req in assignments(n, len(P)):
            jobs.append((s, req))
    lock = threading.Lock()
    nxt = [0]
    results = [None] * len(jobs)

    def replay(proc, w, k, s, req):
        n = len(req)
        paths = [os.path.join(env.scratch(), "p%s-%d-%d-%d" % (tag, w, k, c)) for c in range(n)]
        fds, left, at, out = {}, {}, [0] * n, [None] * n
        for p in paths:
            os.mkfifo(p)
        try:
            for c1 in s:
                c = c1 - 1
                q = P[req[c]]
                if at[c] == 0:
                    ans, fail = proc.ask(json.dumps({"op": "start", "slot": c, "req": call(q, paths[c])}).encode() + b"\n", 30)
                    if fail:
                        return [{fail: True}] * n
                    end = time.time() + 20
                    while True:
                        try:
                            fds[c] = os.open(paths[c], os.O_WRONLY | os.O_NONBLOCK)
                            break
                        except OSError:
                            if time.time() > end:
                                return [{"hang": True}] * n
                            time.sleep(0.0002)
                    left[c] = q.sample.encode()
                elif at[c] <= portions:
                    b = left[c]
                    k2 = len(b) if at[c] == portions else max(1, len(b) // (portions - at[c] + 1))
                    try:
                        os.write(fds[c], b[:k2])
                        if not drained(fds[c]):
                            return [{"hang": True}] * n
                    except BrokenPipeError:
                        pass                       # the call has given up on a malformed sample
                    left[c] = b[k2:]
                else:
                    os.close(fds.pop(c))
                    ans, fail = proc.ask(json.dumps({"op": "wait", "slot": c}).encode() + b"\n", 30)
                    if fail:
                        return [{fail: True}] * n
                    out[c] = json.loads(ans)
                at[c] += 1
            return out
        finally:
            for fd in fds.values():
                os.close(fd)
            for p in paths:
                os.unlink(p)

    def work(w):
        proc = drv.Proc([binary], cwd=env.scratch())
        try:
            while True:
                with lock:
                    k = nxt[0]
                    nxt[0] += 1
                if k >= len(jobs):
                    return
                results[k] = replay(proc, w, k, *jobs[k])
                if any("hang" in x or "crash" in x for x in results[k]):
                    proc.close()
        finally:
            proc.close()
    ts = [threading.Thread(target=work, args=(w,)) for w in range(8)]
    for t in ts:
        t.start()
    for t in ts:
        t.join()
    if any(x is None for x in results):
        raise env.ToolError("a schedule was not replayed")
    evs, info = [], []
    for (s, req), answers in zip(jobs, results):
        for c, a in enumerate(answers):
            evs.append(event(P[req[c]], "lib", a))
            info.append((P[req[c]], {"schedule": s, "calls": [P[j].desc() for j in req], "call": c + 1}, a))
    run.extra["schedules_" + tag] = len(jobs)
    return evs, info


# ----------------------------------------------------------------------------------------- procedural macro

def macro_library():
    env.build("pm")
    r = subprocess.run(["cargo", "build", "--offline", "-q", "-p", "pm", "--message-format=json"], cwd=os.path.join(env.VERIF, "harness"),
                       env=env.cargo_env(), capture_output=True, text=True)
    for line in r.stdout.splitlines():
        m = json.loads(line)
        if m.get("reason") == "compiler-artifact" and m["target"]["name"] == "json_typegen" and "proc-macro" in m["target"]["kind"]:
            return [f for f in m["filenames"] if f.endswith(".so")][0]
    raise env.ToolError("no procedural macro library")


def expand(src_text, so, name):
    p = os.path.join(env.scratch(), name)
    with open(p, "w") as f:
        f.write(src_text)
    cmd = ["rustc", "--edition", "2021", "--crate-type", "lib", "-Zunpretty=expanded", "-L", os.path.join(env.TARGET, "debug", "deps"), p]
    if so:
        cmd[1:1] = ["--extern", "json_typegen=" + so]
    q = subprocess.run(cmd, capture_output=True, text=True, env=dict(os.environ, RUSTC_BOOTSTRAP="1"), timeout=200, cwd=env.scratch())
    return q.returncode, q.stdout, q.stderr


def modules(text):
    out, cur = {}, None
    for line in text.splitlines():
        m = re.match(r"mod m(\d+) \{", line)
        if m:
            cur = out.setdefault(int(m.group(1)), [])
            line = line[m.end():]
        elif line.startswith("}") and cur is not None:
            cur = None
        line = line.strip()
        if cur is not None and line:
            cur.append(line)
    return {k: "\n".join(v) for k, v in out.items()}


def macro(run, r, n):
    """The procedural macro in a compiled program: what it expands to is what the library gives for its arguments."""
    so = macro_library()
    g = jv.Gen(r, keys=jv.KEYS + ["é", "a b", "type", "q\""])
    reqs, forms = [], []
    for i in range(n):
        q = request(r, g)
        q.o["output_mode"] = "rust"
        q.name = r.choice(["Root", "Foo", "pub Foo", "pub(crate) Foo", "foo_bar"])
        q.o["derives"] = r.choice(["Debug", "Debug, Clone", "Default, Debug, PartialEq"])
        q.hints = [h for h in q.hints if h["p"]]
        reqs.append(q)
        blk = q.block()
        args = r.choice([rs.lit, raw])(q.name) + r.choice([",", ", ", " ,\n  "]) + r.choice([rs.lit, raw])(q.sample)
        forms.append(args + ", " + r.choice([blk, rs.lit(blk), blk.replace("{", "{\n  ", 1)]))
    lib = drv.run(env.build("drv") + "/drv", [{"op": "gen", "via": "macro_input", "input": f} for f in forms])
    # a serde attribute needs a derive macro that declares it
    clean = lambda t: re.sub(r"#\[serde\([^\n]*\)\]\n", "", t)  # noqa: E731
    ok = [i for i in range(n) if "ok" in lib[i]]
    bad = [i for i in range(n) if "err" in lib[i]]
    evs, info = [], []
    with_serde = [i for i in ok if clean(lib[i]["ok"]) == lib[i]["ok"]]
    use = with_serde
    a = "".join("mod m%d { json_typegen::json_typegen!(%s); }\n" % (i, forms[i]) for i in use)
    b = "".join("mod m%d { %s }\n" % (i, lib[i]["ok"]) for i in use)
    ra, ta, ea = expand(a, so, "pm_a.rs")
    rb, tb, eb = expand(b, None, "pm_b.rs")
    ma, mb = modules(ta), modules(tb)
    if rb == 0 and len(mb) != len(use):
        raise env.ToolError("expansion not understood")
    for i in use:
        x, y = ma.get(i), mb.get(i)
        if y is None:
            continue
        evs.append(event(reqs[i], "macro_input", {"ok": y}))
        info.append((reqs[i], "library text", {"ok": y}))
        evs.append(event(reqs[i], "macro_input", {"ok": x} if x is not None else {"crash": ea[:300]}))
        info.append((reqs[i], "compiled macro", {"ok": x, "stderr": ea[:600]}))
    # errors become compile errors with the whole message
    a = "".join("mod m%d { json_typegen::json_typegen!(%s); }\n" % (i, forms[i]) for i in bad)
    odd = ['"F", "{}", x "# "', '"F", "[1,2", "{}"', '"F", "{}", { x: "\\"#" }'] if n else []
    odd_lib = drv.run(env.build("drv") + "/drv", [{"op": "gen", "via": "macro_input", "input": f} for f in odd])
    a += "".join("mod m%d { json_typegen::json_typegen!(%s); }\n" % (100000 + i, f) for i, f in enumerate(odd))
    ra, ta, ea = expand(a, so, "pm_e.rs")
    norm = lambda t: re.sub(r"\s+", " ", t).strip()  # noqa: E731
    got = {}
    msgs = re.split(r"(?m)^error(?:\[E\d+\])?: ", ea)[1:]
    for m in msgs:
        at = re.search(r"pm_e\.rs:(\d+):", m)
        if at:
            got.setdefault(int(at.group(1)), []).append(norm(m.split("-->")[0]))
    lineno = 1
    for k, f in [(i, forms[i]) for i in bad] + [(100000 + i, f) for i, f in enumerate(odd)]:
        answer = lib[k] if k < 100000 else odd_lib[k - 100000]
        q = reqs[k] if k < 100000 else Req("F", {}, [], f)
        want = norm(answer.get("err", ""))
        lines = range(lineno, lineno + f.count("\n") + 1)
        lineno += f.count("\n") + 1
        found = [m for ln in lines for m in got.get(ln, [])]
        # the tokens of the macro are printed with other spaces, which may show in a message that quotes them
        squeeze = lambda t: re.sub(r"\s", "", t)  # noqa: E731
        good = len(found) == 1 and squeeze(found[0]) == squeeze(want)
        evs.append(event(q, "macro_input", {"err": want}))
        info.append((q, "library", answer))
        evs.append(event(q, "macro_input", {"err": want if good else " | ".join(found)}))
        info.append((q, "compiled macro", {"errors": found, "wanted": want}))
    run.extra["compiled_macros"] = len(use) + len(bad) + len(odd)
    return evs, info


def raw(s):
    if "\r" in s:
        return rs.lit(s)
    n = 1
    while '"' + "#" * n in s:
        n += 1
    return "r" + "#" * n + '"' + s + '"' + "#" * n


# ------------------------------------------------------------------------------------------------- verdicts

def judge(run, evs, info, label):
    """One pass of the trace specification over all events, ordered by sample."""
    order = sorted(range(len(evs)), key=lambda i: evs[i]["s"])
    ev = [dict(evs[i], id=k) for k, i in enumerate(order)]
    path = tlc.write_trace(ev)
    st = tlc.run("TraceService", "INIT TInit\nNEXT TNext\nCHECK_DEADLOCK FALSE\nPOSTCONDITION TAccepted\n", env={"TRACE": path}, workers=1)
    if st["distinct"] != len(ev) + 1:
        raise env.ToolError("trace not consumed")
    os.unlink(path)
    run.validated += len(ev)
    run.model("TraceService", st, "trace validation (%s), one step per call" % label)
    for b in tlc.tagged(st["out"], "BAD"):
        k = b["id"]
        q, what, a = info[order[k]]
        # an earlier call with the same sample to compare with
        first = next((info[order[j]] for j in range(k) if ev[j]["s"] == ev[k]["s"]), None)
        run.violation("%s: %s: %s via %s: %s" % (label, ",".join(b["tags"]), json.dumps(q.desc())[:300], json.dumps(what)[:200], json.dumps(a)[:200]),
                      {"request": {"name": q.name, "options": q.block(), "sample": q.sample}, "via": what, "answer": a,
                       "compared_with": {"via": first[1], "answer": first[2]} if first else None, "tags": b["tags"]})


def c21(run):
    quick = run.quick()
    r = rng("service")
    env.build("drv", "json_typegen_cli", "wasmdrv", "pm")
    two = model(run, 2, 2 if quick else 4)
    three = model(run, 3, 1)
    run.log("models done")
    g = jv.Gen(r, keys=jv.KEYS + ["é", "\U0001F600", "a b", "", "type", "q\"", "b\\"])
    evs, info = interfaces(run, [request(r, g) for _ in range(350 if quick else 5000)] + pool(), r)
    run.log("interfaces done")
    judge(run, evs, info, "interface")
    run.sample({"request": info[0][0].desc(), "via": info[0][1], "digest": evs[0]["out"]})
    evs, info = macro(run, r, 80 if quick else 600)
    judge(run, evs, info, "macro")
    run.log("macro done")
    evs, info = histories(run, r, 400 if quick else 6000, 300 if quick else 3000)
    e1, i1 = changing(run, r, 60 if quick else 900)
    evs, info = evs + e1, info + i1
    e2, i2 = parallel(run, r, 12 if quick else 300)
    run.log("histories done")
    pairs = [(a, b) for a in range(len(pool()) - 2) for b in range(len(pool()) - 2)]
    e3, i3 = schedules(run, r, two, 2 if quick else 4, lambda n, p: r.sample(pairs, 25 if quick else 60), "two")
    e4, i4 = schedules(run, r, three if not quick else r.sample(three, 300), 1, lambda n, p: [tuple(r.randrange(p) for _ in range(n)) for _ in range(1 if quick else 6)], "three")
    run.log("schedules done")
    judge(run, evs + e2 + e3 + e4, info + i2 + i3 + i4, "history")
    run.sample({"schedule": i4[0][1]} if i4 else {})
    run.assumptions += ["a call is interleaved with others where it reads its sample (from a named pipe) and, freely, by threads",
                        "compiled macros are compared after expansion; comments and spaces in messages that quote tokens are not compared"]
