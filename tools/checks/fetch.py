"""C04 (spelling and source) and C06 (sources that fail): transfers of spec/Fetch.tla against the code."""
import json, os, subprocess, threading
from concurrent.futures import ThreadPoolExecutor
from vlib import drv, env, jv, rs, src, tlc
from vlib.env import rng
from . import text

MODEL_CFG = """INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
CONSTANTS Emit = %s MaxIntr = %d MaxLen = %d
INVARIANTS Whole Value NothingLost Chunking Replayed Answered Vectors
"""
VOLUME_CFG = """INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
CONSTANTS HeadMax = %d UnitMax = %d TailMax = %d NMax = %d
INVARIANTS Pumping SameFuture Kept
"""
MODES = ["rust", "typescript", "typescript/typealias", "kotlin/jackson", "kotlin/kotlinx", "python", "json_schema", "zod", "shape"]


def model(run, maxlen, intr, emit=True):
    st = tlc.run("FetchModel", MODEL_CFG % ("TRUE" if emit else "FALSE", intr, maxlen))
    run.model("FetchModel", st, "documents of up to %d bytes, all partitions, %d interruptions, all endings" % (maxlen, intr))
    return tlc.tagged(st["out"], "VEC")


def answer(a):
    return "types" if "ok" in a else "error" if "err" in a else "crash"


def config(r):
    """Options of one code generation, as opts and options block."""
    o = {"output_mode": r.choice(MODES)}
    hints = []
    if r.random() < 0.15:
        o["unwrap"] = r.choice(["/-", "/a", "/0"])
    if r.random() < 0.15:
        hints = [{"p": r.choice(["/a", "/-", "", "/-/a"]), "t": r.choice(["Foo", "map"])}]
    return o, hints


def pointers(doc):
    """Some JSON pointers into a document."""
    out = []

    def go(v, p):
        out.append(p)
        if isinstance(v, list):
            for i, x in enumerate(v[:3]):
                go(x, p + "/" + str(i))
            if v:
                go(v[0], p + "/-")
        elif isinstance(v, dict):
            for k, x in list(v.items())[:6]:
                go(x, p + "/" + k.replace("~", "~0").replace("/", "~1"))
    try:
        go(json.loads(doc.decode()), "")
    except (ValueError, UnicodeDecodeError, RecursionError):
        pass
    return out


def aimed(r, doc):
    """Options whose pointers hit the document."""
    o, hints = config(r)
    ps = pointers(doc) if len(doc) < 5000 else []
    if ps and r.random() < 0.6:
        if r.random() < 0.5:
            o["unwrap"] = r.choice(ps)
        else:
            hints = [{"p": r.choice(ps), "t": r.choice(["Foo", "::a::B"])}]
    return o, hints


def partial(conf):
    return bool(conf[0].get("unwrap") or conf[1])


def gen_req(inp, conf, **kw):
    o, hints = conf
    r = {"op": "gen", "name": "Root", "opts": o}
    if hints:
        r["block"] = rs.block(hints=hints)
    if inp is not None:
        r["input"] = inp
    r.update(kw)
    return r


class Bench:
    """Runs transfers through the library (files under the preloaded library, HTTP) and through the CLI."""

    def __init__(self, run):
        self.run = run
        self.dir = os.path.join(env.scratch(), "src")
        os.makedirs(self.dir, exist_ok=True)
        self.lib = src.preload()
        self.bin = env.build("drv", "json_typegen_cli")
        self.environ = dict(os.environ, LD_PRELOAD=self.lib)
        for k in ("HTTP_PROXY", "http_proxy", "ALL_PROXY", "all_proxy"):
            self.environ.pop(k, None)

    def file(self, i, doc, plan):
        path = os.path.join(self.dir, "f%d@%s.json" % (i, plan))
        with open(path, "wb") as f:
            f.write(doc)
        return path

    def refs(self, vecs):
        """Output for the bytes of each vector at once: inline where that is possible, else from a plain file."""
        reqs, seen, idx = [], {}, []
        for v in vecs:
            key = (bytes(v["b"]), json.dumps(v["conf"]))
            if key not in seen:
                seen[key] = len(reqs)
                b = key[0]
                try:
                    inline = b.decode().strip()[:1] in ("[", "{")
                except UnicodeDecodeError:
                    inline = False
                if inline:
                    reqs.append(gen_req(b.decode(), v["conf"]))
                else:
                    reqs.append(gen_req(None, v["conf"], hex=b.hex(), path=os.path.join(self.dir, "r%d.json" % len(reqs))))
            idx.append(seen[key])
        ans = drv.run(self.bin + "/drv", reqs)
        return [ans[i] for i in idx]

    def library(self, vecs, ports):
        reqs, paths = [], []
        for i, v in enumerate(vecs):
            if v["kind"] == "file":
                p = self.file(i, bytes(v["b"]), src.schedule(v["cuts"], v["intr"], v["end"]))
                paths.append(p)
                reqs.append(gen_req(p, v["conf"]))
            else:
                reqs.append(gen_req(ports[i], v["conf"]))
        out = drv.run(self.bin + "/drv", reqs, env=self.environ)
        for p in paths:
            os.unlink(p)
        return out

    def cli(self, vecs, ports):
        def one(iv):
            env.still()
            i, v = iv
            o, hints = v["conf"]
            argv = [self.bin + "/json_typegen", "-n", "Root", "-O", o["output_mode"]]
            if o.get("unwrap") or hints:
                argv += ["--options", rs.block({k: x for k, x in o.items() if k != "output_mode"}, hints=hints)]
            e, data, path = self.environ, None, None
            if v["kind"] == "file":
                path = self.file(100000 + i, bytes(v["b"]), src.schedule(v["cuts"], v["intr"], v["end"]))
                argv.append(path)
            elif v["kind"] == "pipe":
                e = dict(e, VERIF_STDIN=src.schedule(v["cuts"], v["intr"], v["end"]))
                argv.append("-")
                data = bytes(v["b"])
            else:
                argv.append(ports[i])
            try:
                p = subprocess.run(argv, input=data, stdin=None if data is not None else subprocess.DEVNULL, capture_output=True, env=e, timeout=30, cwd=self.dir)
            except subprocess.TimeoutExpired:
                env.hung(["command line"] + argv[1:])
                return {"hang": True}
            finally:
                if path:
                    os.unlink(path)
            if p.returncode == 0:
                return {"ok": p.stdout.decode("utf-8", "replace")}
            if p.returncode == 1:
                return {"err": p.stderr.decode("utf-8", "replace"), "printed": bool(p.stdout)}
            return {"crash": p.returncode}
        with ThreadPoolExecutor(8) as ex:
            return list(ex.map(one, enumerate(vecs)))

    def transfers(self, vecs, cli_part):
        """Events of ev = "fetch" for all vectors, through the library, and through the CLI for some."""
        http = [i for i, v in enumerate(vecs) if v["kind"] not in ("file", "pipe")]
        scripts = [src.script(bytes(vecs[i]["b"]), vecs[i]["kind"], vecs[i]["status"], vecs[i]["cuts"], vecs[i]["end"]) for i in http]
        server = src.Server(scripts)
        try:
            ports = {i: server.url(j) for j, i in enumerate(http)}
            refs = self.refs(vecs)
            lib = [i for i, v in enumerate(vecs) if v["kind"] != "pipe"]
            jobs = [("library", lib, self.library), ("cli", [i for i in range(len(vecs)) if vecs[i]["kind"] == "pipe" or i in cli_part], self.cli)]
            evs, info = [], []
            for name, idx, f in jobs:
                part = [vecs[i] for i in idx]
                ans = f(part, {j: ports[i] for j, i in enumerate(idx) if i in ports})
                for i, v, a in zip(idx, part, ans):
                    res = answer(a)
                    if a.get("printed"):
                        res = "types"
                    evs.append({"ev": "fetch", "b": v["b"], "kind": v["kind"], "status": v["status"], "cuts": v["cuts"], "end": v["end"],
                                "res": res, "same": answer(a) == answer(refs[i]) and a.get("ok") == refs[i].get("ok"), "part": partial(v["conf"])})
                    info.append(dict(v, via=name, answer=a, at_once=refs[i]))
        finally:
            server.stop()
        return evs, info

    def wholes(self, docs, conf):
        """Encoded bodies, redirects, malformed responses, sources that cannot be opened."""
        scripts, meta = [], []
        for doc in docs:
            plain = len(scripts)
            scripts.append(src.script(doc, "length", 200, [len(doc)] if doc else [], "close", gap=0))
            meta.append(("plain", True, doc))
            other = [plain]
            for what, ok, s in src.whole_scripts(doc, plain):
                meta.append((what, ok, doc))
                scripts.append(s)
            n = len(scripts)
            loc = lambda k: ("HTTP/1.1 302 X\r\nLocation: /%d\r\nContent-Length: 0\r\n\r\n" % k).encode()  # noqa: E731
            scripts += [[loc(n + 1), "close"], [loc(n + 2), "close"], [loc(plain), "close"], [loc(n + 3), "close"],
                        [b"HTTP/1.1 404 X\r\nContent-Length: %d\r\n\r\n" % len(doc) + doc, "close"], [loc(n + 4), "close"]]
            meta += [("3 redirects", True, doc), ("2 redirects", True, doc), ("1 redirect", True, doc), ("redirect loop", False, doc),
                     ("error page", False, doc), ("redirect to an error page", False, doc)]
        server = src.Server(scripts)
        reqs, info = [], []
        try:
            for i, (what, ok, doc) in enumerate(meta):
                reqs.append(gen_req(server.url(i), conf))
                info.append((what, ok, doc))
            doc = docs[0]
            reqs.append(gen_req(server.url(0, "https"), conf))
            info.append(("https to a plain server", False, doc))
            reqs.append(gen_req("http://127.0.0.1:9/", conf))
            info.append(("connection refused", False, doc))
            reqs.append(gen_req("http://no-such-host.invalid/", conf))
            info.append(("unknown host", False, doc))
            for bad in ("http://", "http:///", "https://", "http://[::1", "http://127.0.0.1:99999/"):
                reqs.append(gen_req(bad, conf))
                info.append(("url " + bad, False, doc))
            d = os.path.join(self.dir, "adir")
            os.makedirs(os.path.join(d, "x.json"), exist_ok=True)
            for what, p in (("missing file", d + "/none.json"), ("directory", d), ("directory with a file name", d + "/x.json"),
                            ("path below a file", __file__ + "/x.json"), ("empty path", ""), ("path with NUL", d + "/a\0b"),
                            ("refused", self.file(0, doc, "O"))):
                reqs.append(gen_req(p, conf))
                info.append((what, False, doc))
            fifo = []
            for k in range(6):
                p = os.path.join(d, "fifo%d" % k)
                if os.path.exists(p):
                    os.unlink(p)
                os.mkfifo(p)
                reqs.append(gen_req(p, conf))
                info.append(("named pipe", True, doc))

                def feed(p=p, k=k):
                    fd = os.open(p, os.O_WRONLY)
                    for j in range(0, len(doc), k + 1):
                        os.write(fd, doc[j:j + k + 1])
                    os.close(fd)
                t = threading.Thread(target=feed, daemon=True)
                t.start()
                fifo.append(t)
            ans = drv.run(self.bin + "/drv", reqs, env=self.environ)
            as_cli = self.cli([{"kind": "url", "conf": conf}] * len(meta), {i: server.url(i) for i in range(len(meta))})
        finally:
            server.stop()
        refs = self.refs([{"b": doc, "conf": conf} for _, _, doc in info])
        evs, out = [], []
        for via, answers in (("library", ans), ("cli", as_cli)):
            for (what, ok, doc), a, ref in zip(info, answers, refs):
                res = "types" if a.get("printed") else answer(a)
                evs.append({"ev": "whole", "b": list(doc), "ok": ok, "how": "cut" if what == "chunk longer than what is there" else "", "res": res, "same": answer(a) == answer(ref) and a.get("ok") == ref.get("ok"), "part": partial(conf)})
                out.append({"what": what, "b": list(doc), "via": via, "answer": a, "conf": conf})
        return evs, out


def judge(run, evs, info, tags_bad, label):
    for lo in range(0, len(evs), 40000):
        bad = tlc.validate("TraceFetch", evs[lo:lo + 40000], run)
        for i in sorted(bad):
            if "unusable" in bad[i]:
                raise env.ToolError("%s: unusable pair %r" % (label, info[lo + i]))
            hit = bad[i] & tags_bad
            if "cut-chunk" in hit:
                run.known_finding("cut-chunk", {"sample": text.show(info[lo + i]["b"]), "via": info[lo + i]["via"]})
                hit = hit - {"cut-chunk"}
            if hit:
                v = info[lo + i]
                d = {k: v[k] for k in v if k not in ("b", "c", "at_once")}
                run.violation("%s: %s: sample %s, %s" % (label, ",".join(sorted(hit)), text.show(v["b"]), json.dumps(d)[:300]),
                              dict(d, sample_hex=bytes(v["b"]).hex(), tags=sorted(hit)))


def pick(r, vecs, n):
    return vecs if len(vecs) <= n else r.sample(vecs, n)


def text_like(b):
    """Standard input is read like an input argument: text is a sample if it begins like an object or an array."""
    return bytes(b).strip()[:1] in (b"[", b"{")


def random_vectors(r, n, big):
    """Transfers of random documents, some larger than the read buffers, some of them malformed."""
    g = jv.Gen(r, keys=jv.KEYS + ["é", "\U0001F600", "a b", ""])
    out = []
    for i in range(n):
        if i < big:
            unit = jv.spell(g.sample(maxsize=12), r).encode()
            k = r.choice([8192, 65536, 131072, 131072, 262144]) // (len(unit) + 1) + r.randint(0, 3)
            doc = b"[" + b",".join([unit] * k) + b" " * r.choice([0, 0, 3]) + b"]" + b" " * r.choice([0, 0, 5, 9000])
        else:
            doc = jv.spell(g.sample(maxsize=20), r).encode()
            if r.random() < 0.1 and doc:
                j = r.randrange(len(doc))
                doc = r.choice([doc[:j], doc[:j] + doc[j + 1:], doc + b"]", doc + b" x"])
        kind = r.choice(["file", "file", "pipe", "length", "chunked", "until"])
        endings = {"file": ["eof", "eio"], "pipe": ["eof", "eio"], "length": ["close", "close", "reset"],
                   "chunked": ["last", "last", "close", "reset", "bad", "cut"], "until": ["close", "close", "reset"]}[kind]
        end = r.choice(endings)
        sent = len(doc)
        if end in ("eio", "reset", "bad", "cut") or (end == "close" and kind in ("length", "chunked") and r.random() < 0.5):
            sent = r.choice([len(doc), max(0, len(doc) - 1), r.randint(0, len(doc)), min(len(doc), 131072), min(len(doc), 8192)])
        if kind == "length" and end == "reset" and sent == len(doc):
            sent = max(0, sent - 1)
        if kind == "pipe" and not text_like(doc):
            kind = "file"
        if end == "cut" and not sent:
            end = "bad"
        cuts, left = [], sent
        while left:
            k = min(left, r.choice([1, 2, 3, 7, 64, 1000, 4096, 65536, 131072, 200000]))
            if len(cuts) > 22:
                k = left
            cuts.append(k)
            left -= k
        intr = sorted(r.sample(range(len(cuts) + 1), min(len(cuts), r.choice([0, 0, 1, 3])))) if kind in ("file", "pipe") else []
        out.append({"b": list(doc), "kind": kind, "status": 0 if kind in ("file", "pipe") else r.choice([200, 200, 200, 203, 404, 503]),
                    "cuts": cuts, "intr": intr, "end": end})
    return out


def enumerated(run, r, quick):
    vecs = model(run, 7 if quick else 10, 1)
    vecs = [v for v in vecs if v["kind"] != "pipe" or text_like(v["b"])]
    http = [v for v in vecs if v["kind"] in ("length", "chunked", "until")]
    rest = [v for v in vecs if v["kind"] in ("file",)]
    pipe = [v for v in vecs if v["kind"] == "pipe"]
    return pick(r, rest, 4000 if quick else 40000) + pick(r, http, 2500 if quick else 20000) + pick(r, pipe, 800 if quick else 6000)


def with_conf(r, vecs):
    for v in vecs:
        v["conf"] = aimed(r, bytes(v["b"]))
    return vecs


def c06(run):
    quick = run.quick()
    r = rng("fetch")
    vecs = enumerated(run, r, quick)
    run.log("model done")
    n_enum = len(vecs)
    vecs += random_vectors(r, 400 if quick else 6000, 24 if quick else 200)
    with_conf(r, vecs)
    b = Bench(run)
    cli = set(r.sample(range(len(vecs)), 500 if quick else 5000))
    evs, info = b.transfers(vecs, cli)
    run.log("transfers done")
    run.extra["enumerated_transfers"] = n_enum
    run.extra["transfers_that_fail"] = sum(1 for e in evs if e["res"] == "error")
    for i in r.sample(range(len(evs)), 4):
        run.sample({k: evs[i][k] for k in ("kind", "status", "cuts", "end", "res")} | {"sample": text.show(evs[i]["b"]), "via": info[i]["via"]})
    judge(run, evs, info, {"prefix", "lost", "crash", "cut-chunk"}, "transfer")
    volumes(run, rng("volume"), b, quick, True)
    run.log("large samples done")
    g = jv.Gen(r)
    for k in range(2 if quick else 12):
        docs = [b'{"a":[1,2.5,null],"b":{"c":"x"}}', b"[1]" + b" " * 300, jv.spell(g.sample(maxsize=30), r).encode(), b"[[1,2],[3]]]", b"[1"][:5]
        evs, info = b.wholes(docs, config(r) if k else ({"output_mode": "rust"}, []))
        judge(run, evs, info, {"prefix", "lost", "crash", "cut-chunk"}, "response")
    run.assumptions += ["what comes through standard input is an input like an argument: a sample begins with [ or {", "a body that ends with its connection has no announced length: what arrived before an orderly close is the document",
                        "a server that neither sends nor closes is waited for",
                        "3xx responses without a Location, 206 responses to a plain request and malformed header values are not judged"]


BASE = 14      # repetitions in the short version of a large sample: TupleMax + 2 of the specification
MB = 1 << 20
# beginning, repeated unit, end
VOLUMES = [
    ("records", b'{"a":[{"x":1,"s":"a\xc3\xa9"}', b',\n {"x": 2, "y": [1.5, null], "s": "\\u00e9 b"}', b'],"b":{"c":true}}'),
    ("white space inside", b'[1,', b' \n\t ', b'{"a":"x"}]'),
    ("white space after", b'{"a":[1,2.5]}', b'\r\n    ', b''),
    ("one string", b'{"a":"', b'0123456789 ab\\ncd \xf0\x9f\x98\x80', b'","b":[false]}'),
    ("digits of a fraction", b'{"a":0.', b'1234567890', b',"b":null}'),
    ("digits of an exponent", b'[{"a":1e', b'0000000000', b'1}]'),
    ("empty objects", b'{"a":[{}', b',{}', b'],"z":1}'),
    ("lists", b'[[[1]]', b',[[2],[3, 4]]', b',[[5]]]'),
]
BROKEN = [
    ("no end", b'{"a":[1', b', 2', b']'),
    ("comma before the end", b'[1', b',    22', b',]'),
    ("text after white space", b'[1,2]', b'    \n', b'x'),
    ("second sample after white space", b'{"a":1}', b'        ', b'{}'),
    ("open string", b'{"a":"', b'bcdefgh ', b''),
    ("control character in a string", b'["', b'bcdefgh ', b'\x01"]'),
    ("invalid UTF-8 in a string", b'["', b'bcd\xc3\xa9', b'\xc3"]'),
    ("fraction without digits", b'[1.5', b', 2.5', b', 3.]'),
]


def volumes(run, r, b, quick, failing):
    """Samples of many megabytes: a beginning, a unit repeated n times, an end. `failing`: also those that must be refused."""
    cfg = (1, 2, 1, 15) if not failing else (2, 2, 1, 2)
    run.model("VolumeModel", tlc.run("VolumeModel", VOLUME_CFG % cfg), "beginning %d, unit %d, end %d tokens, up to %d repetitions" % cfg)
    jobs = []
    shapes = [(x, True) for x in VOLUMES] + ([(x, False) for x in BROKEN] if failing else [])
    kinds = ["file", "length", "chunked", "until", "pipe"]
    r.shuffle(shapes)
    for i, ((what, head, unit, tail), good) in enumerate(shapes if quick else shapes * 3):
        size = r.randint(11 * MB, 13 * MB)
        if i == 0:
            size = 34 * MB
        elif i < 3 or "white space" in what:
            size = r.randint(18, 34) * MB
        if not quick and i % 8 == 3:
            size = r.choice([70, 140]) * MB
        if not quick and i % 8 == 5:
            size = r.randint(1, 9) * MB
        kind = kinds[i % 5]
        if kind == "pipe" and not text_like(head):
            kind = "file"
        n = max(BASE + 1, (size - len(head) - len(tail)) // len(unit))
        total = len(head) + n * len(unit) + len(tail)
        end = {"file": "eof", "pipe": "eof", "chunked": "last"}.get(kind, "close")
        sent = total
        if failing and good and i % 2:
            end = r.choice({"file": ["eio"], "pipe": ["eio"], "length": ["close", "reset"], "chunked": ["close", "reset", "bad"], "until": ["reset"]}[kind])
            sent = r.choice([total, total - 1, total - len(tail), total - MB, total // 2, 10 * MB, 10 * MB + 1, 8 * MB])
            if kind == "length" and sent == total:
                sent = total - 1
        jobs.append({"what": what, "head": head, "unit": unit, "tail": tail, "n": n, "total": total, "kind": kind, "sent": min(sent, total), "end": end,
                     "status": 0 if kind in ("file", "pipe") else 200, "conf": ({"output_mode": r.choice(MODES)}, []), "cli": kind == "pipe" or r.random() < 0.4})
    answers = [None] * len(jobs)

    def body(j):
        return j["head"] + j["unit"] * j["n"] + j["tail"]

    def one(i):
        env.still()
        j = jobs[i]
        doc, e, data, path, server = body(j), dict(b.environ), None, None, None
        try:
            if j["kind"] in ("file", "pipe"):
                plan = "%d_X" % j["sent"] if j["end"] == "eio" else ""
                if j["kind"] == "pipe":
                    data = doc
                    if plan:
                        e["VERIF_STDIN"] = plan
                    where = "-"
                else:
                    where = path = os.path.join(b.dir, "v%d%s.json" % (i, "@" + plan if plan else ""))
                    with open(path, "wb") as f:
                        f.write(doc)
            else:
                cuts, left = [], j["sent"]
                while left:
                    cuts.append(min(left, MB))
                    left -= cuts[-1]
                server = src.Server([src.script(doc, j["kind"], 200, cuts, j["end"], gap=0)], procs=1)
                where = server.url(0)
            if j["cli"]:
                argv = [b.bin + "/json_typegen", "-n", "Root", "-O", j["conf"][0]["output_mode"], where]
                try:
                    p = subprocess.run(argv, input=data, stdin=None if data is not None else subprocess.DEVNULL, capture_output=True, env=e, timeout=200, cwd=b.dir)
                except subprocess.TimeoutExpired:
                    env.hung(["command line"] + argv[1:])
                    return
                if p.returncode == 0 or p.stdout:
                    answers[i] = {"ok": p.stdout.decode("utf-8", "replace")}
                else:
                    answers[i] = {"err": p.stderr.decode("utf-8", "replace")} if p.returncode == 1 else {"crash": p.returncode}
            else:
                answers[i] = drv.run(b.bin + "/drv", [gen_req(where, j["conf"])], nproc=1, timeout=200, env=e)[0]
        finally:
            if server:
                server.stop()
            if path:
                os.unlink(path)
    with ThreadPoolExecutor(6) as ex:
        list(ex.map(one, range(len(jobs))))
    env.still()
    refs = b.refs([{"b": list(j["head"] + j["unit"] * BASE + j["tail"]), "conf": j["conf"]} for j in jobs])
    evs, info = [], []
    for j, a, ref in zip(jobs, answers, refs):
        evs.append({"ev": "large", "head": list(j["head"]), "unit": list(j["unit"]), "tail": list(j["tail"]), "kind": j["kind"], "status": j["status"],
                    "sent": j["sent"], "total": j["total"], "end": j["end"], "res": answer(a), "same": answer(a) == answer(ref) and a.get("ok") == ref.get("ok")})
        info.append({"b": list(j["head"] + b"..." + j["unit"] + b"..." + j["tail"]), "what": j["what"], "via": "cli" if j["cli"] else "library", "bytes": j["total"],
                     "sent": j["sent"], "kind": j["kind"], "end": j["end"], "conf": j["conf"], "answer": {k: str(v)[:200] for k, v in a.items()}})
    run.extra["large_samples"] = {"number": len(jobs), "bytes": sum(j["total"] for j in jobs), "largest": max(j["total"] for j in jobs)}
    judge(run, evs, info, {"prefix", "differs", "lost", "crash"} if failing else {"differs", "lost", "crash"}, "large sample")


def spelled_pairs(r, n, docs):
    """Pairs of spellings of one value: enumerated byte strings, random documents respelled."""
    g = jv.Gen(r, keys=jv.KEYS + ["é", "\U0001F600", "a b", "", "q\"", "b\\", "\u2028", "\x7f"])
    out = []
    groups = {}
    for b in docs:
        t = bytes(b)
        try:
            v = json.loads(t.decode(), parse_float=lambda x: "float", parse_int=lambda x: "int-0" if x == "-0" else "int")
        except (ValueError, UnicodeDecodeError):
            continue
        groups.setdefault(json.dumps(v) + str(type(v)), []).append(t)
    for ts in groups.values():
        for a, b in zip(ts, ts[1:]):
            out.append((a, b))
    r.shuffle(out)
    out = out[:n // 2]
    while len(out) < n:
        v = g.sample(maxsize=r.choice([6, 20, 40]))
        out.append((jv.text(v).encode(), jv.spell(v, r).encode()))
    return out


def characters():
    """Every spelling of every character, in a member name."""
    out = []
    short = {'"': '\\"', "\\": "\\\\", "\b": "\\b", "\f": "\\f", "\n": "\\n", "\r": "\\r", "\t": "\\t", "/": "\\/"}
    for o in list(range(0x80)) + [0x80, 0xA0, 0xE9, 0xFF, 0x100, 0x7FF, 0x800, 0x2028, 0xD7FF, 0xE000, 0xFEFF, 0xFFFD, 0xFFFF, 0x10000, 0x1F600, 0x10FFFF]:
        ch = chr(o)
        u = ["\\u%04x" % o, "\\u%04X" % o] if o < 0x10000 else ["\\u%04x\\u%04x" % (0xD800 + ((o - 0x10000) >> 10), 0xDC00 + (o & 0x3FF))]
        if o >= 0x20 and ch not in '"\\':
            u.append(ch)
        if ch in short:
            u.append(short[ch])
        doc = lambda x: ('{"a%sb": 1, "c": {"%s": [{"%sd": null}]}}' % (x, x, x)).encode()  # noqa: E731
        out += [(doc(x), doc(y)) for x, y in zip(u, u[1:])]
    return out


def pairs(run, b, pairs_):
    reqs, confs = [], []
    for i, (x, y) in enumerate(pairs_):
        conf = config(rng("conf", i))
        confs.append(conf)
        for j, t in enumerate((x, y)):
            if i % 3 == 0 and t[:1] in (b"[", b"{"):
                reqs.append(gen_req(t.decode(), conf))
            else:
                reqs.append(gen_req(None, conf, hex=t.hex(), path=os.path.join(b.dir, "p%d-%d.json" % (i, j))))
    ans = drv.run(b.bin + "/drv", reqs)
    evs, info = [], []
    for i, (x, y) in enumerate(pairs_):
        a, c = ans[2 * i], ans[2 * i + 1]
        same = answer(a) == answer(c) and a.get("ok") == c.get("ok")
        evs.append({"ev": "pair", "b": list(x), "c": list(y), "same": same})
        info.append({"b": list(x), "other": text.show(y), "conf": confs[i], "answers": [a, c]})
    return evs, info


def c04(run):
    quick = run.quick()
    r = rng("source")
    b = Bench(run)
    vecs = with_conf(r, enumerated(run, r, quick) + random_vectors(r, 500 if quick else 6000, 30 if quick else 200))
    # only transfers that succeed matter here
    whole = [v for v in vecs if v["end"] in ("eof", "last", "close") and v["status"] < 400 and sum(v["cuts"]) == len(v["b"])]
    cli = set(r.sample(range(len(whole)), min(len(whole), 500 if quick else 5000)))
    evs, info = b.transfers(whole, cli)
    judge(run, evs, info, {"differs", "lost", "crash"}, "source")
    volumes(run, rng("volume"), b, quick, False)
    docs = [b'{"a":[1,2.5,null],"b":{"c":"x"}}', "[{\"é\":\"\U0001F600\"},{}]".encode()]
    evs2, info2 = b.wholes(docs, config(r))
    judge(run, evs2, info2, {"differs", "lost", "crash"}, "response")
    enum = []
    for name, q, t in text.ALPHABETS:
        st = text.strings_model(run, name, q - 1 if quick else q)
        enum += [d["b"] for d in st if d["m"] in ("end", "int", "zero", "frac", "exp")]
    ps = spelled_pairs(r, 3000 if quick else 40000, enum) + characters()
    evs3, info3 = pairs(run, b, ps)
    judge(run, evs3, info3, {"spelling"}, "spelling")
    run.extra.update({"transfers": len(evs), "pairs_of_spellings": len(evs3)})
    for i in r.sample(range(len(evs3)), 3):
        run.sample({"one": text.show(evs3[i]["b"]), "other": text.show(evs3[i]["c"]), "same_output": evs3[i]["same"]})
    run.assumptions += ["numbers are spelled alike if both are 64-bit integers or neither is", "objects with a repeated member name are left out"]
