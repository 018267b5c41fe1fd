"""C29: an error says what is wrong (spec/Causes.tla)."""
import json, os, re
from vlib import drv, env, jv, rs, src, tlc
from vlib.env import rng
from . import fetch, text
from .service import cli

CFG = """INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
CONSTANTS MaxLen = %d AlphabetName = "%s" Emit = TRUE
INVARIANTS Named EndNamed EndMeansMore Utf8Named EscapeNamed NoDepth Known Fault Vectors
"""
# words by which a cause is recognised; the first that fits. Other wordings are not judged.
WORDS = [("nomatch", r"unwrap|pointer"), ("hint", r"\bhint"), ("deep", r"nest|deep|depth"), ("escape", r"escape"), ("utf8", r"utf-?8|encoding"), ("sql", r"sql|create table"),
         ("macro", r"macro"), ("end", r"end of (the )?(input|file|sample)|unexpected end|\beof\b|incomplete|truncated"), ("json", r"invalid json|malformed json|not valid json"),
         ("fetch", r"fetch|status code|\bhttp|download"), ("file", r"from file|no such file|open"), ("io", r"\bi/?o\b|io-related|reading|\bread\b")]


def said(message):
    """The cause that a message names: what it ends on, else what it says before."""
    lines = [x.strip() for x in message.lower().split("\n") if x.strip()]
    if any("parsing sql" in x for x in lines):
        return "sql"
    if any("parsing a macro" in x for x in lines):
        return "macro"
    if lines and re.search("fetch|download", lines[0]):       # whatever the cause of that
        return "fetch"
    for x in lines[:0:-1] + lines[:1]:
        # what is quoted or a path does not count
        x = re.sub(r"\S*/\S*|'[^']*'|\"[^\"]*\"", " ", x)
        for name, words in WORDS:
            if re.search(words, x):
                return name
    return "other"


def outcome(a):
    return "none" if "ok" in a else said(a["err"]) if "err" in a else "crash"


def texts(run, quick):
    out = []
    for name, q, t in (("string", 5, 7), ("escape", 7, 9), ("structure", 5, 6), ("literal", 5, 7)):
        st = tlc.run("CauseModel", CFG % (q if quick else t, name), timeout=2500, heap="10g")
        run.model("CauseModel", st, "all byte strings of up to %d over alphabet %s" % (q if quick else t, name))
        found = [v["b"] for v in tlc.tagged(st["out"], "TEXT")]
        out += found
    return out


def frames(b, r):
    """A text that breaks off or is wrong, at other places of a sample."""
    return bytes(b) if r.random() < 0.5 else r.choice([b'{"a":', b"[1,", b'[{"k":[', b" \n", b'{"x":"y","b":']) + bytes(b) + r.choice([b"", b"", b"]", b"}", b',"c":1}', b" "])


def json_cases(run, r, quick):
    found = texts(run, quick)
    n = len(found)
    if len(found) > (7000 if quick else 60000):
        found = r.sample(found, 7000 if quick else 60000)
    cases = [text.case(frames(b, r)) for b in found]
    cases += text.transition_cases(text.states_model(run, 1), True) if not quick else r.sample(text.transition_cases(text.states_model(run, 1), True), 7000)
    cases += text.nesting_cases() + text.boundary_cases() + text.escape_cases(r, 300 if quick else 5000)
    cases += text.mutated(r, 3000 if quick else 40000, 0) + text.part_cases(r, 1500 if quick else 20000)
    run.extra["enumerated_texts"] = n
    return cases


def through(run, cases, r, d):
    """Answers of the library, and for some of the CLI and the WASM entry point."""
    bin_ = env.build("drv", "json_typegen_cli", "wasmdrv")
    ans = [("library", i, a) for i, a in enumerate(drv.run(bin_ + "/drv", [text.request(c, i) for i, c in enumerate(cases)]))]
    inline = []
    for i, c in enumerate(cases):
        try:
            s = bytes(c["b"]).decode()
        except UnicodeDecodeError:
            continue
        if s[:1] in ("{", "[") and s.strip() == s:
            inline.append((i, s))
    inline = r.sample(inline, min(len(inline), 1500))

    def block(c):
        return rs.block(dict({"output_mode": c.get("mode") or "rust"}, **({"unwrap": c["unwrap"]} if c.get("unwrap") else {})), hints=c.get("hints") or ())
    wans = drv.run(bin_ + "/wasmdrv", [["Root", s, block(cases[i])] for i, s in inline], as_request=json.dumps)
    for (i, _), a in zip(inline, wans):
        if "ok" in a:
            a = {"err": a["ok"][7:]} if a["ok"].startswith("Error: ") else a
        ans.append(("wasm", i, a))
    from concurrent.futures import ThreadPoolExecutor

    def one(i):
        p = os.path.join(d, "c%d.json" % i)
        with open(p, "wb") as f:
            f.write(bytes(cases[i]["b"]))
        a = cli(bin_ + "/json_typegen", ["-n", "Root", "--options", block(cases[i]), p])
        os.unlink(p)
        return ("cli", i, a)
    with ThreadPoolExecutor(8) as ex:
        ans += list(ex.map(one, r.sample(range(len(cases)), min(len(cases), 500))))
    return ans


def part_events(r, n, binary):
    """Well-formed samples that do not fit the options."""
    g = jv.Gen(r)
    reqs, evs = [], []
    for i in range(n):
        v = g.sample(maxsize=r.choice([4, 12, 30]))
        ps = fetch.pointers(jv.text(v).encode()) or [""]
        unwrap, hints = "", []
        if r.random() < 0.7:
            unwrap = r.choice([r.choice(ps), r.choice(ps) + r.choice(["/0", "/-", "/a", "/zz", "/1"]), "/" + r.choice(jv.KEYS), "/-/-"])
        if r.random() < 0.6:
            hints = [{"p": r.choice([r.choice(ps), "", "/-", "/-/-", "/a"]), "t": r.choice(["map", "map", "map", "Foo"])} for _ in range(r.choice([1, 1, 2]))]
        c = text.case(jv.spell(v, r).encode(), unwrap, hints)
        c["mode"] = r.choice(fetch.MODES)
        reqs.append(text.request(c, 500000 + i))
        evs.append({"k": "part", "val": v, "unwrap": unwrap, "hints": hints})
    for e, a in zip(evs, drv.run(binary, reqs)):
        e["said"] = outcome(a)
        e["msg"] = a
    return evs


def fault_events(run, r, quick):
    vecs = fetch.enumerated(run, r, True)
    vecs = [v for v in vecs if v["kind"] != "pipe"]
    vecs = fetch.pick(r, vecs, 3500 if quick else 8000) + fetch.random_vectors(r, 300 if quick else 4000, 15 if quick else 120)
    vecs = [v for v in vecs if v["end"] != "cut" and v["kind"] != "pipe"]
    for v in vecs:
        v["conf"] = ({"output_mode": r.choice(fetch.MODES)}, [])
    b = fetch.Bench(run)
    cli_part = set(r.sample(range(len(vecs)), 200 if quick else 2000))
    _, info = b.transfers(vecs, cli_part)
    return [{"k": "fault", "b": v["b"], "kind": v["kind"], "status": v["status"], "cuts": v["cuts"], "end": v["end"], "said": outcome(v["answer"]), "msg": v["answer"], "via": v["via"]} for v in info]


BAD_MACRO = ["", "Root", "Root,", "\"Root\",", "\"Root\" \"[]\"", "\"Root\", 1", "\"Root\", \"[]\", x", "\"Root\", \"[]\", {", "\"Root\", \"[]\", { unwrap: }", "\"Root\", \"[]\", { unwrap: 1 }",
             "\"Root\", \"[]\", { nope: 1 }", "\"Root\", \"[]\", { derives \"x\" }", "\"Root\", %s, { unwrap: x }", "\"Root\", %s, }", "\"Root\", %s, { infer_map_threshold: x }", "\"Root\" %s", "%s", "'", "\"", "/*", "\"Root\", %s, { \"a\": { x } }"]
BAD_SQL = ["", "SELECT 1", "CREATE TABLE", "CREATE TABLE t (", "CREATE TABLE t (a)", "CREATE TABLE t (a int,,)", "CREATE TABEL t (a int)", "{}", "[1]", "/no/such/file.sql", "DROP TABLE t", "CREATE TABLE t (a int", "'", "--"]
GOOD_SQL = "CREATE TABLE t (a int)"


def stage_events(r, d):
    """Requests in which several stages fail."""
    bin_ = env.build("drv", "json_typegen_cli")
    doc = b'{"a":[1,{"b":null}]}'
    good = os.path.join(d, "good.json")
    bad = os.path.join(d, "bad.json")
    for p, t in ((good, doc), (bad, doc[:-3])):
        with open(p, "wb") as f:
            f.write(t)
    adir = os.path.join(d, "adir.json")
    os.makedirs(adir, exist_ok=True)
    server = src.Server([src.script(doc, "length", s, [len(doc)], "close", gap=0) for s in (200, 404, 500, 403)] + [src.script(doc[:-3], "length", 200, [len(doc) - 3], "close", gap=0)])
    try:
        sources = [("file", good, [], doc), ("file", bad, ["parse"], doc[:-3]), ("file", adir, ["read"], b""), ("file", d, ["read"], b"")]
        for i, p in enumerate(("none.json", "no/such/dir/x.json", "good.json/x", "http", "htp://x/", "Root", "good.jsn", "é.json", "null", "\"a\"", "'x'", "a json", "http:/x.json", "https:/x.json", "http:x.json", "ftp://x/y.json", "https", "x http://127.0.0.1:9/")):
            sources.append(("file", os.path.join(d, p) if i < 3 else p, ["open"], b""))
        sources += [("url", server.url(0), [], doc), ("url", server.url(1), ["open"], b""), ("url", server.url(2), ["open"], b""), ("url", server.url(3), ["open"], b""), ("url", server.url(4), ["parse"], doc[:-3]),
                    ("url", "http://127.0.0.1:9/x.json", ["open"], b""), ("url", "http://no-such-host.invalid/", ["open"], b""), ("url", server.url(0, "https"), ["open"], b"")]
        sources += [("text", doc.decode(), [], doc), ("text", doc.decode()[:-1], ["parse"], doc[:-1]), ("text", "[1,]", ["parse"], b"[1,]"), ("text", "{", ["parse"], b"{"), ("text", "[tru]", ["parse"], b"[tru]")]
        reqs, evs = [], []

        def add(q, fails, source, b):
            reqs.append(q)
            evs.append({"k": "stage", "fails": fails, "source": source, "b": list(b)})
        for source, inp, fails, b in sources:
            for mode in r.sample(fetch.MODES, 3):
                add({"op": "gen", "name": "Root", "input": inp, "opts": {"output_mode": mode}}, fails, source, b)
            lit = rs.lit(inp)
            for m in BAD_MACRO:
                t = m.replace("%s", lit)
                add({"op": "gen", "via": "macro_input", "input": t}, ["macro"] + fails, source, b)
                add({"op": "gen", "via": "macro", "input": "json_typegen!(" + t + ")"}, ["macro"] + fails, source, b)
                add({"op": "gen", "via": "macro", "input": "json_typegen(" + t + ");"}, ["macro"] + fails, source, b)
            add({"op": "gen", "via": "macro_input", "input": "\"Root\", " + lit}, fails, source, b)
            add({"op": "gen", "via": "macro", "input": "json_typegen!(\"Root\", " + lit + ");"}, fails, source, b)
        for t in BAD_SQL:
            add({"op": "gen", "name": "Root", "input": t, "block": '{input_mode: "sql"}'}, ["parse"], "sql", b"")
            add({"op": "gen", "via": "macro_input", "input": "\"Root\", " + rs.lit(t) + ", { input_mode: \"sql\" }"}, ["parse"], "sql", b"")
        add({"op": "gen", "name": "Root", "input": GOOD_SQL, "block": '{input_mode: "sql"}'}, [], "sql", b"")
        ans = drv.run(bin_ + "/drv", reqs)
        for e, a, q in zip(evs, ans, reqs):
            e["said"], e["msg"], e["req"] = outcome(a), a, q
        for scheme in ("http:", "https:", "ftp:"):
            os.makedirs(os.path.join(d, scheme), exist_ok=True)
            with open(os.path.join(d, scheme, "good.json"), "wb") as f:
                f.write(doc)
            sources.append(("file", scheme + "/good.json", [], doc))
        for source, inp, fails, b in sources:
            a = cli(bin_ + "/json_typegen", [inp, "-n", "Root"], cwd=d)
            evs.append({"k": "stage", "fails": fails, "source": source, "b": list(b), "said": outcome(a), "msg": a, "req": ["cli", inp]})
            a = cli(bin_ + "/json_typegen", ["-n", "Root", "-"], data=inp.encode(), cwd=d)
            evs.append({"k": "stage", "fails": fails, "source": source, "b": list(b), "said": outcome(a), "msg": a, "req": ["cli, standard input", inp]})
    finally:
        server.stop()
    return evs


def c29(run):
    quick = run.quick()
    r = rng("c29")
    d = os.path.join(env.scratch(), "causes")
    os.makedirs(d, exist_ok=True)
    binary = env.build("drv") + "/drv"
    evs = []
    cases = json_cases(run, r, quick)
    for via, i, a in through(run, cases, r, d):
        c = cases[i]
        evs.append({"k": "json", "b": c["b"], "part": bool(c["unwrap"] or c["hints"]), "map": any(h["t"] == "map" for h in c["hints"]), "said": outcome(a), "msg": a, "via": via, "opts": [c["unwrap"], c["hints"]]})
    run.log("texts done", len(evs))
    evs += part_events(r, 5000 if quick else 60000, binary)
    evs += fault_events(run, r, quick)
    run.log("faults done", len(evs))
    evs += stage_events(r, d)
    keep = ("k", "b", "map", "part", "said", "val", "unwrap", "hints", "kind", "status", "cuts", "end", "fails", "source")
    for lo in range(0, len(evs), 40000):
        chunk = evs[lo:lo + 40000]
        bad = tlc.validate("TraceCauses", [{k: e[k] for k in keep if k in e} for e in chunk], run)
        for i in sorted(bad):
            e = chunk[i]
            about = {k: (text.show(x) if k == "b" else x) for k, x in e.items() if k not in ("msg",)}
            run.violation("%s: %s named: %s" % (",".join(sorted(bad[i])), e["said"], json.dumps(about)[:300]), dict(about, answer=e["msg"], tags=sorted(bad[i])))
    # messages in unknown words: what has one and the same message has to have a cause in common
    groups = {}
    for e in evs:
        if e["said"] == "other":
            groups.setdefault(re.sub(r"\S*/\S*|\d+", "#", e["msg"]["err"]), []).append(e)
    alike = [{"k": "alike", "said": "", "es": [{k: e[k] for k in keep if k in e} for e in r.sample(g, min(len(g), 60))]} for g in groups.values()]
    if alike:
        words = list(groups)
        for i, tags in sorted(tlc.validate("TraceCauses", alike, run).items()):
            run.violation("%s: one message for causes that have nothing in common: %s" % (",".join(sorted(tags)), words[i][:200]), {"message": words[i], "events": alike[i]["es"][:8], "tags": sorted(tags)})
    run.extra["unknown_wordings"] = len(alike)
    count = {}
    for e in evs:
        count[e["said"]] = count.get(e["said"], 0) + 1
    run.extra["named"] = count
    for e in r.sample([e for e in evs if e["said"] not in ("none",)], 5):
        run.sample({"what": e["k"], "named": e["said"], "answer": str(e["msg"])[:200]})
    run.assumptions += ["a cause is recognised by words of the message; of messages in other words it is only judged whether those who get one and the same have a cause in common", "whether there has to be an error at all is decided by C05 to C08, C20, C22 and C23",
                        "where a token is out of place, what is wrong inside of it may be named as well"]
