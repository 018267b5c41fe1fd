"""C25: every input to every entry point gets types or an error (spec/Robust.tla)."""
import json, os, re, subprocess
from concurrent.futures import ThreadPoolExecutor
from vlib import drv, env, jv, rs, tlc
from vlib.env import rng

CFG = """INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
CONSTANTS Limit = %d MaxFrames = %d Emit = %s
INVARIANTS Closed Bounded Ends TooDeep BalancedNeeds BalancedGets
"""
MODES = ["rust", "typescript", "typescript/typealias", "kotlin/jackson", "kotlin/kotlinx", "python", "json_schema", "zod", "shape"]
FORMATS = ["lowercase", "uppercase", "PascalCase", "camelCase", "snake_case", "SCREAMING_SNAKE_CASE", "kebab-case", "SCREAMING-KEBAB-CASE", "", "x"]
STACK = 2 << 20  # of a thread in Rust, unless asked for otherwise
TOKEN = {"k": '"k"', "j": '"j"', "m": '"m"', "s": '"s"'}


def text(toks):
    return "".join(TOKEN.get(t, t) for t in toks)


def outcome(a):
    if "ok" in a:
        return "types"
    if "err" in a:
        return "error"
    return "panic" if "panic" in a else "crash" if "crash" in a else "hang"


def probe(binary):
    """How deep a sample may be nested."""
    def ok(n):
        return "ok" in drv.run(binary, [{"op": "pump", "stack": STACK, "name": "Root", "input": [["[", n], "1", ["]", n]], "opts": {"output_mode": "shape"}}])[0]
    if not ok(1):
        return 0
    lo, hi = 1, 2
    while hi < 20000 and ok(hi):
        lo, hi = hi, hi * 2
    while hi - lo > 1:
        m = (lo + hi) // 2
        lo, hi = (m, hi) if ok(m) else (lo, m)
    return lo


def depth_jobs(run, r, nests, limit):
    jobs, evs = [], []
    quick = run.quick()
    for s in nests:
        per = sum(t in "[{" for t in s["v"])
        own = sum(t in "[{" for t in s["w"])
        ns = {1, max(1, (limit - own) // per), max(1, (limit - own) // per + 1), max(1, limit // per - 1), r.choice([2, 3, limit // per + 2, 2000]), r.choice([500, 20000, 100000])}
        for n in sorted(ns):
            # comparing many nested declarations takes long
            mode = r.choice(MODES) if n * per < 60 or r.random() < (0.05 if quick else 0.5) else r.choice(["typescript/typealias", "json_schema", "zod", "shape"])
            q = {"op": "pump", "stack": STACK, "name": "Root", "input": [[text(s["v"]), n], text(s["w"]), [text(s["x"]), n]]}
            extra = r.random()
            o, hints = {"output_mode": mode}, []
            if extra < 0.15:
                hints = [{"p": r.choice(["", "/k", "/-", "/k/k", "/-/-"]), "t": r.choice(["Foo", "a::B"])}]
            elif extra < 0.25:
                o["infer_map_threshold"] = r.choice(["0", "1"])
            if mode == "json_schema":
                hints = []
            q["block"] = rs.block(o, hints)
            whole = True
            jobs.append(q)
            evs.append({"d": [{"u": [], "v": s["v"], "w": s["w"], "x": s["x"], "y": [], "n": n}], "whole": whole, "what": "nested sample"})
            # cut off, with something behind, and behind an unwrapped value
            if r.random() < 0.4:
                q2 = dict(q, input=q["input"][:2] if r.random() < 0.5 else q["input"] + [r.choice(["]", "}", "1", "x"])])
                jobs.append(q2)
                d = {"u": [], "v": s["v"], "w": s["w"], "x": [], "y": [], "n": n}
                evs.append({"d": [d], "whole": False, "what": "nested sample, spoiled"})
            if r.random() < 0.3 and n != limit:
                q3 = dict(q, input=['{"zz":1,"a":'] + q["input"] + ["}"], block='{unwrap: "%s", output_mode: "%s"}' % (r.choice(["/a", "/zz", "/a/k", "/a/-"]), mode))
                jobs.append(q3)
                d = {"u": ["{"], "v": s["v"], "w": s["w"], "x": s["x"], "y": ["}"], "n": n}
                evs.append({"d": [d], "whole": False, "what": "nested sample, unwrapped"})
    return jobs, evs


def pump_jobs(r, pumps, ns):
    jobs, evs = [], []
    for s in pumps:
        k, v = s["kind"], "".join(s["v"])
        for n in ns:
            q = {"op": "pump", "stack": STACK, "name": "Root"}
            mode = r.choice(MODES)
            if k == "json":
                q.update(input=[s["u"], [v, n], r.choice(["", "", "]", "}", '"', "1"])], opts={"output_mode": mode})
                if r.random() < 0.2:
                    q["opts"]["unwrap"] = r.choice(["/k", "/-", "/k/-"])
            elif k == "block":
                q["block"] = [s["u"], [v, n], r.choice(["", " }", "\" }", "} }", "\"}}"])]
                if r.random() < 0.3 and n < 100:
                    q["op2"] = "opts"
                else:
                    q["input"] = '[{"a": {"x": [1, null]}}]'
            elif k == "sql":
                q.update(input=[s["u"], [v, n], r.choice(["", ")", "1", "))", "a)"])], block='{input_mode: "sql", output_mode: "%s"}' % mode)
            elif k == "macro":
                q.update(via=r.choice(["macro", "macro_input"]), input=[s["u"], [v, n], r.choice(["", "\"", ")", "\"#", " }"])])
            else:
                nm = [s["u"], [v, n]]
                js = json.dumps(v)[1:-1]
                o = {"output_mode": mode}
                if r.random() < 0.5:
                    o["property_name_format"] = r.choice(FORMATS[:8])
                if r.random() < 0.3:
                    o["import_style"] = r.choice(["add_imports", "assume_existing", "qualified_paths"])
                where = r.randrange(5)
                if where == 0:
                    q.update(name=nm, input='[{"a":{"b":1}},{"a":{"b":null,"c":[{}]}}]', opts=o)
                elif where == 1:
                    key = s["u"] + "\", \"".join([""])
                    q.update(input=['{"', key, [js, n], '": [{"x":1}], "', [js, n], 's": {"y":[{"z":2}]}}'], opts=o)
                elif where == 2:
                    q.update(input=['[{"', s["u"], [js, n], '": [1.5]}, {}]'], opts=o)
                elif where == 3:
                    esc = rs.lit(v)[1:-1]
                    o = dict(o)
                    q.update(input='{"a": {"b": [1]}}', block=['{ output_mode: "%s", "/%s": { use_type: "%s' % (mode, r.choice(["a", "a/b", "-", "", "a/b/-"]), s["u"]), [esc, n], '" } }'])
                else:
                    esc = rs.lit(v)[1:-1]
                    q.update(input='{"a": {"b": [1]}}', block=['{ output_mode: "%s", %s: "%s' % (mode, r.choice(["unwrap", "derives", "field_visibility", "type_visibility", "property_name_format", "import_style", "infer_map_threshold", "input_mode", "output_mode"]), s["u"]), [esc, n], '" }'])
            jobs.append(q)
            evs.append({"d": [], "whole": False, "what": k})
    return jobs, evs


WEIRD = ["", " ", "a", "A", "é", "ñandú", "ß", "İ", "ı", "ŉ", "日本", "😀", "̈x", "ẍ", "1", "1a", "_", "__", "-", "--a", "a-b_c d", "$", "$ref", "#", "\"", "\\", "\n", "\u0000", "\u2028", "ﬁ",
         "self", "Self", "crate", "super", "type", "class", "None", "true", "_1", "é1", "1é", "ΑΒΓ", "ǅ", "ab" * 200, "Vec", "Option", "String", "Value", "s", "es", "ies", "sses", "statuses", "ŝs", "éies", "ẞ", "𝒜", "a\u200db", "\ufeff", "\u202e", "æther", "I", "_é", "A\u0301"]


def fuzz_jobs(r, n):
    g = jv.Gen(r, keys=WEIRD, strs=["", "x", "\u0000", "é\U0001f600", "1", "http://a", "*/", "\"", "\\"], maxdepth=6)
    jobs = []
    for _ in range(n):
        sample = g.sample(maxsize=r.choice([5, 20, 100]))
        t = jv.spell(sample, r)
        k = r.random()
        if k < 0.25 and t:
            i = r.randrange(len(t))
            j = min(len(t), i + r.choice([0, 1, 1, 2, 5]))
            t = t[:i] + r.choice(["", "[", "}", "\"", "\\", "\u0000", "é", "-", "1e", t[i:j] * 2, ",", ":", "null"]) + t[j:]
        o, hints = {"output_mode": r.choice(MODES)}, []
        for key in ("deny_unknown_fields", "use_default_for_missing_fields", "allow_option_vec", "collect_additional"):
            if r.random() < 0.25:
                o[key] = r.random() < 0.7
        if r.random() < 0.5:
            o["property_name_format"] = r.choice(FORMATS)
        if r.random() < 0.4:
            o["import_style"] = r.choice(["add_imports", "assume_existing", "qualified_paths", "?"])
        if r.random() < 0.2:
            o["field_visibility"] = r.choice(["", "pub", "pub(crate)", "é"])
        if r.random() < 0.2:
            o["derives"] = r.choice(["", "Debug", "é", "::", ",", "Default,"])
        if r.random() < 0.3:
            o["unwrap"] = r.choice(["", "/", "/-", "a", "//", "/~", "/~2", "/-/-", "/0", "/" + r.choice(WEIRD), "-/a", "#/a"])
        if r.random() < 0.3:
            o["infer_map_threshold"] = r.choice(["", "0", "1", "-1", "18446744073709551615", "18446744073709551616", "1.5", "x", " 3"])
        if r.random() < 0.3:
            hints = [{"p": r.choice(["", "/", "/a", "/-", "/~", "/" + r.choice(WEIRD), "/-/" + r.choice(WEIRD), "a", "//a"]), "t": r.choice(["map", "", "Foo", "é", "a::B", "<", "Vec<u8>", "*"])} for _ in range(r.choice([1, 2, 3]))]
        if r.random() < 0.05:
            o["input_mode"] = r.choice(["sql", "json", "xml"])
        name = r.choice(WEIRD) if r.random() < 0.6 else r.choice(["Root", "pub Foo", "pub(crate) X", "pub", "pub(", "pub(é) x", "pub ", "::", "a::B"])
        q = {"op": "pump", "stack": STACK, "name": name, "input": t, "block": rs.block(o, hints)}
        if r.random() < 0.1:
            q["via"] = r.choice(["macro", "macro_input"])
            args = rs.lit(name) + ", " + rs.lit(t) + ", " + q.pop("block")
            q["input"] = args if q["via"] == "macro_input" else "json_typegen!(%s)%s" % (args, r.choice([";", "", " ; "]))
        elif r.random() < 0.15:
            # as a file, with bytes that are not UTF-8
            b = bytearray(t.encode("utf-8", "surrogatepass"))
            for _ in range(r.choice([0, 1, 1, 3])):
                b = b or bytearray(b"{")
                b[r.randrange(len(b)):r.randrange(len(b)) + 1] = bytes([r.choice([0xff, 0xc3, 0x80, 0xf0, 0xed, 0, 0x1a, 0x22, 0x5c, r.randrange(256)])])
            q["hex"] = bytes(b).hex()
            q["path"] = os.path.join(env.scratch(), "f%d" % len(jobs))
        jobs.append(q)
    return jobs


def shape_jobs(r, n):
    names = WEIRD

    def sh(d):
        k = r.choice(["bottom", "any", "bool", "string", "integer", "floating", "null", "opaque"] + (["vec", "map", "tuple", "optional", "nullable", "struct", "struct", "struct", "hole"] * 2 if d else []))
        if k in ("vec", "map", "optional", "nullable"):
            return {"k": k, "e": sh(d - 1)}
        if k == "tuple":
            return {"k": k, "es": [sh(d - 1) for _ in range(r.choice([0, 1, 2, 3, 4, 13]))], "c": r.choice([0, 1, 2])}
        if k == "struct":
            return {"k": k, "f": [{"n": nm, "s": sh(d - 1)} for nm in r.sample(names, r.choice([0, 1, 2, 3, 6]))]}
        if k == "opaque":
            return {"k": k, "n": r.choice(["Date", "", "a::B", "é", "Vec<T>"])}
        if k == "hole":
            return {"k": "struct", "f": []}
        return {"k": k}
    jobs = []
    for _ in range(n):
        o = {"output_mode": r.choice(MODES), "import_style": r.choice(["add_imports", "assume_existing", "qualified_paths"]), "collect_additional": r.random() < 0.3,
             "deny_unknown_fields": r.random() < 0.3, "use_default_for_missing_fields": r.random() < 0.3}
        if r.random() < 0.5:
            o["property_name_format"] = r.choice(FORMATS[:8])
        if r.random() < 0.8:
            jobs.append({"op": "pump", "stack": STACK, "via": "shape", "name": r.choice(WEIRD + ["Root", "pub X"]), "input": "", "shape": sh(r.choice([0, 1, 2, 3, 4])), "opts": o})
        else:
            # as deep as samples may be
            frame = r.choice([{"k": "vec", "e": {"k": "hole"}}, {"k": "map", "e": {"k": "hole"}}, {"k": "nullable", "e": {"k": "vec", "e": {"k": "hole"}}},
                              {"k": "struct", "f": [{"n": r.choice(WEIRD), "s": {"k": "optional", "e": {"k": "hole"}}}]}, {"k": "tuple", "es": [{"k": "integer"}, {"k": "hole"}]}])
            jobs.append({"op": "pump", "stack": STACK, "name": "Root", "nest": r.choice([5, 5, 20, 60] + [127] * (r.random() < 0.1)), "frame": frame, "shape": sh(1), "opts": o})
    return jobs


def wasm_jobs(r, n):
    vals = ["", "rust", "zod", "é", None, 1, -1, 1.5, 10 ** 30, True, [], {}, ["a"], {"use_type": "map"}, {"use_type": 1}, {"a": {"b": []}}, "pub", "camelCase", "/a", "3", "sql"]
    keys = ["output_mode", "input_mode", "property_name_format", "import_style", "unwrap", "infer_map_threshold", "collect_additional", "derives", "field_visibility",
            "deny_unknown_fields", "use_default_for_missing_fields", "allow_option_vec", "/a", "", "/", "x", "é", "use_type"]
    g = jv.Gen(r, keys=WEIRD)
    jobs = []
    for _ in range(n):
        o = json.dumps({r.choice(keys): r.choice(vals) for _ in range(r.choice([0, 1, 2, 5]))}, ensure_ascii=r.random() < 0.5)
        if r.random() < 0.2:
            i = r.randrange(len(o) + 1)
            o = o[:i] + r.choice(["{", "}", "\"", "\\", "", "[", "x", "\u0000"]) + o[i + r.choice([0, 1]):]
        jobs.append([r.choice(WEIRD + ["Root"]), r.choice([jv.spell(g.sample(maxsize=20), r), "", "{", "x", "/etc/hostname", "http://x", "create table t (a int)"]), o])
    return jobs


# ------------------------------------------------------------------------------------------- command line

def cli_runs(r, quick):
    """argv (bytes), standard input, what standard output and error are."""
    bad8 = b"\xff\xfe"
    inputs = [b"{}", b'[{"a": [1, null]}]', b"{", b"", b"-", b"/nonexistent/x", b"json_typegen!(\"A\", \"{}\");", b"json_typegen!(", bad8, b"a" * 100000, b"[" * 50000, "é".encode(), b"http://", b"https://", b"http:// /", b"/",
              b"/dev/null", b"--", b"http://[::1", b"http://127.0.0.1:1/x"]
    opts = [[], [b"-n", b""], [b"-n", bad8], [b"-n", "é".encode()], [b"--name"], [b"--options", b"{"], [b"--options", bad8], [b"--options", b"{ unwrap: \"/a\" }"], [b"-O", b"rust"], [b"-O", b"x"], [b"-O", bad8], [b"-O", b"python"],
            [b"-o", b"/nonexistent/x"], [b"-o", b"/"], [b"-o", b""], [b"-o", bad8], [b"-o", b"/dev/full"], [b"-n", b"A", b"-n", b"B"], [b"--help"], [b"--version"], [b"-x"], [b"--output-mode", b"zod", b"--options", b"{ input_mode: \"sql\" }"], [b"--", b"x"]]
    data = [None, b"", b"{}", b"\xff", b'{"a": "\xc3', b"{} {}", b"[" * 200000]
    fds = ["pipe", "null", "full", "closed", "gone"]
    runs = []
    for i in inputs:
        for o in opts:
            runs.append((o + [i] if r.random() < 0.5 else [i] + o, r.choice(data), "pipe", "pipe"))
    for d in data:
        for o in opts:
            runs.append((o + [b"-"], d, r.choice(fds), r.choice(fds)))
    for so in fds:
        for se in fds:
            for i in (b"{}", b"{", b'{"abcdefghij": 1}', b"--help", bad8, b"-x"):
                runs.append(([i], None, so, se))
    runs.append(([], None, "pipe", "pipe"))
    return runs if not quick else r.sample(runs, min(len(runs), 420))


def sink(kind):
    if kind == "pipe":
        return subprocess.PIPE, None
    if kind == "null":
        return subprocess.DEVNULL, None
    if kind == "full":
        f = open("/dev/full", "wb")
        return f, f
    if kind == "gone":
        a, b = os.pipe()
        os.close(a)
        return b, b
    return None, None


def cli_run(binary, job):
    env.still()
    argv, data, so, se = job
    o, oc = sink(so)
    e, ec = sink(se)
    closed = [fd for fd, k in ((1, so), (2, se)) if k == "closed"]

    def pre():
        for fd in closed:
            os.close(fd)
    try:
        p = subprocess.run([binary.encode()] + argv, input=data, stdin=subprocess.DEVNULL if data is None else None, stdout=o, stderr=e, timeout=60,
                           cwd=env.scratch(), preexec_fn=pre if closed else None)
        rc, err = p.returncode, (p.stderr or b"").decode("utf-8", "replace")
        a = {"ok": rc} if rc == 0 else {"err": rc} if rc in (1, 2) else {"panic": rc, "stderr": err[:200]} if rc == 101 else {"crash": rc, "stderr": err[:200]}
    except subprocess.TimeoutExpired:
        env.hung(["command line"] + argv)
        a = {"hang": True}
    except (OSError, ValueError) as x:
        a = {"skip": str(x)}
    finally:
        for c in (oc, ec):
            if isinstance(c, int):
                os.close(c)
            elif c:
                c.close()
    return a


def macros(run):
    """The compiled macro reports an error for whatever it is given."""
    from .service import expand, macro_library
    so = macro_library()
    forms = ['"F", "{}", { derives: "\\"" }', '"(", "{}"', '"", "{}"', "", '"F"', '"\\"", "{}"', '"\'", "{}"', '"F", "{\\"a\\":1}", { output_mode: "shape" }', '"F", "{\\"a\\":1}", { output_mode: "python" }', "1, 2", "F, {}", '"F", "{"',
             '"F", "/nonexistent"', '"F" "{}"', '"F", "{}", {}', '"F", "{}", { x }', '"F", "{}", [1]', '"F", "[' + "[" * 3000 + '"', "r#\"F\"#, r#\"{\"a\": 1}\"#", '"F", "{\\"a\\":{}}", { "/a": { use_type: "\'" } }',
             '"F", "{}", { unwrap: "/a/b" }', "'F', '{}'", '"é", "{\\"é\\": 1}"', '"F", "{\\"\\u{0}\\": 1}"', "{{{}}}", '"F", "{}", { derives: "/*" }', "b\"F\", b\"{}\""]
    out = []
    for k, f in enumerate(forms):
        rc, so_text, err = expand("mod m { json_typegen::json_typegen!(%s); }\n" % f, so, "robust%d.rs" % k)
        if "proc macro panicked" in err or "compiler unexpectedly panicked" in err:
            out.append((f, {"panic": err[:300]}))
        elif rc < 0 or rc not in (0, 1):
            out.append((f, {"crash": rc, "stderr": err[:300]}))
        else:
            out.append((f, {"ok": 1} if rc == 0 else {"err": err[:100]}))
    return out


def c25(run):
    quick = run.quick()
    r = rng("robust")
    st = tlc.run("RobustModel", CFG % (3, 2, "TRUE"))
    run.model("RobustModel", st, "reader with 3 stack entries on all texts of up to 2 frames pumped up to 4 times, and garbage")
    pumps, nests = tlc.tagged(st["out"], "PUMP"), tlc.tagged(st["out"], "NEST")
    if not quick:
        st = tlc.run("RobustModel", CFG % (5, 3, "FALSE"), timeout=2000)
        run.model("RobustModel", st, "5 entries, 3 frames")
    run.log("model done,", len(pumps), "pumps,", len(nests), "nestings")
    binary = env.build("drv") + "/drv"
    limit = probe(binary)
    run.extra["nesting_limit"] = limit
    jobs, evs = [], []

    def add(js, es):
        jobs.extend(js)
        evs.extend(es)
    add(*depth_jobs(run, r, nests if quick else nests * 3, limit))
    by = {}
    for p in pumps:
        by.setdefault(p["kind"], []).append(p)
    for kind, ps in sorted(by.items()):
        small, large = (2500, 1200) if quick else (len(ps), len(ps))
        add(*pump_jobs(r, r.sample(ps, min(small, len(ps))), [r.choice([2, 3])]))
        add(*pump_jobs(r, r.sample([p for p in ps if len(p["v"]) == 1], min(60, len([p for p in ps if len(p["v"]) == 1]))) + r.sample(ps, min(large, len(ps))), [r.choice([150, 1000]) if quick else 3000]))
    # listed in known_findings.txt
    add([{"op": "pump", "stack": STACK, "name": "Root", "input": ["create table t (a int check (", ["not ", 3000], "a))"], "block": '{input_mode: "sql"}'}], [{"d": [], "whole": False, "what": "sql"}])
    fz = fuzz_jobs(r, 12000 if quick else 200000)
    add(fz, [{"d": [], "whole": False, "what": "fuzz"} for _ in fz])
    sh = shape_jobs(r, 4000 if quick else 60000)
    add(sh, [{"d": [], "whole": False, "what": "shape"} for _ in sh])
    ans = drv.run(binary, jobs, timeout=60)
    run.log("ran", len(jobs))
    ws = wasm_jobs(r, 3000 if quick else 40000)
    wres = drv.run(None, ws, argv=[env.build("wasmdrv") + "/wasmdrv"], as_request=json.dumps)
    cli = os.path.join(env.build("json_typegen_cli"), "json_typegen")
    cj = cli_runs(r, quick)
    with ThreadPoolExecutor(8) as ex:
        cres = list(ex.map(lambda j: cli_run(cli, j), cj))
    mres = macros(run)
    run.log("wasm", len(ws), "command line", len(cj), "macros", len(mres))
    info = [(j, a) for j, a in zip(jobs, ans)]
    for j, a in zip(ws, wres):
        evs.append({"d": [], "whole": False, "what": "wasm"})
        info.append((j, a))
    for j, a in zip(cj, cres):
        if "skip" in a:
            continue
        evs.append({"d": [], "whole": False, "what": "command line"})
        info.append(({"argv": [x.decode("utf-8", "backslashreplace")[:200] for x in j[0]], "stdin": None if j[1] is None else repr(j[1][:50]), "stdout": j[2], "stderr": j[3]}, a))
    for f, a in mres:
        evs.append({"d": [], "whole": False, "what": "macro"})
        info.append((f, a))
    # does the SQL parser fail by itself?
    lost = [k for k, (j, a) in enumerate(info) if outcome(a) not in ("types", "error") and evs[k]["what"] == "sql"]
    alone = drv.run(binary, [dict(info[k][0], op2="sqlparser") for k in lost], timeout=60)
    parser = {k for k, a in zip(lost, alone) if outcome(a) not in ("types", "error")}
    for e, (j, a) in zip(evs, info):
        e["out"], e["limit"] = outcome(a), limit
    kept = [k for k in range(len(evs)) if k not in parser]
    found = tlc.validate("TraceRobust", [evs[k] for k in kept], run)
    for i, tags in sorted(found.items()):
        j, a = info[kept[i]]
        run.violation("%s (%s): %s => %s" % (",".join(sorted(tags)), evs[kept[i]]["what"], json.dumps(j)[:300], json.dumps(a)[:200]), {"request": j, "answer": a, "tags": sorted(tags)})
    for k in sorted(parser):
        run.known_finding("sql-parser", {"input": info[k][0]["input"], "answer": info[k][1]})
    counts = {}
    for e in evs:
        c = counts.setdefault(e["what"], {})
        c[e["out"]] = c.get(e["out"], 0) + 1
    run.extra["outcomes"] = counts
    run.extra["slowest_ms"] = max((a.get("ms", 0) for a in ans), default=0)
    run.sample({"request": jobs[10], "answer": ans[10]})
    run.sample({"request": jobs[-1], "answer": ans[-1]})
    run.assumptions += ["stack of 2 MB, code built without optimisation; a run that takes more than 60 s counts as one that does not end",
                        "shapes given to codegen_from_shape are at most about as deep as samples can be"]
