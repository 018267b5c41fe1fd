"""C30: what the web page asks the library for, end to end (spec/WebOptions.tla)."""
import hashlib, json, os, re
from vlib import drv, env, jv, rs, tlc
from vlib.env import ToolError, rng
from . import web

CFG = """INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
VIEW View
CONSTANTS MaxSets = 9 Emit = TRUE
INVARIANTS Means Agrees Complete Local Vectors
"""
OPTION = {"outputmode": "output_mode", "inputmode": "input_mode", "propertynameformat": "property_name_format", "importstyle": "import_style",
          "unwrappath": "unwrap", "infermapthreshold": "infer_map_threshold"}
CHOICES = ["outputmode", "inputmode", "propertynameformat", "importstyle"]
SAMPLES = ['{}', '[]', '', '1', 'null', '"x"', '{"a":1}', '{"a":{"x":1,"y":"s"},"user id":[1,2.5],"type":null}', '[{"fooBar":1,"foo_bar":2},{"fooBar":"s"}]',
           '{"items":[{"id":1,"é":true,"in":[]},{"id":2}],"m":{"k1":1,"k2":2,"k3":3,"k4":4}}', '[[1,"a"],[2,"b"]]', '{"a":[{"b":[{"c":1}]}]}', '{"x":[{"y":null},{"y":[1]}]}',
           '{"a":1', 'tru', '{"a":1}]', '{"HTTPServer":{"userID":1},"self":{"copy":[{"list":1},{}]}}', ' {"a b":"\\u00e9\\n"}\n', '{"":{"":1}}', '[{"a":1,"b":{"c":[1]}},{"a":2.5,"d":null}]']
SQL = ["create table t (id int not null, user_name text, \"type\" bigint);", "CREATE TABLE a (x int); create table b (y varchar(5) not null)", "", "select 1", "create table t (", "{\"a\":1}"]
NAMES = ["MyRoot", "Root", "pub Foo", "pub(crate) Foo_bar", "Ünï", "my root", "1x", "", "A\"b"]
PATHS = ["", "/", "/-", "/a", "/a/x", "/items/-", "/items/0/id", "/x/-/y", "/a~1b", "nope", "/é", "/a\"b", "/a\\n", "/tab\there", "/\x7f", "/a\x01b", "/\b\f", "/\u2028", "/\U0001F600", "/no\nsuch"]
THRESHOLDS = ["", "0", "1", "2", "3", "5", "100", "007", "+4", "x", "-1", "1.5", " 3", "3 "]
HINTS = [{}, {"use_type": "map"}, {"use_type": "Ext"}, {"type_name": "Thing"}, {"use_type": "map", "type_name": "T"}, {"use_type": ""}, {"use_type": 1}, {"other": "x"}, {"use_type": "a::B<\"C\">"}]


def extras(r):
    """Extra options, as text: mostly a JSON object the library understands."""
    if r.random() < 0.1:
        return r.choice(["", " ", "{}", "{", "{\"output_mode\": }", "nul", "{'a': 1}", "\n{ }\n", "{\"unwrap\": \"/a\",}"])
    o = {}
    for _ in range(r.choice([0, 1, 1, 2, 3])):
        k = r.random()
        if k < 0.3:
            o[r.choice(["deny_unknown_fields", "use_default_for_missing_fields", "allow_option_vec", "collect_additional"])] = r.choice([True, True, False, "true", 1, None] if r.random() < 0.3 else [True, False])
        elif k < 0.55:
            o[r.choice(["", "/", "/a", "/-", "/items/-", "/m", "/a/x", "/é", "/-/b", "/a\x01b"])] = r.choice(HINTS)
        elif k < 0.95:
            f, vs = r.choice([("output_mode", web.MODES + ["kotlin", "java"]), ("input_mode", ["json", "sql", "xml"]), ("derives", ["", "Debug", "serde::Serialize, Clone"]),
                              ("field_visibility", ["", "pub(crate)"]), ("property_name_format", ["", "camelCase", "kebabcase", "lowercase", "Title"]), ("import_style", ["add_imports", "none"]),
                              ("unwrap", PATHS), ("infer_map_threshold", THRESHOLDS + [3, 0])])
            o[f] = r.choice(vs)
        else:
            o[r.choice(["unknown", "type_visibility", "7", "use_type"])] = r.choice(["x", True])
    t = json.dumps(o, ensure_ascii=r.random() < 0.5, indent=r.choice([None, 2]))
    if r.random() < 0.05 and t.endswith("}") and len(t) > 2:
        t = t[:-1] + "," + t[1:]           # everything twice
    return t


def cps(s):
    return [ord(c) for c in s]


def tokens(x):
    if isinstance(x, dict):
        out = [{"t": "{", "s": []}]
        for i, (k, v) in enumerate(x.items()):
            out += ([{"t": ",", "s": []}] if i else []) + [{"t": "str", "s": cps(k)}, {"t": ":", "s": []}] + tokens(v)
        return out + [{"t": "}", "s": []}]
    if isinstance(x, str):
        return [{"t": "str", "s": cps(x)}]
    if isinstance(x, bool) or x is None:
        return [{"t": "id", "s": cps("null" if x is None else "true" if x else "false")}]
    return [{"t": "other", "s": []}]


def setting(now):
    """What the controls hold, for the specification; None if it says nothing about these extra options."""
    try:
        x = json.loads(now.get("extraoptions", "").strip() or "{}")
    except ValueError:
        x = {}
    if not isinstance(x, dict) or "__proto__" in now.get("extraoptions", ""):
        return None
    text = {c: now.get(c, "") for c in OPTION}
    if not all(isinstance(t, str) for t in text.values()):
        raise ToolError("controls hold %s" % now)
    surrogates = [t for t in list(text.values()) + [now.get("extraoptions", "")] if re.search("[\ud800-\udfff]|\\\\ud[89a-f]", t, re.I)]
    if surrogates:
        return None
    return {"text": {c: cps(t) for c, t in text.items()}, "tick": bool(now.get("collectadditional")), "extra": [{"k": cps(k), "v": tokens(v)} for k, v in x.items()]}


def sets(r, values, text, final=None):
    """Steps that give the controls these values, in any order; the controls that are not always shown while they are."""
    steps = [["set", c, v] for c, v in values.items() if c != "outputmode"]
    r.shuffle(steps)
    steps = [["set", "outputmode", "rust"]] + steps
    steps.insert(r.randrange(len(steps) + 1), ["type", text])
    return steps + [["set", "outputmode", final or values["outputmode"]]]


def job(steps, r, **kw):
    return dict({"steps": [["init", "ok"]] + steps, "files": {}, "seed": r.randrange(1, 1 << 30), "copy": True}, **kw)


def offered(run):
    a = web.ask([{"steps": [], "files": {}, "offers": True}])[0]
    if "offers" not in a:
        raise ToolError("page does not start: %s" % str(a)[:300])
    if not set(CHOICES) <= set(a["offers"]):
        raise ToolError("page not understood: offers %s" % sorted(a["offers"]))
    return a


def plans(run, first, r):
    quick = run.quick()
    off = first["offers"]
    jobs = []

    def some(**kw):
        mode = kw.get("outputmode") or r.choice(off["outputmode"])
        v = {"outputmode": mode, "inputmode": r.choice(off["inputmode"]) if r.random() < 0.2 else off["inputmode"][0], "propertynameformat": r.choice(off["propertynameformat"]),
             "importstyle": r.choice(off["importstyle"]), "collectadditional": r.random() < 0.5, "unwrappath": r.choice(PATHS) if r.random() < 0.5 else "",
             "infermapthreshold": r.choice(THRESHOLDS) if r.random() < 0.5 else "", "extraoptions": extras(r) if r.random() < 0.5 else "", "typename": r.choice(NAMES) if r.random() < 0.4 else "Root"}
        v.update(kw)
        return v
    # what the model comes to: every combination of values of every control
    st = tlc.run("WebOptionsModel", CFG, timeout=600)
    run.model("WebOptionsModel", st, "all combinations of two values of each control and nine sets of extra options, reached in any order")
    for m in tlc.tagged(st["out"], "SET"):
        x = {}
        for e in m["extra"]:
            k = "".join(map(chr, e["k"]))
            ts = [t["t"] for t in e["v"]]
            s = ["".join(map(chr, t["s"])) for t in e["v"]]
            x[k] = 3 if ts == ["other"] else (s[0] == "true") if ts == ["id"] else {s[1]: s[3]} if ts[0] == "{" else r.choice(off[{v: k for k, v in OPTION.items()}[k]] if k == "output_mode" else [s[0]])
        v = {c: (lambda vs, pick: vs[pick % len(vs)])({"unwrappath": PATHS[1:], "infermapthreshold": THRESHOLDS[1:]}.get(c) or off[c], r.randrange(1000)) for c in OPTION}
        for c in OPTION:
            if m["text"][c] == []:
                v[c] = ""
        # the first values of the model are the first ones on offer
        for c in ("outputmode", "inputmode", "importstyle"):
            if m["text"][c] == [97]:
                v[c] = off[c][0]
        v["collectadditional"] = m["tick"]
        v["extraoptions"] = json.dumps(x) if x or r.random() < 0.5 else ""
        jobs.append(job(sets(r, v, r.choice(SQL if v["inputmode"] == "sql" else SAMPLES)), r))
    # every value on offer with every output language, on samples that show what it does
    for mode in off["outputmode"]:
        for c in CHOICES[1:]:
            for v in off[c]:
                for t in (SQL[:2] if v == "sql" else [SAMPLES[7], SAMPLES[8]]):
                    plain = {"outputmode": mode, "inputmode": "json", "propertynameformat": "", "importstyle": "assume_existing", "collectadditional": False, "unwrappath": "", "infermapthreshold": ""}
                    jobs.append(job(sets(r, dict(plain, **{c: v}), t), r))
        for t in SAMPLES:
            jobs.append(job([["set", "outputmode", mode], ["type", t]], r))
        for p in PATHS:
            jobs.append(job([["set", "outputmode", mode], ["set", "unwrappath", p], ["type", r.choice(SAMPLES)]], r))
        for th in THRESHOLDS:
            jobs.append(job([["set", "outputmode", mode], ["set", "infermapthreshold", th], ["type", SAMPLES[9]]], r))
        for n in NAMES:
            jobs.append(job([["set", "outputmode", mode], ["set", "typename", n], ["type", SAMPLES[9]]], r))
    for _ in range(1500 if quick else 30000):
        v = some()
        jobs.append(job(sets(r, v, r.choice(SQL if v["inputmode"] == "sql" and r.random() < 0.8 else SAMPLES)), r))
    # examples, in every language
    for k in range(first["examples"]):
        for mode in off["outputmode"]:
            jobs.append(job([["set", "outputmode", mode], ["example", k]] if r.random() < 0.5 else [["example", k], ["set", "outputmode", mode]], r, what="example"))
    # sessions that differ in a control that is not shown at the end: same text, same language
    pairs = []
    for mode in off["outputmode"]:
        for c, vs in [(c, off[c]) for c in ("propertynameformat", "importstyle")] + [("collectadditional", [True, False])]:
            for v in vs:
                for t in (SAMPLES[7], SAMPLES[8]) if quick else SAMPLES:
                    base = [["set", "outputmode", "rust"], ["set", c, v], ["type", t], ["set", "outputmode", mode]]
                    pairs.append((len(jobs), c))
                    jobs.append(job(base, r))
    # all of it again after the page was left and opened
    for _ in range(150 if quick else 3000):
        jobs.append(job(sets(r, some(), r.choice(SAMPLES)) + [["reload"], ["init", "ok"]], r))
    return jobs, pairs


def request(t, e, path):
    """The options that TLC read from the controls, as a request to the library."""
    o = {f: True for f in e["flags"] if f != "allow_option_vec"}
    for k, v in e["texts"].items():
        v = "".join(map(chr, v))
        if k == "infer_map_threshold":
            if not re.fullmatch(r"\+?[0-9]{1,18}", v):
                return None
            v = int(v)
        o[k] = v
    # (the library has no other way to set these)
    mode = o.pop("input_mode")
    opts = rs.block(dict({"allow_option_vec": True} if "allow_option_vec" in e["flags"] else {}, input_mode=mode))
    hints = ["%s: { %s: %s }" % (rs.lit("".join(map(chr, h["p"]))), h["what"], rs.lit("".join(map(chr, h["v"])))) for h in e["hints"]]
    # JSON is put into a file, as the library takes some texts for names of files; SQL can only be handed over as it is
    text = {"input": t["v"]} if mode == "sql" else {"hex": t["v"].encode("utf-8", "surrogatepass").hex(), "path": path}
    return {"op": "gen", "name": t["name"], **text, "opts": o, "block": opts[:-1] + (", " if len(opts) > 2 and hints else "") + ", ".join(hints) + "}"}


def digest(a):
    if "ok" in a:
        return {"k": "ok", "out": hashlib.sha1(a["ok"].encode("utf-8", "surrogatepass")).hexdigest()}
    return {"k": "err" if "err" in a else "crash", "out": ""}


def read_controls(evs):
    told = {}
    for lo in range(0, len(evs), 60000):
        part = evs[lo:lo + 60000]
        for i, e in enumerate(part):
            e["id"] = i
        st = tlc.run("TraceWebOptions", "INIT TInit\nNEXT TNext\nCHECK_DEADLOCK FALSE\nPOSTCONDITION TAccepted\n", env={"TRACE": tlc.write_trace(part)})
        for x in tlc.tagged(st["out"], "EXPECT"):
            told[lo + x["id"]] = dict(x, texts=x["texts"] or {})
    if len(told) != len(evs):
        raise ToolError("controls of %d sessions, read %d" % (len(evs), len(told)))
    return told


def c30(run):
    r = rng("webopts")
    os.environ["VERIF_EXAMPLES"] = "1"
    first = offered(run)
    jobs, pairs = plans(run, first, r)
    res = web.ask(jobs)
    bins = env.build("drv", "wasmdrv")
    evs, what = [], []
    for c in CHOICES:
        evs.append({"k": "offers", "pass": "judge", "option": OPTION[c], "values": first["offers"][c], "start": first["settings0"][c]})
        what.append({"control": c, "values": first["offers"][c], "start": first["settings0"][c]})
    asks, expect = [], []        # sessions whose requests are compared
    for i, (j, a) in enumerate(zip(jobs, res)):
        if "looks" not in a:
            run.violation("page-does-not-work: %s => %s" % (json.dumps(j["steps"])[:300], json.dumps(a)[:200]), {"job": web.short(j), "answer": a})
            continue
        look = a["looks"][-1]
        if look.get("copied") is not None:
            evs.append({"k": "copy", "pass": "judge", "same": look["copied"]})
            what.append({"job": web.short(j), "copied": look["copied"]})
        s = setting(a["now"])
        if s is None:
            continue
        o = look["obs"]
        asks.append((i, o if o["a"] == "types" else None, s))
        expect.append({"k": "request", "pass": "expect", "s": s})
    told = read_controls(expect)
    run.log("controls read", len(expect))
    wans = drv.run(bins + "/wasmdrv", [[o["name"], o["v"], o["raw"]] if o else ["", "", "{}"] for _, o, _ in asks], as_request=json.dumps)
    # (that the message has the name and the text that the page shows is judged by C24)
    reqs = [request(o or {"name": "", "v": ""}, told[k], "%s/web%d" % (env.scratch(), k)) for k, (i, o, s) in enumerate(asks)]
    lans = drv.run(bins + "/drv", [q or {"op": "gen", "name": "", "input": "{}"} for q in reqs])
    out = {}
    for k, ((i, o, s), w, l) in enumerate(zip(asks, wans, lans)):
        got = {"k": "none", "out": ""} if o is None else digest({"err": w["ok"]} if str(w.get("ok", "")).startswith("Error: ") else w)
        out[i] = got
        if reqs[k] is None or l.get("stage") == "options":             # a threshold that is no number, or a value the library does not know
            continue
        want = digest(l)
        evs.append({"k": "request", "pass": "judge", "s": s, "res": got, "lib": want})
        what.append({"job": web.short(jobs[i]), "controls": res[i]["now"], "sent": o, "page": str(w)[:600], "library": str(l)[:600], "asked": {k2: v for k2, v in reqs[k].items() if k2 not in ("hex", "path", "input")}})
        if jobs[i].get("what") == "example":
            evs.append({"k": "example", "pass": "judge", "ok": got["k"] == "ok"})
            what.append({"job": web.short(jobs[i]), "page": str(w)[:300]})
    # controls that are not shown
    groups = {}
    for i, c in pairs:
        if "shown" in res[i] and i in out and not res[i]["shown"].get(c, False):
            groups.setdefault((c, json.dumps(jobs[i]["steps"][3:])), []).append(i)
    for (c, _), is_ in groups.items():
        for i in is_[1:]:
            evs.append({"k": "same", "pass": "judge", "a": out[is_[0]], "b": out[i]})
            what.append({"control": c, "jobs": [jobs[is_[0]]["steps"], jobs[i]["steps"]]})
    found = tlc.validate("TraceWebOptions", evs, run)
    for k, tags in sorted(found.items()):
        run.violation("%s: %s" % (",".join(sorted(tags)), json.dumps(what[k])[:400]), dict(what[k], tags=sorted(tags)))
    run.extra["sessions"] = len(jobs)
    run.extra["requests_compared"] = len(asks)
    run.extra["with_output"] = sum(v["k"] == "ok" for v in out.values())
    run.extra["pairs_with_a_hidden_control"] = sum(e["k"] == "same" for e in evs)
    run.sample(what[len(what) // 2])
    run.sample(what[-1])
    run.assumptions += ["the page runs as for C24; its answers come from the entry point of json_typegen_wasm, compiled for the host",
                        "what a message should say is judged by C29; here both sides fail or neither",
                        "values of options that the library does not know (other than those on offer) are not judged, nor are lone surrogates and the key __proto__; extra options that are valid JSON but no object are not judged"]
