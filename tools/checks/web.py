"""C24, C27: the web page with its worker, and what is left of earlier visits (spec/WebSession.tla)."""
import hashlib, json, os
from vlib import drv, env, tlc
from vlib.env import ToolError, rng

CFG = """INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
VIEW View
CONSTANTS MaxActs = %d Emit = %s Rich = %s MaxReloads = %d
INVARIANTS Right Waits Stored KeptAsChosen Vectors
"""
WEB = os.path.join(env.VERIF, "tools/js/web.cjs")
MODES = ["rust", "typescript", "typescript/typealias", "kotlin/jackson", "kotlin/kotlinx", "python", "json_schema", "zod", "shape"]
SETTINGS = {
    "typename": ["Root", "X", "pub Foo", "Ünï", " A  b ", "", "x" * 300], "outputmode": MODES, "inputmode": ["json", "sql"],
    "propertynameformat": ["", "camelCase", "snake_case"], "importstyle": ["assume_existing", "add_imports", "qualified_paths"],
    "collectadditional": [True, False], "unwrappath": ["", "/-", "/a", " /a ", "/"], "infermapthreshold": ["", "3", " 3", "0"],
    "extraoptions": ["", "{}", " {}\n", '{"use_default_for_missing_fields": true}', '{"output_mode": "python"}', "{", '{"unwrap": "/x/-"}'],
}
MODEL_FILES = {
    "s1": {"name": "a.json", "size": 2, "content": "t1"}, "s0": {"name": "b.json", "size": 0, "content": ""}, "sx": {"name": "c.json", "size": 9, "content": None},
    "l1": {"name": "d.json", "size": 600000, "content": "f1"}, "lb": {"name": "e.json", "size": 500001, "content": "boom"},
    "lx": {"name": "f.json", "size": 9000000, "content": None},
}
TEXTS = ["{}", "[]", "", "t1", "t2", "boom", "{\"a\": 1}", " ", "null", "0", "{ broken", "é\U0001f600", "a\nb", "100%", "%7B%22", "a+b&c=d", "\\u0041\"", "<b>&amp;", "\u2028\t\u0000", "  {} \r\n"]


def files(ids):
    return {k: dict(v, id=k) for k, v in ids.items()}


def model_job(sched, r, k):
    """A behaviour of the model as a job; what the model does not look at varies."""
    modes = {"m1": "kotlin/jackson", "m2": r.choice([m for m in MODES if m != "kotlin/jackson"])}
    steps = [["set", "outputmode", modes[s[1]]] if s[0] == "set" and s[1] in modes else s for s in sched]
    init = [s[1] for s in sched if s[0] == "init"]
    job = {"steps": steps, "files": files(MODEL_FILES), "seed": 0 if k % 3 else r.randrange(1, 1 << 30), "wasm": init[0] if init else "ok"}
    job["probe"] = r.choice([[], [], [["clear"]], [["type", "again"]], [["pick", "s1"]], [["set", "typename", "Other"]], [["pick", "l1"], ["clear"]], [["example", 1]]])
    return job


def random_job(r):
    fs = {}
    # texts that only differ behind a long part they have in common
    far = r.choice([0, 0, 0, 0, 300, 2500, 70000])
    TEXTS = [t if t == "boom" else " " * (far // 2) + "[" * far + t for t in globals()["TEXTS"]] if far else globals()["TEXTS"]
    for i in range(r.randint(1, 4)):
        small = r.random() < 0.5
        fs["f%d" % i] = {"name": r.choice(["a.json", "x y.json", "z"]), "size": r.choice([0, 1, 499999, 500000]) if small else r.choice([500001, 1000000, 70000000]),
                         "content": None if r.random() < 0.2 else r.choice(TEXTS if small else [t for t in TEXTS if t])}
    steps = []

    def user():
        k = r.random()
        if k < 0.25:
            return ["type", r.choice(TEXTS)]
        if k < 0.5:
            return ["pick", r.choice(list(fs))]
        if k < 0.6:
            return ["clear"]
        if k < 0.7:
            return ["example", r.randrange(4)]
        if k < 0.72:
            return ["nopick"]
        if k < 0.78:
            return ["format"]
        s = r.choice(list(SETTINGS))
        return ["set", s, r.choice(SETTINGS[s])]

    def environment():
        return r.choice([["w"], ["w"], ["p"], ["p"], ["pr", r.choice([1, 1, 2])], ["wr", r.choice([1, 1, 2])], ["w"], ["p"]])
    calm = r.random() * 0.97
    for _ in range(r.choice([2, 4, 8, 16, 30])):
        steps.append(user())
        while r.random() < calm:
            steps.append(environment())
    wasm = "fail" if r.random() < 0.15 else "ok"
    if r.random() < 0.7:
        steps.insert(r.randrange(len(steps) + 1), ["init", wasm])
    job = {"steps": steps, "files": files(fs), "seed": r.randrange(1, 1 << 30), "wasm": wasm, "probe": [user() for _ in range(r.choice([0, 1, 3]))]}
    job["storage"] = r.choice(["", "", "", "full", "blocked"])
    if r.random() < 0.25:
        job["stored"] = stored(r)
    return job


def stored(r):
    if r.random() < 0.15:
        return r.choice([{}, {"input": ""}, {"options": {}}, {"typename": "Only"}])
    return {"typename": r.choice(["Old", "T"]), "input": r.choice(TEXTS), "extraoptions": r.choice(SETTINGS["extraoptions"]),
            "options": {"input_mode": r.choice(["json", "sql"]), "output_mode": r.choice(MODES), "property_name_format": r.choice(["", "camelCase"]),
                        "import_style": "add_imports", "unwrap": r.choice(["", "/q"]), "collect_additional": r.random() < 0.5, "infer_map_threshold": r.choice(["", "7"])}}


def settings(s):
    out = {}
    for k, v in s.items():
        if k == "extraoptions":
            try:
                x = json.loads(v.strip() or "{}")
            except ValueError:
                x = {}
            x = x if isinstance(x, dict) else {}
            out["extraoptions"] = v
            out["extra"] = {o: json.dumps(y) for o, y in x.items()}
        else:
            out[k] = v if k == "typename" else json.dumps(v)
    return out


def brief(t):
    return t if len(t) < 3000 else "%d characters, %s" % (len(t), hashlib.sha1(t.encode("utf-8", "surrogatepass")).hexdigest())


def event(ans, fresh=None):
    acts = [dict(a, s=settings(a["s"])) if "s" in a else dict(a) for a in ans["acts"]]
    for a in acts:
        if a["a"] in ("type", "example"):
            a["long"] = len(a["v"].encode("utf-16-le", "surrogatepass")) // 2 >= 1000000
        for k in ("v", "text"):
            if k in a:
                a[k] = brief(a[k])
    for a in acts:
        if a["a"] == "reload":
            a["empty"] = {"typename": fresh["typename"]}
        elif a["a"] == "forget":
            a["fresh"] = fresh
    looks = []
    for l in ans["looks"]:
        o = dict(l["obs"])
        if o["a"] == "types":
            o["v"] = brief(o["v"])
            o["options"] = {k: json.dumps(v) for k, v in o["options"].items()}
        looks.append({"obs": o, "acts": l["acts"], "settled": l["settled"], "spinner": bool(l["spinner"]), "download": bool(l["download"]), "file": l["download_name"],
                      "wasm": l["wasm"] or "none"})
    s0 = settings(ans["settings0"])
    return {"settings": s0, "text": ans["input0"], "acts": acts, "looks": looks}


def c24(run):
    quick = run.quick()
    r = rng("web")
    st = tlc.run("WebModel", CFG % (3, "TRUE", "TRUE", 0), timeout=800)
    run.model("WebModel", st, "all sessions of 3 user actions over small, large and unreadable files, interleaved with reads, messages and the start of the module")
    scheds = tlc.tagged(st["out"], "WEB")
    if not quick:
        st = tlc.run("WebModel", CFG % (4, "FALSE", "TRUE", 0), timeout=1500, heap="16g")
        run.model("WebModel", st, "all sessions of 4 user actions")
    for acts, num in ((4, 200), (6, 300), (9, 300)) if quick else ((4, 1500), (6, 3000), (10, 3000), (16, 2000)):
        st = tlc.run("WebModel", CFG % (acts, "TRUE", "TRUE", 0), extra=["-simulate", "num=%d" % num, "-depth", "300", "-seed", str(r.randrange(1 << 30))])
        run.model("WebModel", st, "random behaviours with %d user actions" % acts)
        scheds += tlc.tagged(st["out"], "WEB")
    run.log("model done,", len(scheds), "behaviours")
    jobs = [model_job(s, r, k) for k, s in enumerate(scheds)]
    jobs += [random_job(r) for _ in range(3000 if quick else 60000)]
    replay(run, jobs)
    run.assumptions += ["Svelte's compiler is not available: the script of App.svelte runs under a stand-in for its legacy reactivity (assignments invalidate, $: statements run once the task is done), with the markup read for what is bound; so do the components of the controls and of the output, as far as they are understood, with a stand-in for the highlighter",
                        "the WASM module is replaced by one that answers with its arguments (C21 compares its entry point with the library), and fails for one text",
                        "the button that formats the text is not judged while a file is being read; extra options that are not a JSON object are ignored"]


def ask(jobs):
    res = drv.run(None, jobs, argv=["node", WEB], env=dict(os.environ, VERIF_REPO=env.REPO))
    for a in res:
        if "tool" in a:
            raise ToolError("web.cjs: " + a["tool"][:500])
    if all("crash" in a for a in res):
        raise ToolError("web.cjs does not run")
    return res


def short(x):
    """For messages and replays: long texts cut."""
    t = json.dumps(x)
    return x if len(t) < 20000 else {"long": t[:300]}


def replay(run, jobs):
    res = ask(jobs)
    fresh = settings(ask([{"steps": [], "files": {}}])[0]["settings0"])
    run.log("replayed", len(jobs))
    evs, back = [], []
    for j, a in zip(jobs, res):
        if "looks" in a:
            back.append((j, a))
            evs.append(event(a, fresh))
        else:
            run.violation("%s: %s => %s" % ("page-does-not-start" if "broken" in a else "page-hangs", json.dumps(j["steps"])[:200], json.dumps(a)[:200]), {"job": short(j), "answer": a})
    found = tlc.validate("TraceWeb", evs, run)
    for k, tags in sorted(found.items()):
        j, a = back[k]
        run.violation("%s: %s => %s" % (",".join(sorted(tags)), json.dumps(j["steps"])[:300], json.dumps(a["looks"][-1])[:300]), {"job": short(j), "answer": short(a), "tags": sorted(tags)})
    run.extra["sessions"] = len(jobs)
    run.extra["steps"] = sum(a.get("steps", 0) for a in res)
    run.extra["user_actions"] = sum(len(a.get("acts", [])) for a in res)
    run.extra["times_opened_again"] = sum(x["a"] in ("reload", "forget") for a in res for x in a.get("acts", []))
    mid = len(jobs) // 2
    run.sample({"job": short(jobs[mid]), "looks": short(res[mid].get("looks"))})
    run.sample({"job": short(jobs[-1]), "looks": short(res[-1].get("looks"))})


JUNK = [None, "", "null", "{", "undefined", "[]", "5", "\"x\"", "true", "{}", "{\"a\": 1}", "[1]", "\ufeff{}", "\u0000"]


def with_visits(job, r):
    """A random session in which the page is left and opened again."""
    steps = []
    for s in job["steps"][:300]:
        steps.append(s)
        if r.random() < 0.25:
            steps += [["pr", 1]] * r.choice([0, 1, 3])
            steps.append(["forget", r.choice(JUNK)] if r.random() < 0.1 else ["reload"])
        if r.random() < 0.15:
            steps.append(r.choice([["set", "typename", r.choice(["", " ", "A\"b"])], ["set", "extraoptions", r.choice(["{", "\n {} ", "null", "nul"])],
                                   ["set", "unwrappath", "/é\"\\"], ["set", "infermapthreshold", "0"]]))
    steps += [["pr", 1]] * 3 + [["reload"]]
    if r.random() < 0.5:
        steps.append(["init", "ok"])
    job["steps"] = steps
    job["probe"] += r.choice([[], [["reload"]], [["reload"], ["reload"]], [["forget", r.choice(JUNK)], ["type", "new"]], [["type", "new"], ["reload"]], [["clear"], ["reload"]]])
    if r.random() < 0.9:
        job["storage"] = ""
    return job


def c27(run):
    quick = run.quick()
    r = rng("visits")
    st = tlc.run("WebModel", CFG % (3, "TRUE", "TRUE", 1), timeout=800, heap="12g")
    run.model("WebModel", st, "all sessions of 3 user actions in which the page is left and opened again at any point")
    scheds = [s for s in tlc.tagged(st["out"], "WEB") if any(x[0] in ("reload", "forget") for x in s)]
    if not quick:
        st = tlc.run("WebModel", CFG % (4, "FALSE", "FALSE", 2), timeout=2400, heap="20g")
        run.model("WebModel", st, "all sessions of 4 user actions with two visits")
    for acts, num in ((5, 200), (8, 200)) if quick else ((5, 2000), (8, 3000), (14, 2000)):
        st = tlc.run("WebModel", CFG % (acts, "TRUE", "TRUE", 3), extra=["-simulate", "num=%d" % num, "-depth", "300", "-seed", str(r.randrange(1 << 30))])
        run.model("WebModel", st, "random behaviours with %d user actions and visits" % acts)
        scheds += [s for s in tlc.tagged(st["out"], "WEB") if any(x[0] in ("reload", "forget") for x in s)]
    run.log("model done,", len(scheds), "behaviours")
    jobs = []
    for k, s in enumerate(scheds):
        big = "x" * 1000000 if r.random() < 0.02 else "t1"
        job = model_job([["type", big] if x == ["type", "big"] else ["set", "typename", ""] if x[:2] == ["set", "name"] else ["forget", r.choice(JUNK)] if x[0] == "forget" else x for x in s], r, k)
        job["probe"] = r.choice([[], [["reload"]], [["type", "again"], ["reload"]], [["set", "typename", "Other"], ["reload"]], [["pick", "l1"], ["reload"]], [["pick", "s1"], ["reload"]]])
        jobs.append(job)
    # every setting on its own, and texts around the length from which they are not kept
    for name, vals in SETTINGS.items():
        for v in vals + {"typename": ["", " "], "extraoptions": ["null", " {} "], "unwrappath": ["/a\"\\\n"], "infermapthreshold": ["0", "x"]}.get(name, []):
            need = [["set", "outputmode", "rust"]] if name in ("propertynameformat", "importstyle", "collectadditional") else []
            jobs.append({"steps": [["init", "ok"]] + need + [["set", name, v], ["reload"], ["init", "ok"]], "files": {}, "probe": [["type", "x"], ["reload"]]})
    for t in TEXTS:
        jobs.append({"steps": [["type", "first"], ["type", t], ["reload"], ["init", "ok"]], "files": {}, "probe": [["reload"]]})
    for n in (499999, 500000, 999999, 1000000, 1000001):
        jobs.append({"steps": [["type", "x" * n], ["reload"], ["init", "ok"]], "files": {}, "probe": []})
    jobs += [with_visits(random_job(r), r) for _ in range(1500 if quick else 30000)]
    replay(run, jobs)
    run.assumptions += ["as for C24; the page is not left while it is reading a small file; where storage is full or blocked nothing is said about what is kept (C24 has the page work there)",
                        "what is left is read from the page itself, so that its format does not matter; unusable is anything but a JSON object with its fields"]
