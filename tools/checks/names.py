"""C26: a visibility specifier before the root name (spec/RootName.tla)."""
import itertools, json, os
from concurrent.futures import ThreadPoolExecutor
from vlib import drv, env, jv, prog, rs, tlc
from vlib.env import rng
from . import targets
from .service import cli

CFG = """INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
CONSTANTS MaxLen = %d EmitLen = %d
INVARIANTS Agrees OneReading Whole Kept Vectors
"""
TRACE = "INIT TInit\nNEXT NNext\nCHECK_DEADLOCK FALSE\nPOSTCONDITION TAccepted\n"
VIS = ["pub", "pub(crate)", "pub(super)", "pub(self)", "pub(in crate::a)", "pub(in super::b)", "pub(in self)"]
ROOTS = ["Root", "Foo", "Point", "Pub", "Publish", "PubCrate", "Crate", "Foo2", "PubFoo", "R"]
LOOK = ["pubFoo", "public", "publish", "pub_foo", "pubs", "Pub", "PubFoo", "p", "pu", "puB", "crateFoo", "PUB", "xpub", "Foopub", "pubpub", "pub1", "privateFoo"]
DOCS = ['{"a":1}', '{"a":{"b":[{"c":1},{}]},"d":[[{"e":null}]]}', '[{"x":{"pub":1}},{"x":{"pub":"s"}}]', '[]', '[1]', '[1,"s"]', '{}', '{"root":{"a":1},"pub":{"crate":{"b":2}}}',
        '{"type":{"x":1},"Foo":{"y":1},"pub":1}', '[{"a":1,"l":[]},{"l":[{"k":true}]}]']


def text(cps):
    return "".join(map(chr, cps))


def cps(s):
    return [ord(c) for c in s]


def model(run, n, emit):
    st = tlc.run("RootNameModel", CFG % (n, emit))
    run.model("RootNameModel", st, "all texts of up to %d atoms" % n)
    return [(text(v["raw"]), text(v["vis"]), text(v["name"])) for v in tlc.tagged(st["out"], "NAME")]


def identifier(s):
    return s.isascii() and s.isidentifier()


def opts_of(o):
    r = {"output_mode": targets.MODES[o["lang"]]}
    for k, n in (("tvis", "type_visibility"), ("fvis", "field_visibility"), ("style", "import_style"), ("fmt", "property_name_format"), ("collect", "collect_additional")):
        if k in o:
            r[n] = o[k]
    return r


def same_cases(run, vectors, r, n):
    """Texts generated for a name with a specifier, and for the bare name with the visibility given as an option."""
    pairs = []
    plain = lambda s: not (s.startswith("pub ") or s.startswith("pub("))  # noqa: E731
    for raw, vis, name in vectors:
        if plain(name) and (vis or raw != name):
            pairs.append((raw, vis, name))
    for v in VIS + ["pub(some::path)", "pub(x y)", "pub((", "pub(é)"]:
        v = v if v.endswith(")") or v == "pub" else v + ")"
        for gap in (" ", "  ", "     "):
            for n2 in ROOTS + LOOK + ["foo bar", "1x", "é", "a)b", "a) b", "(a", "<T>", "Vec<Foo>", "type", "日本"]:
                if plain(n2):
                    pairs.append((v + gap + n2, v, n2))
    if len(pairs) > n:
        pairs = r.sample(pairs, n)
    jobs, evs, info = [], [], []
    for raw, vis, name in pairs:
        doc = r.choice(DOCS)
        o = {"lang": r.choice(list(targets.MODES)) if r.random() < 0.5 else "rust"}
        if r.random() < 0.4:
            o["fvis"] = r.choice([None, "", "pub", "pub(super)"])
        other = dict(o, tvis=r.choice(["", "pub(self)", "pub"])) if r.random() < 0.3 else o
        jobs.append({"op": "gen", "name": raw, "input": doc, "opts": opts_of(other)})
        jobs.append({"op": "gen", "name": name, "input": doc, "opts": opts_of(dict(o, tvis=vis) if vis else other)})
        info.append((raw, doc, other))
        evs.append({"k": "same", "raw": cps(raw), "rvis": cps(vis), "rname": cps(name)})
    ans = drv.run(env.build("drv") + "/drv", jobs)
    for k, e in enumerate(evs):
        a, b = ans[2 * k], ans[2 * k + 1]
        # without a visibility in other outputs than Rust
        e["same"] = "ok" in a and a.get("ok") == b.get("ok")
    return evs, [(raw, {"sample": d, "options": o, "got": ans[2 * k].get("ok", ans[2 * k]), "want": ans[2 * k + 1].get("ok", ans[2 * k + 1])})
                 for k, (raw, d, o) in enumerate(info)]


def gen_cases(vectors, r, n):
    """Programs for names with and without a specifier, read back and judged by TraceTargets."""
    names = [(v + gap + x, v, x) for v in VIS for gap in (" ", "  ") for x in ROOTS]
    names += [(a + x + b, "", x) for x in ROOTS + LOOK for a, b in (("", ""), (" ", ""), ("", " "), ("  ", "  "))]
    names += [(a + v + " " + x + b, v, x) for v in VIS for x in ROOTS[:3] for a, b in ((" ", ""), ("", " "), ("  ", "  "))]
    names += [(a, b, c) for a, b, c in vectors if identifier(c) and c[0] != "_" and (not b or b in VIS) and c not in ("crate", "p", "pub")]
    g = jv.Gen(r, keys=["a", "b", "pub", "crate", "in", "Root", "foo", "public", "type", "x"])
    cases = []
    for k in range(n):
        raw, vis, name = names[k] if k < len(names) else r.choice(names)
        lang = "rust" if k < len(names) or r.random() < 0.7 else r.choice([x for x in targets.MODES if x != "rust"])
        if lang == "py" and (name in ("p",) or name.lower() in ("crate",)):
            lang = "rust"
        v = jv.of(json.loads(r.choice(DOCS))) if r.random() < 0.4 else g.sample(maxsize=20)
        o = {}
        if lang == "rust":
            if r.random() < 0.4:
                o["fvis"] = r.choice([None, "", "pub", "pub(super)", "pub(crate)"])
            if r.random() < 0.3:
                o["tvis"] = r.choice(["", "pub(self)", "pub", "pub(crate)"])
            if r.random() < 0.2:
                o["collect"] = True
        c = targets.tcase(v, lang, raw, **o)
        c["split"] = (raw, vis, name)
        cases.append(c)
    return cases


def judged(c, e):
    """The event, with the name and the visibility that the name stands for."""
    raw, vis, name = c["split"]
    o = dict(c["o"])
    if vis:
        o["tvis"] = vis
    e.update({"raw": cps(raw), "rvis": cps(vis), "rname": cps(name), "name": name, "opts": targets.spec_opts(o)})
    return e


def everywhere(run, r, n):
    """The same through the other interfaces: options block, macro texts, WASM entry point, command line."""
    bin_ = env.build("drv", "json_typegen_cli", "wasmdrv")
    jobs, wasm, clis, meta = [], [], [], []
    for k in range(n):
        vis, name, doc = r.choice(VIS), r.choice([x for x in ROOTS if x != "R"]), r.choice(DOCS)
        raw = vis + r.choice([" ", " ", "  "]) + name
        blk = "{import_style: \"%s\"%s}" % (r.choice(targets.STYLES), r.choice(["", ', field_visibility: "pub(crate)"', ', output_mode: "typescript"', ', output_mode: "kotlin"', ', field_visibility: ""']))
        form = "%s, %s, %s" % (rs.lit(raw), rs.lit(doc), blk)
        meta.append((raw, vis, name, doc, blk))
        jobs += [{"op": "gen", "name": raw, "input": doc, "block": blk}, {"op": "gen", "via": "macro_input", "input": form},
                 {"op": "gen", "via": "macro", "input": "json_typegen!(" + form + ");"}]
        wasm.append([raw, doc, blk])
        clis.append([doc, r.choice(["-n", "--name"]), raw, "--options", blk])
    want = drv.run(bin_ + "/drv", [{"op": "gen", "name": nm, "input": d, "block": b, "opts": {"type_visibility": v}} for _, v, nm, d, b in meta])
    ans = drv.run(bin_ + "/drv", jobs)
    wans = drv.run(bin_ + "/wasmdrv", wasm, as_request=json.dumps)
    with ThreadPoolExecutor(8) as ex:
        cans = list(ex.map(lambda a: cli(bin_ + "/json_typegen", a), clis))
    evs, info = [], []
    for k, (raw, vis, name, doc, blk) in enumerate(meta):
        for what, a in (("library", ans[3 * k]), ("macro arguments", ans[3 * k + 1]), ("macro text", ans[3 * k + 2]), ("WASM", wans[k]), ("CLI", cans[k])):
            w = want[k]
            evs.append({"k": "same", "raw": cps(raw), "rvis": cps(vis), "rname": cps(name), "same": "ok" in a and a["ok"] == w.get("ok")})
            info.append((raw, {"interface": what, "sample": doc, "block": blk, "got": a.get("ok", a), "want": w.get("ok", w)}))
    return evs, info


def judge(run, evs, info, label):
    for lo in range(0, len(evs), 6000):
        path_evs = evs[lo:lo + 6000]
        bad = validate(path_evs, run)
        for i in sorted(bad):
            raw, rep = info[lo + i]
            if "unusable" in bad[i]:
                raise env.ToolError("the harness read %r wrongly" % raw)
            tags = bad[i] - {"any-absent"}
            if tags:
                run.violation("%s: %s: name %r: %s" % (",".join(sorted(tags)), label, raw, json.dumps(rep)[:300]), dict(rep, name=raw, tags=sorted(tags)))


def validate(events, run):
    for i, e in enumerate(events):
        e["id"] = i
    path = tlc.write_trace(events)
    st = tlc.run("TraceNames", TRACE, env={"TRACE": path}, heap="8g")
    if st["distinct"] != len(events) + tlc.WORKERS:
        raise env.ToolError("trace of %d events, but TLC consumed %d" % (len(events), st["distinct"] - tlc.WORKERS))
    os.unlink(path)
    run.validated += len(events)
    run.model("TraceNames", st, "trace validation, one step per recorded event")
    return {b["id"]: set(b["tags"]) for b in tlc.tagged(st["out"], "BAD")}


def c26(run):
    quick = run.quick()
    r = rng("names")
    vectors = model(run, 5 if quick else 6, 4 if quick else 5)
    evs, info = same_cases(run, vectors, r, 4000 if quick else 30000)
    judge(run, evs, info, "as an option")
    run.extra["compared_with_the_option"] = len(evs)
    cases = gen_cases(vectors, r, 900 if quick else 12000)
    tev, answers = targets.events(cases)
    tev = [judged(c, e) for c, e in zip(cases, tev)]
    judge(run, tev, [(c["name"], {"lang": c["lang"], "sample": c["text"], "options": c["o"], "why": e["prog"].get("why"), "got": a.get("ok", a)})
                     for c, a, e in zip(cases, answers, tev)], "program")
    run.extra["programs"] = len(cases)
    evs, info = everywhere(run, r, 60 if quick else 800)
    judge(run, evs, info, "interface")
    run.extra["through_interfaces"] = len(evs)
    for c in cases[:3]:
        run.sample({"name": c["name"], "sample": c["text"][:120], "options": c["o"]})
    run.assumptions += ["texts that begin like a visibility specifier but do not go on with a name after blanks are not judged (RootName!Odd)",
                        "specifiers are pub and pub(...) as the language knows them; names without a specifier are identifiers"]
