"""C20: options blocks and macro arguments, as text, against spec/RustText.tla and spec/OptionsBlock.tla."""
import json
from vlib import drv, env, jv, rs, tlc
from vlib.env import rng
from . import infer

MODEL_CFG = """INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
CONSTANTS Emit = TRUE MaxLen = %d
INVARIANTS Agrees Means NothingAfter RefusedStays OthersDefault Vectors
"""
FLAGS = ["deny_unknown_fields", "use_default_for_missing_fields", "allow_option_vec", "collect_additional"]
VALUES = {
    "output_mode": ["rust", "typescript", "typescript/typealias", "kotlin", "kotlin/jackson", "kotlin/kotlinx", "python", "json_schema", "zod", "shape", "java", ""],
    "input_mode": ["json", "sql", "xml"],
    "derives": ["", "Foo, Bar", "Debug", "serde::Serialize", "A  ,B", "é"],
    "property_name_format": ["lowercase", "uppercase", "UPPERCASE", "pascalcase", "uppercamelcase", "PascalCase", "camelcase", "camelCase", "snakecase", "snake_case",
                             "screamingsnakecase", "SCREAMING_SNAKE_CASE", "kebabcase", "kebab-case", "screamingkebabcase", "SCREAMING-KEBAB-CASE", "Title"],
    "import_style": ["add_imports", "assume_existing", "qualified_paths", "none"],
    "field_visibility": ["", "pub", "pub(crate)", "pub(in a::b)"],
    "unwrap": ["", "/", "/-/a", "/a~1b/\"q\"", "/é/\U0001F600", "/a\nb\t\\"],
    "infer_map_threshold": ["0", "5", "007", "18", "100000", "x", "-1", "1.5", "", " 5"],
}
POINTERS = ["", "/", "/a", "/-/a", "/a~1b", "/\"", "/é", "/a b", "/true"]
TYPES = ["map", "Foo", "a::B<C>", "", "\"x\"", "Map", "m\\ap"]


def model(run, n):
    st = tlc.run("OptionsModel", MODEL_CFG % n)
    run.model("OptionsModel", st, "all token sequences up to length %d" % n)
    return tlc.tagged(st["out"], "TOK")


class Spell:
    """Spelling of tokens: literals in many forms, space and comments between tokens."""

    def __init__(self, r, plain=False):
        self.r, self.plain = r, plain

    def lit(self, s):
        r = self.r
        if self.plain:
            return rs.lit(s)
        if r.random() < 0.15 and "\r" not in s:
            n = 0
            while '"' + "#" * n in s:
                n += 1
            n += r.choice([0, 0, 1]) if n or r.random() < 0.5 else 0
            if n == 0 and '"' in s:
                n = 1
            return "r" + "#" * n + '"' + s + '"' + "#" * n
        return self.quoted(s)

    def quoted(self, s):
        r = self.r
        out = ['"']
        for ch in s:
            c = ord(ch)
            k = r.random()
            named = {"\n": "\\n", "\r": "\\r", "\t": "\\t", "\0": "\\0", "\\": "\\\\", '"': '\\"', "'": "\\'"}
            if k < 0.05 and c < 0x80:
                out.append("\\x%02x" % c if r.random() < 0.5 else "\\x%02X" % c)
            elif k < 0.1:
                out.append("\\u{%s}" % (("%x" % c).rjust(r.choice([1, 2, 4, 6]), "0")))
            elif ch in '"\\\r' or (ch in named and k < 0.6):
                out.append(named[ch])
            elif k > 0.97 and ch not in " \n\t":
                out.append("\\\n   " + (ch if ch not in "\0'" else named[ch]))
            else:
                out.append(ch)
        out.append('"')
        return "".join(out)

    def gap(self, first=False, last=False):
        r = self.r
        if self.plain:
            return ""
        k = r.random()
        if k < 0.5:
            return ""
        if k < 0.93 or last:
            return "".join(r.choice([" ", "\n", "\t", "\r\n", "  ", "\u00a0", "\u2003", "\u3000", "\x0b", "\u2028", "\u200e", "\x85"])
                           for _ in range(r.choice([1, 1, 2])))
        return r.choice(["// c\n", "/* c */", "/* a /* b */ c */", "//\n", "/*}*/", "//}\n", "/* \" */", "// \"\n", "/* ** / */", "/*c**/", "////\n", "/*a*//*b*/"])

    def token(self, t):
        s = "".join(map(chr, t["s"]))
        if t["t"] == "id":
            return s
        if t["t"] == "str":
            return self.quoted(s) if not self.plain else rs.lit(s)
        if t["t"] == "raw":
            return 'r"' + s + '"'
        if t["t"] == "other":
            return self.r.choice(["1", "-", "1.5", "'a'", "[", "]", "(", ";", "=", "?", "null!", '"abc', "/", "#", "é", "\\", "\u2260", "$"])
        return t["t"]

    def text(self, tokens):
        out = [self.gap(first=True)]
        for i, t in enumerate(tokens):
            w = self.token(t)
            if out[-1] == "" and i and t["t"] in ("id", "raw") and tokens[i - 1]["t"] in ("id", "raw", "other"):
                out.append(" ")
            out.append(w)
            out.append(self.gap(last=i == len(tokens) - 1))
        return "".join(out)


def cps(s):
    return [ord(c) for c in s]


def tok(t, s=""):
    return {"t": t, "s": cps(s)}


def random_tokens(r):
    """Tokens of a block, mostly well-formed."""
    ts = [tok("{")]
    n = r.choice([0, 1, 1, 2, 3, 5])
    for i in range(n):
        k = r.random()
        name = lambda x: tok(r.choice(["id", "str"]), x)  # noqa: E731
        if k < 0.3:
            ts.append(name(r.choice(FLAGS)))
            b = r.random()
            if b < 0.6:
                ts += [tok(":"), tok("id", r.choice(["true", "false"]))]
        elif k < 0.7:
            x = r.choice(list(VALUES))
            ts += [name(x), tok(":"), tok("str", r.choice(VALUES[x]))]
        else:
            ts += [tok("str", r.choice(POINTERS)), tok(":"), tok("{")]
            m = r.choice([0, 1, 1, 2])
            for j in range(m):
                ts += [name(r.choice(["use_type", "type_name"])), tok(":"), tok("str", r.choice(TYPES))]
                if j < m - 1 or r.random() < 0.3:
                    ts.append(tok(","))
            ts.append(tok("}"))
        if i < n - 1 or r.random() < 0.3:
            ts.append(tok(","))
    ts.append(tok("}"))
    if r.random() < 0.3:
        j = r.randrange(len(ts))
        k = r.random()
        extra = r.choice([tok(","), tok("}"), tok("{"), tok(":"), tok("other"), tok("id", "x"), tok("str", "x"), tok("id", "true"), tok("str", "true"), tok("id", "unwrap"),
                          tok("id", "type_visibility"), tok("str", "hints"), tok("id", "Unwrap"), tok("str", " unwrap")])
        if k < 0.3:
            del ts[j]
        elif k < 0.6:
            ts.insert(j, extra)
        elif k < 0.8:
            ts[j] = extra
        else:
            ts.append(extra)
    return ts


def random_char_edits(r, text):
    if not text:
        return text
    j = r.randrange(len(text))
    k = r.random()
    if k < 0.35:
        return text[:j] + text[j + 1:]
    if k < 0.5:
        return text[:j]
    c = r.choice(list('{}:,"\\/*#r\'\n x0_u') + ["\\u{110000}", "\\u{d800}", "\\x80", "\\q", "\\u{}", "\\u41", "/*", "*/", "//", 'r#"', '"#', "é", "\r", "\r\n"])
    if k < 0.8:
        return text[:j] + c + text[j:]
    return text[:j] + c + text[j + 1:]


def macro_text(r, sp, block_tokens, full):
    name = r.choice(["Foo", "pub Foo", "pub(crate) Foo", "", "é", "A\"b", "x\\y"])
    sample = r.choice(["{}", "[1]", '{"a": "b\\n"}', "path/to.json", "http://x/y", "", "line\nbreak"])
    ts = [tok("str", name), tok(","), tok("str", sample)]
    k = r.random()
    text = sp.text([]) + sp.lit(name) + sp.gap() + "," + sp.gap() + sp.lit(sample) + sp.gap(last=True)
    if k < 0.75:
        inner = sp.text(block_tokens)
        if r.random() < 0.4:
            inner = sp.lit(inner)
        text += sp.gap().replace("//", "") + "," + sp.gap(last=True) + inner
    elif k < 0.85:
        text += r.choice([",", ", ,", "x", "{}", ", 1", ", {} {}", ', "{}" x', ', "{}",', ', {},', ", x"])
    if full:
        text = r.choice(["", " ", "\n"]) + "json_typegen!(" + text + ");" + r.choice(["", " ", "\n"])
        if r.random() < 0.15:
            text = random_char_edits(r, text)
    del ts
    return text


def texts(run, r, quick):
    out = []
    sp = Spell(r)
    vecs = model(run, 8 if quick else 11)
    if quick and len(vecs) > 9000:
        vecs = r.sample(vecs, 9000)
    if len(vecs) > 150000:
        vecs = r.sample(vecs, 150000)
    run.extra["enumerated_token_sequences"] = len(vecs)
    for v in vecs:
        out.append(("block", sp.text(v["ts"])))
    for x in list(VALUES) + FLAGS:
        for val in VALUES.get(x, ["true", "false", "1", ""]):
            for key in (x, rs.lit(x)):
                for v in (rs.lit(val), val or "x", sp.lit(val), "null", "5", "true", "[]", "{}"):
                    out.append(("block", "{%s: %s}" % (key, v)))
                    out.append(("block", "{ %s : %s , }" % (key, v)))
        out.append(("block", "{%s}" % x))
        out.append(("block", "{%s,}" % x))
        out.append(("block", "{%s %s}" % (x, rs.lit("x"))))
        out.append(("block", "{%s = %s}" % (x, rs.lit("x"))))
        out.append(("block", "{%s: %s}" % (x.upper(), rs.lit("x"))))
        out.append(("block", "{%s: %s}" % (x.replace("_", "-"), rs.lit("x"))))
    for n in range(2500 if quick else 40000):
        ts = random_tokens(r)
        t = sp.text(ts)
        out.append(("block", t))
        if r.random() < 0.3:
            out.append(("block", random_char_edits(r, t)))
        if r.random() < 0.4:
            full = r.random() < 0.5
            m = macro_text(r, sp, ts, full)
            out.append(("macro" if full else "macro_input", m))
            if r.random() < 0.2:
                out.append(("macro" if full else "macro_input", random_char_edits(r, m)))
    for t in ("", " ", "{", "}", "{}{}", "{}}", "{{}}", "{};", "{} x", "x {}", "{,}", "{,,}", "{unwrap:\"\",,}", "{\"/a\"}", "{\"/a\":1}", "{\"/a\":{use_type}}", "{\"/a\":{use_type:map}}",
              "{\"/a\":{},\"/a\":{}}", "{\"/a\":{use_type:\"A\"},\"/a\":{use_type:\"B\"}}", "{a/b:{}}", "{/a:{}}", "{\"a\":{}}", "{\"a/b\":{use_type:\"map\"}}",
              "{unwrap:\"/a\",unwrap:\"/b\"}", "{deny_unknown_fields:true,deny_unknown_fields:false}", "{deny_unknown_fields:false,deny_unknown_fields}",
              "json_typegen!()", "json_typegen!(\"A\", \"{}\")", "json_typegen! (\"A\", \"{}\");", "json_typegen!{\"A\", \"{}\"};", "json_typegen!();", "json_typegen!(", ");",
              "xjson_typegen!(\"A\", \"{}\");"):
        for via in ("block", "macro", "macro_input"):
            out.append((via, t))
    return out


def ask(binary, items):
    return drv.run(binary, [{"op": "opts", "via": via if via != "block" else "", "block": t} for via, t in items])


def canonical(x):
    """A plain spelling of a meaning."""
    parts = [rs.lit(f) + ": true" for f in FLAGS if f in x["flags"]]
    parts += ["%s: %s" % (rs.lit(k), rs.lit("".join(map(chr, v)))) for k, v in sorted(x["texts"].items())]
    parts += ["%s: { %s: %s }" % (rs.lit("".join(map(chr, h["p"]))), rs.lit(h["what"]), rs.lit("".join(map(chr, h["v"])))) for h in x["hints"]]
    return "{" + ", ".join(parts) + "}"


def plain_number(s):
    return str(int(s)) if s.isascii() and s.isdigit() and len(s) <= 18 else None


def c20(run):
    quick = run.quick()
    r = rng("options")
    items = texts(run, r, quick)
    binary = env.build("drv") + "/drv"
    ans = ask(binary, items)
    evs = []
    for (via, t), a in zip(items, ans):
        evs.append({"pass": "expect", "via": via, "text": cps(t)})
    exp = {}
    for lo in range(0, len(evs), 60000):
        part = evs[lo:lo + 60000]
        for i, e in enumerate(part):
            e["id"] = i
        path = tlc.write_trace(part)
        st = tlc.run("TraceOptions", "INIT TInit\nNEXT TNext\nCHECK_DEADLOCK FALSE\nPOSTCONDITION TAccepted\n", env={"TRACE": path})
        for x in tlc.tagged(st["out"], "EXPECT"):
            x["texts"] = x["texts"] or {}
            exp[lo + x["id"]] = x
    # plain spellings of all meanings
    meanings = {}
    for i, x in exp.items():
        if x["ok"] and not x["odd"]:
            via = items[i][0]
            body = canonical(x)
            if via != "block":
                body = '"Foo", "{}"' + (", " + body if x["given"] else "")
            meanings.setdefault((via != "block", body), []).append(i)
    keys = list(meanings)
    plain = ask(binary, [("macro_input" if m else "block", b) for m, b in keys])
    want = {}
    for k, a in zip(keys, plain):
        for i in meanings[k]:
            want[i] = a
    jevs = []
    for i, ((via, t), a) in enumerate(zip(items, ans)):
        x = exp[i]
        res = "ok" if "ok" in a else "err" if "err" in a else "crash"
        o = a.get("ok") or {}
        vals = {}
        got = {f: o.get(f, False) for f in FLAGS if f != "allow_option_vec"}
        for k in VALUES:
            g = o.get(k)
            got[k] = "none" if g is None else g
        got["type_visibility"] = o.get("type_visibility", "")
        for k, v in x["texts"].items():
            vals[k] = "".join(map(chr, v))
        if "infer_map_threshold" in vals:
            n = plain_number(vals["infer_map_threshold"])
            if n is None:
                got["infer_map_threshold"] = "unjudged"
            else:
                vals["infer_map_threshold"] = n
        same = True
        if i in want and res == "ok":
            same = want[i].get("ok", {}).get("debug") == o.get("debug")
        jevs.append({"pass": "judge", "via": via, "text": cps(t), "res": res, "got": got, "vals": vals or {"": ""}, "same": same,
                     "name": cps(a.get("name", "")), "sample": cps(a.get("sample", ""))})
    for lo in range(0, len(jevs), 60000):
        bad = tlc.validate("TraceOptions", jevs[lo:lo + 60000], run)
        for i in sorted(bad):
            via, t = items[lo + i]
            if "unusable" in bad[i]:
                raise env.ToolError("inconsistent passes: %r" % t)
            run.violation("%s: %s %r: %s" % (",".join(sorted(bad[i])), via, t[:200], json.dumps(ans[lo + i])[:250]),
                          {"via": via, "text": t, "tags": sorted(bad[i]), "answer": ans[lo + i]})
    # options that differ in meaning differ in effect: the code keeps all meanings apart
    by_debug = {}
    for (m, b), a in zip(keys, plain):
        if "ok" not in a:
            continue
        x = exp[meanings[(m, b)][0]]
        sig = json.dumps([m, sorted(x["flags"]), [h for h in x["hints"]], {k: v for k, v in x["texts"].items()}], sort_keys=True)
        by_debug.setdefault((m, a["ok"]["debug"]), []).append((sig, b, x))
    clashes = 0
    for (m, d), group in by_debug.items():
        first = group[0]
        for other in group[1:]:
            # only flags not visible above and hints count here: values may fall back to defaults
            a, c = first[2], other[2]
            if ("allow_option_vec" in a["flags"]) != ("allow_option_vec" in c["flags"]) or a["hints"] != c["hints"]:
                clashes += 1
                run.violation("blocks that say different things give the same options: %s and %s" % (first[1], other[1]), {"one": first[1], "other": other[1]})
    effects(run, r, quick, binary)
    run.extra.update({"texts": len(items), "accepted": sum(1 for e in jevs if e["res"] == "ok"), "odd_texts_not_judged": sum(1 for x in exp.values() if x["odd"]),
                      "distinct_meanings": len(keys)})
    for i in r.sample(range(len(items)), 5):
        run.sample({"via": items[i][0], "text": items[i][1][:120], "result": jevs[i]["res"]})
    run.assumptions += ["texts with doc comments, comments after the last token or raw string literals as option names are not judged",
                        "values that an option does not know (output_mode \"java\") are accepted; what they are taken for is not judged",
                        "string literals are Rust's (no \\/, \\b, \\f or \\uXXXX)"]


def effects(run, r, quick, binary):
    """Options of a block have the effect of the options of the interface; hints and allow_option_vec have their own."""
    g = jv.Gen(r)
    reqs = []
    for i in range(150 if quick else 2000):
        v = g.sample(maxsize=25)
        o = {}
        for x, vals in VALUES.items():
            if r.random() < 0.3 and x not in ("input_mode", "unwrap", "infer_map_threshold"):
                o[x] = r.choice([y for y in vals if y not in ("java", "", "xml", "Title", "none", "é")] or ["pub"])
        for f in FLAGS:
            if f != "allow_option_vec" and r.random() < 0.2:
                o[f] = True
        api = {"op": "gen", "name": "Root", "input": jv.text(v) if v["k"] in ("arr", "obj") else "[]", "opts": dict(o)}
        blk = dict(api, block=rs.block(o))
        blk.pop("opts")
        reqs += [api, blk]
    ans = drv.run(binary, reqs)
    for i in range(0, len(reqs), 2):
        if ans[i].get("ok") != ans[i + 1].get("ok") or ("crash" in ans[i + 1]):
            run.violation("the options block %s has another effect than the options" % reqs[i + 1]["block"], {"sample": reqs[i]["input"], "block": reqs[i + 1]["block"]})
    run.extra["blocks_compared_with_options"] = len(reqs) // 2
    # Vec or Option<Vec>, by flag
    for text, flag in (("{}", False), ("{allow_option_vec}", True), ("{allow_option_vec: false}", False), ("{allow_option_vec: true}", True)):
        a = drv.run(binary, [{"op": "gen", "name": "Root", "input": '[{"a":[1]},{}]', "block": text}])[0]
        if ("Option<Vec<i64>>" in a.get("ok", "")) != flag:
            run.violation("allow_option_vec has no effect in %s" % text, {"block": text, "answer": a})
    # hints, against the canonical structure of the annotated sample
    cases = infer.hint_cases(r, 250 if quick else 3000, ["Foo", "map", "map", "Map", " map", "Foo "])
    infer.judge(run, cases, infer.events(cases), {"not-admitted", "rejected", "accepted", "malformed", "crash", "not-canonical"})
