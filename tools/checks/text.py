"""C05 (and the malformed parts of C07, C08): samples as bytes, against the byte machine of spec/JsonText.tla."""
import json
from vlib import env, drv, jv, rs, shape, tlc
from vlib.env import rng

ALPHABETS = [("number", 6, 8), ("structure", 5, 6), ("string", 6, 7), ("literal", 6, 9), ("space", 4, 6)]
STRINGS_CFG = """INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
CONSTANTS MaxLen = %d AlphabetName = "%s" Emit = %s
INVARIANTS Agrees DeadIsDead CompletionWorks FoldIsStep Vectors
"""
STATES_CFG = """INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
VIEW View
CONSTANTS MaxStack = %d
INVARIANTS Completes Emitted
"""
NOTHING = {"k": "none"}


def strings_model(run, name, maxlen, emit=True):
    st = tlc.run("JsonStrings", STRINGS_CFG % (maxlen, name, "TRUE" if emit else "FALSE"))
    run.model("JsonStrings", st, "all byte strings up to length %d over alphabet %s: machine = grammar" % (maxlen, name))
    return tlc.tagged(st["out"], "DOC") if emit else []


def states_model(run, maxstack):
    st = tlc.run("JsonStates", STATES_CFG % maxstack, workers=1)
    run.model("JsonStates", st, "every control state of the byte machine, nesting up to %d" % maxstack)
    return tlc.tagged(st["out"], "STATE")


def case(b, unwrap="", hints=(), inline=False, want_shape=False):
    return {"b": list(b), "unwrap": unwrap, "hints": list(hints), "inline": inline, "shape": want_shape}


def request(c, i):
    opts = {"output_mode": "shape"}
    if c.get("mode"):
        opts["output_mode"] = c["mode"]
    if c.get("unwrap"):
        opts["unwrap"] = c["unwrap"]
    r = {"op": "gen", "name": "Root", "opts": opts}
    if c.get("hints"):
        r["block"] = rs.block(hints=c["hints"])
    if c.get("inline"):
        r["input"] = bytes(c["b"]).decode()
    else:
        r["hex"] = bytes(c["b"]).hex()
        r["path"] = "%s/t%d.json" % (env.scratch(), i)
    return r


def points(s):
    """Shape with keys as code point sequences."""
    k = s["k"]
    if k == "struct":
        return {"k": k, "f": [{"n": [ord(c) for c in f["n"]], "o": f["o"], "s": points(f["s"])} for f in s["f"]]}
    if k == "tuple":
        return {"k": k, "es": [points(x) for x in s["es"]]}
    if "e" in s:
        return {"k": k, "e": points(s["e"])}
    return s


def text_events(cases, batch=4000):
    import os
    binary = env.build("drv") + "/drv"
    evs = []
    for lo in range(0, len(cases), batch):
        part = cases[lo:lo + batch]
        reqs = [request(c, i) for i, c in enumerate(part)]
        for c, a in zip(part, drv.run(binary, reqs)):
            res = "ok" if "ok" in a else "err" if "err" in a else "crash"
            out = NOTHING
            if res == "ok" and c.get("shape"):
                try:
                    out = points(shape.parse(a["ok"]))
                except ValueError:
                    out = {"k": "malformed"}
            evs.append({"b": c["b"], "res": res, "out": out, "part": bool(c.get("unwrap") or c.get("hints"))})
    return evs


def show(b):
    return repr(bytes(b[:160])) + ("..." if len(b) > 160 else "")


def judge(run, cases, evs, tags_bad):
    for lo in range(0, len(evs), 60000):
        chunk = evs[lo:lo + 60000]
        bad = tlc.validate("TraceText", chunk, run)
        for i in sorted(bad):
            hit = bad[i] & set(tags_bad)
            c = cases[lo + i]
            if hit:
                run.violation("%s: sample %s unwrap=%r hints=%s: %s" % (",".join(sorted(hit)), show(c["b"]), c.get("unwrap"), c.get("hints"), chunk[i]["res"]),
                              {"bytes_hex": bytes(c["b"]).hex(), "sample": show(c["b"]), "unwrap": c.get("unwrap"), "hints": c.get("hints"),
                               "result": chunk[i]["res"], "tags": sorted(hit)})


REP = [0, 9, 10, 11, 13, 31, 32, 34, 43, 44, 45, 46, 47, 48, 49, 57, 58, 65, 68, 69, 70, 71, 85, 91, 92, 93, 98, 97, 99, 100, 101, 102, 103,
       110, 114, 116, 117, 123, 125, 127, 128, 143, 144, 159, 160, 191, 192, 193, 194, 223, 224, 225, 237, 238, 239, 240, 241, 243, 244, 245, 255]


def transition_cases(states, quick):
    """Every control state, every next byte, then a way to the end."""
    out = []
    alpha = REP if quick else range(256)
    for s in states:
        out.append(case(s["b"]))
        out.append(case(s["b"] + s["c"], want_shape=True))
        # truncated inside the completion
        for j in range(1, len(s["c"])):
            out.append(case(s["b"] + s["c"][:j]))
        for b in alpha:
            out.append(case(s["b"] + [b]))
            out.append(case(s["b"] + [b] + s["c"], want_shape=True))
            # and where the specification says that the byte leads on, from the state reached
            for c in ("\"", "\"]", "]", "}", "0\"", "041\"", "41\"", "1\"", "\":0}", "0}", "0]"):
                if not quick or len(s["b"]) <= 4 and b in (34, 92, 117, 68, 48, 101, 46, 45, 194, 224):
                    out.append(case(s["b"] + [b] + list(c.encode()), want_shape=True))
    return out


# spellings of other notations (JavaScript, JSON5, YAML, Python, JSON Lines ...): none of these is JSON outside of a string
FOREIGN = [b"//\n", b"// c\n", b"/**/", b"/* c */", b"/*\n*/", b"#\n", b"# c\n", b"--\n", b";", b";\n", b"<!---->", b"'a'", b"'", b"''", b"`a`", b"`", b"a:", b"a", b"'a':1",
           b"True", b"False", b"None", b"NULL", b"Null", b"TRUE", b"nil", b"undefined", b"NaN", b"nan", b"Infinity", b"-Infinity", b"inf", b"-inf", b"+1", b".5", b"5.",
           b"-.5", b"0x1F", b"0b1", b"0o7", b"01", b"-01", b"00", b"1_000", b"1,000", b"1f", b"1n", b"1L", b"1e", b"1e+", b"1E1.5", b"--1", b"- 1", b"\\\n", b"\\n",
           b"\\'", b"\\x41", b"\\u{41}", b"\\101", b"\\0", b"\\v", b"\\a", b"\\e", b"\\U00000041", b"\\u 041", b"\\u+041", b"\\u004", b"\n", b"\r\n", b"\t", b"\x00",
           b"\x0b", b"\x0c", b"\x7f", b"\xc2\xa0", b"\xc2\x85", b"\xe2\x80\xa8", b"\xe3\x80\x80", b"\xef\xbb\xbf", b"\xfe\xff", b"\x1e", b"\x1e{}\n", b"...", b"...a", b",", b",,",
           b"=", b"=>1", b":1", b"::", b"()", b"(1)", b"<1>", b"@a", b"$a", b"&a 1", b"*a", b"!t 1", b"- 1\n", b"---\n", b"~", b"%", b"\"a\" \"b\"", b"\"a\"+\"b\"", b"u\"a\"",
           b"b\"a\"", b"r\"a\"", b"\"\"\"a\"\"\"", b"{{}}", b"[1 2]", b"{\"a\" 1}", b"{1:1}", b"{\"a\":1;}", b"{a:1}", b"{'a':1}", b"[1,]", b"[,1]", b"[,]", b"{,}", b"{\"a\":1,}", b"{\"a\":}",
           b"{\"a\"}", b"{:1}", b"{\"a\"=1}", b"{\"a\"=>1}", b"[:]", b"{[]}", b"{null:1}", b"new Date(0)", b")]}'\n", b"while(1);", b"callback({})", b"/a/"]


def foreign_cases(states, quick, r):
    """Spellings of other notations, at every control state."""
    seen = set()
    out = []
    for s in states:
        for f in FOREIGN:
            if quick and len(s["b"]) > 3 and r.random() < 0.5:
                continue
            for b in (bytes(s["b"]) + f + bytes(s["c"]),) + ((f + bytes(s["b"]) + bytes(s["c"]), bytes(s["b"]) + bytes(s["c"]) + f) if s["b"] == s["b"][:1] else ()):
                if b not in seen:
                    seen.add(b)
                    out.append(case(b, want_shape=True))
    return out


def nesting_cases():
    out = []
    for n in (1, 2, 64, 126, 127, 128, 129, 130, 200, 254, 255, 256, 1000):
        for op, cl in (("[", "]"), ('{"a":', "}"), ('[{"a":', "}]"), ("[[1],", "]")):
            k = n // (2 if len(op) > 5 else 1)
            if op == "[[1],":
                k = max(0, n - 1)
                t = op * k + "[]" + cl * k
            else:
                t = op * k + ("0" if op != "[" or k == 0 else "") + cl * k
            out.append(case(t.encode()))
            out.append(case(t.encode()[:-1]))
    # the limit counts what is open, not what has been opened
    for n in (126, 127):
        side = "[" * (n - 1) + "]" * (n - 1)
        out.append(case(("[" + ",".join([side] * 3) + "]").encode()))
        out.append(case(("[" + ",".join(["[]"] * 300) + "]").encode()))
        out.append(case(("[" + ",".join(["{}"] * 300) + "," + side + "]").encode()))
        out.append(case(('{"a":' + side + ',"b":' + side + "}").encode()))
    out.append(case(b"]" * 3 + b"[" * 127 + b"]" * 127))
    return out


def boundary_cases():
    """Tokens that lie across the end of the read buffer (128 KiB), and numbers, literals and escapes at the end of the text."""
    out = []
    size = 128 * 1024
    toks = ['"a\\u00e9b"', '"\\ud83d\\ude00"', '"\U0001F600é"', "true", "-12.5e+10", "null", '{"k":1}', '"\\ud83d"', "tru", "1.", '"\U0001F600é'[:3]]
    for t in toks:
        raw = t.encode()
        for cut in sorted({1, len(raw) // 2, len(raw) - 1}):
            pad = size - cut - 1
            for close in (b"]", b""):
                out.append(case(b"[" + b" " * pad + raw + close, want_shape=close == b"]"))
    out.append(case(b" " * size + b"[1]"))
    out.append(case(b"[1]" + b" " * size))
    out.append(case(b"[1]" + b" " * size + b"x"))
    out.append(case(b"[1]" + b" " * (size - 3) + b"]"))
    for t in ("1", "-1", "1.5", "1e5", "-", "1.", "1e", "1e+", "01", "-01", "+1", ".5", "1.5.5", "1e5e5", "--1", "0x1", "1_000", "Infinity", "NaN",
              "true", "tru", "truee", "null", "nul", "nulll", "false", "falsey", "True", "\"", "\"a", "\"\\", "\"\\u12", "\"a\"", "\"a\"b", "'a'",
              "", " ", "\ufeff[]", "[]\ufeff", "[]\x00", "[]//c", "/**/[]", "[1,]", "[,1]", "[1,,2]", "[1 2]", "{\"a\":1,}", "{a:1}", "{\"a\"}", "{\"a\":}",
              "{\"a\" 1}", "{1:1}", "{null:1}", "{\"a\":1 \"b\":2}", "{,}", "[", "{", "]", "}", "[}", "{]", "[1}", "{\"a\":1]", "[]]", "{}}", "[][]", "{}{}",
              "1 2", "\"a\" \"b\"", "null null", "[1]2", "\u00a0[]", "\u2003[]", "[\u00a01]", "[\u00851]", "\x0b[]", "\x0c[]"):
        out.append(case(t.encode()))
        out.append(case(b" " + t.encode() + b" \n"))
        out.append(case(b"[" + t.encode() + b"]"))
        out.append(case(b"{\"a\":" + t.encode() + b"}"))
    return out


def escape_cases(r, n):
    """Strings as members and as values, in all spellings; the decoded key shows in the structure."""
    out = []
    for cp in list(range(0, 0x120)) + [0x2028, 0x2029, 0xD7FF, 0xE000, 0xFEFF, 0xFFFD, 0xFFFE, 0xFFFF, 0x10000, 0x1F600, 0x10FFFF]:
        esc = "\\u%04x" % cp if cp < 0x10000 else "\\u%04X\\u%04x" % (0xD800 + ((cp - 0x10000) >> 10), 0xDC00 + ((cp - 0x10000) & 0x3FF))
        # the shape output marks optional members with a "?" after the key
        plain = cp != 0x3F
        out.append(case(('{"%s":1}' % esc).encode(), want_shape=plain))
        out.append(case(('{"x%sy":[1]}' % esc.upper().replace("\\U", "\\u")).encode(), want_shape=True))
        if cp >= 0x20 and cp not in (34, 92):
            out.append(case(('{"%s":1}' % chr(cp)).encode(), want_shape=plain))
        else:
            out.append(case(('{"%s":1}' % chr(cp)).encode()))
        out.append(case(('{"\\%s":1}' % chr(cp)).encode(), want_shape=True))
    for hi in (0xD7FF, 0xD800, 0xDABC, 0xDBFF, 0xDC00, 0xDFFF, 0xE000):
        for lo in (0, 0x41, 0xD7FF, 0xD800, 0xDBFF, 0xDC00, 0xDE00, 0xDFFF, 0xE000):
            for fmt in ('["\\u%04x\\u%04x"]', '{"\\u%04X\\u%04X":0}', '["\\u%04x\\u%04xz"]'):
                out.append(case((fmt % (hi, lo)).encode(), want_shape=True))
        for t in ('["\\u%04x"]', '["\\u%04x\\n"]', '["\\u%04xu1234"]', '["\\u%04x\\\\u1234"]', '["\\u%04x\\u12"]', '["\\u%04x'):
            out.append(case((t % hi).encode(), want_shape=False))
    for i in range(n):
        raw = bytes(r.choice([0x22, 0x41, 0x7f, 0x80, 0x9f, 0xa0, 0xbf, 0xc0, 0xc1, 0xc2, 0xdf, 0xe0, 0xe1, 0xec, 0xed, 0xef, 0xf0, 0xf1, 0xf4, 0xf5, 0xff])
                    for _ in range(r.randint(1, 5)))
        out.append(case(b'["' + raw + b'"]'))
        out.append(case(b'{"' + raw.replace(b'"', b"") + b'":1}', want_shape=True))
    return out


def mutated(r, n, inline_share=0.2):
    g = jv.Gen(r, keys=jv.KEYS + ["é", "\U0001F600", "a b", "", "\u0007", "q\"", "b\\"])
    out = []
    for i in range(n):
        v = g.sample(maxsize=25)
        b = bytearray(jv.spell(v, r).encode())
        good = r.random() < 0.3
        if not good:
            for _ in range(r.choice([1, 1, 1, 2])):
                j = r.randrange(len(b)) if b else 0
                c = r.random()
                if c < 0.25:
                    b = b[:j]
                elif c < 0.45 and b:
                    del b[j]
                elif c < 0.6 and b:
                    k = r.randrange(len(b))
                    b[j], b[k] = b[k], b[j]
                elif c < 0.8:
                    b[j:j] = r.choice([b",", b"]", b"}", b"[", b"{", b":", b"1", b'"', b"x", b"\\", b"null", b"\x01", b"-", b".", b"e", b"0", b"+", b"\\u12", b"\xe9"])
                elif c < 0.9 and b:
                    b[j] = r.randrange(256)
                else:
                    b += r.choice([b",", b"]", b"x", b" {}", b"1", b"\x00", b"\"", b"[]", b"\xff"])
        t = bytes(b)
        inline = False
        if r.random() < inline_share:
            # inline samples are recognised by their first character; white space around them is not part of the text
            try:
                s = t.decode()
                inline = s.strip() == s and s[:1] in ("{", "[")
            except UnicodeDecodeError:
                pass
        out.append(case(t, inline=inline, want_shape=True))
    return out


def part_cases(r, n):
    """Options that look at a part only: what is skipped has to be well-formed all the same."""
    out = []
    for c in mutated(r, n, 0):
        k = r.random()
        if k < 0.4:
            c["unwrap"] = r.choice(["/a", "/-", "/0", "/b/-", "/items/0/id"])
        elif k < 0.8:
            c["hints"] = [{"p": r.choice(["/a", "/-", "/-/-", "", "/-/a", "/items/-"]), "t": "Foo"}]
        else:
            c["mode"] = r.choice(["rust", "typescript", "python", "json_schema", "kotlin", "zod"])
        c["shape"] = False
        out.append(c)
    return out


def inference_model(run):
    pass


def c05(run):
    quick = run.quick()
    r = rng("text")
    cases = []
    for name, q, t in ALPHABETS:
        docs = strings_model(run, name, q if quick else t)
        if quick and len(docs) > 6000:
            docs = [d for d in docs if len(d["b"]) < q or r.random() < 0.2]
        for d in docs:
            cases.append(case(d["b"]))
    n_enum = len(cases)
    states = states_model(run, 1 if quick else 2)
    cases += transition_cases(states, quick)
    n = len(cases)
    cases += foreign_cases(states, quick, r)
    run.extra["other_notations"] = len(cases) - n
    cases += nesting_cases()
    cases += boundary_cases() if not quick else r.sample(boundary_cases(), len(boundary_cases()))
    cases += escape_cases(r, 600 if quick else 6000)
    cases += mutated(r, 3000 if quick else 40000)
    cases += part_cases(r, 1500 if quick else 20000)
    evs = text_events(cases)
    run.extra["enumerated_byte_strings"] = n_enum
    run.extra["accepted"] = sum(1 for e in evs if e["res"] == "ok")
    run.extra["rejected"] = sum(1 for e in evs if e["res"] == "err")
    for i in r.sample(range(len(cases)), 5):
        run.sample({"sample": show(cases[i]["b"]), "result": evs[i]["res"]})
    run.assumptions += ["number texts beyond the double range (1e400) are well-formed JSON",
                        "objects with a repeated member name are judged for acceptance only"]
    judge(run, cases, evs, {"accepted", "rejected", "crash", "misread"})
