"""C10 to C19: generated programs against Targets.tla (and against compilers and libraries where they are at hand)."""
import itertools, json, os, re, shutil, subprocess, tempfile
from vlib import env, drv, jv, prog, rs, rt, tlc
from vlib.env import rng, ToolError
from checks import infer

MODES = {"rust": "rust", "ts": "typescript", "tsa": "typescript/typealias", "jackson": "kotlin/jackson", "kotlinx": "kotlin/kotlinx",
         "py": "python", "schema": "json_schema", "zod": "zod"}
DERIVES = ["Default", "Debug", "Clone", "PartialEq", "serde_derive::Serialize", "serde_derive::Deserialize"]
FORMATS = ["lowercase", "UPPERCASE", "PascalCase", "camelCase", "snake_case", "SCREAMING_SNAKE_CASE", "kebab-case", "SCREAMING-KEBAB-CASE"]
STYLES = ["add_imports", "assume_existing", "qualified_paths"]


def tcase(val, lang, name="Root", unwrap="", hints=(), thr=-1, spelled=None, **o):
    c = infer.case(val, unwrap, hints, thr, spelled)
    c.update({"lang": lang, "name": name, "o": o})
    return c


def spec_opts(o):
    return {"fmt": o.get("fmt", "none"), "usedef": o.get("usedef", False), "allowvec": o.get("allowvec", False),
            "collect": o.get("collect", False), "deny": o.get("deny", False), "style": o.get("style", "add_imports"),
            "tvis": o.get("tvis", "pub"), "fvis": o.get("tvis", "pub") if o.get("fvis", "pub") is None else o.get("fvis", "pub"),
            "derives": o.get("derives", DERIVES)}


def request(c, i):
    o = c["o"]
    opts = {"output_mode": MODES[c["lang"]]}
    if c["unwrap"]:
        opts["unwrap"] = c["unwrap"]
    if c["thr"] >= 0:
        opts["infer_map_threshold"] = c["thr"]
    for k, n in (("fmt", "property_name_format"), ("usedef", "use_default_for_missing_fields"), ("collect", "collect_additional"),
                 ("deny", "deny_unknown_fields"), ("style", "import_style"), ("tvis", "type_visibility"), ("fvis", "field_visibility")):
        if k in o:
            opts[n] = o[k]
    if "derives" in o:
        opts["derives"] = ", ".join(o["derives"])
    r = {"op": "gen", "name": c["name"], "opts": opts, "ast": c["lang"] == "rust"}
    if c["hints"] or o.get("allowvec"):
        r["block"] = rs.block({"allow_option_vec": True} if o.get("allowvec") else {}, hints=c["hints"])
    if c["file"]:
        r["hex"] = c["text"].encode().hex()
        r["path"] = "%s/t%d.json" % (env.scratch(), i)
    else:
        r["input"] = c["text"]
    return r


def extract(cases, answers):
    """The programs of the answers."""
    nodes = [i for i, (c, a) in enumerate(zip(cases, answers)) if c["lang"] in ("ts", "tsa", "zod") and "ok" in a]
    ask = [{"lang": cases[i]["lang"], "code": answers[i]["ok"], "names": [h["t"] for h in cases[i]["hints"] if h["t"] != "map"]} for i in nodes]
    got = dict(zip(nodes, drv.run("node", ask, nproc=4, argv=["node", os.path.join(env.VERIF, "tools", "js", "extract.js")],
                                  as_request=json.dumps, timeout=60))) if ask else {}
    progs = []
    for i, (c, a) in enumerate(zip(cases, answers)):
        lang = c["lang"]
        if "ok" not in a:
            progs.append(prog.failed("no output"))
        elif lang == "rust":
            progs.append(prog.rust(a["ast"], spec_opts(c["o"])))
        elif lang in ("ts", "tsa", "zod"):
            if "ok" not in got[i]:
                raise ToolError("extract.js: %s" % got[i])
            progs.append(prog.js(got[i], lang))
        elif lang in ("jackson", "kotlinx"):
            progs.append(prog.kotlin(a["ok"], lang))
        elif lang == "py":
            progs.append(prog.python(a["ok"]))
        else:
            progs.append(prog.schema(a["ok"])[0])
    return progs


def execute(cases):
    binary = env.build("drv") + "/drv"
    return drv.run(binary, [request(c, i) for i, c in enumerate(cases)])


def events(cases):
    answers = execute(cases)
    evs = []
    for c, a, p in zip(cases, answers, extract(cases, answers)):
        res = "ok" if "ok" in a else "err" if "err" in a else "crash"
        evs.append({"k": "gen", "lang": c["lang"], "name": c["name"], "val": c["val"], "unwrap": c["unwrap"], "hints": c["hints"],
                    "thr": c["thr"], "opts": spec_opts(c["o"]), "res": res, "prog": p})
    return evs, answers


# ------------------------------------------------------------------------------------------ what to generate

KEYWORDS = {
    "rust": "as break const continue crate dyn else enum extern false fn for if impl in let loop match mod move mut pub ref return self Self static struct super trait true type unsafe use where while async await abstract become box do final macro override priv typeof unsized virtual yield try gen union raw default auto",
    "kotlin": "as break class continue do else false for fun if in interface is null object package return super this throw true try typealias typeof val var when while by catch constructor data value field it open init companion",
    "py": "False None True and as assert async await break class continue def del elif else except finally for from global if import in is lambda nonlocal not or pass raise return try while with yield match case type print self cls",
    "ts": "break case catch class const continue debugger default delete do else enum export extends false finally for function if import in instanceof new null return super switch this throw true try typeof var void while with implements interface let package private protected public static yield any number string boolean symbol never unknown object undefined",
}
BUILTINS = {
    "rust": "serialize deserialize debug Vec Option String HashMap Value Box Result Some None Ok Err Default Debug Clone PartialEq Serialize Deserialize bool i64 f64 str u8 serde_json std core serde Copy Send Iterator ToString",
    "kotlin": "Any Boolean Double Long Int List Map Pair Triple String JsonProperty SerialName Serializable JsonNaming PropertyNamingStrategies JsonAnySetter JsonAnyGetter Unit Nothing Array com kotlinx additionalFields additional_fields",
    "py": "Any Optional BaseModel Field bool str int float list dict tuple typing pydantic copy json schema construct dict parse_obj parse_raw parse_file from_orm validate schema_json update_forward_refs fields Config object type id input None model_fields model_config model_dump __fields__ __init__",
    "ts": "any number string boolean Array Record Object Date Map Promise String Number Symbol constructor __proto__ toString hasOwnProperty prototype valueOf z",
}
ODD = ["", " ", "  a", "a ", "a b", "a-b", "a.b", "a/b", "a:b", "a,b", "-", "--", "_", "__", "_a", "__a__", "a_", "$", "$a", "$ref", "${x}", "@id", "@", "#text",
       "1", "1a", "12", "0x1", "007", "+1", "-1", "é", "éa", "aé", "über", "日本", "日本語 key", "\U0001F600", "a\U0001F600b", "ａ", "ß", "İ", "ı",
       "\"", "a\"b", "'", "a'b", "`", "a`b", "\\", "a\\b", "\\n", "\\u0041", "a\nb", "\n", "\r\n", "\t", "\u0000", "\u0001", "\u001f", "\u007f", "\u0080", "\u2028", "\u2029",
       "\ufeff", "\u00a0", "\u200b", "{", "}", "{{x}}", "[0]", "*/", "/*", "//", "<!--", "</script>", "%s", "%", "?", "a?", "!", "&", "(", ")", "=", "~", "^", "|", ";",
       "x" * 100, "aB", "AB", "ABc", "aBC", "HTTPServer", "URL", "userID", "user_id", "userId", "UserId", "USER_ID", "user-id", "user id", "USERId", "a1b", "a1B", "A1",
       "a_1", "a1_b", "a-1-b", "n1", "field", "field2", "field_2", "Field", "type_field", "r#type", "r#self", "additional_fields", "additionalFields", "additional-fields",
       "rename", "serde", "default", "flatten", "\u0130x", "Straße", "naïve", "__type__", "any", "a..b", "a,", "é1", "1é", "É", "ⅷ", "ª"]
COLLISIONS = [["a", "A"], ["a b", "a_b", "aB", "a-b"], ["a2", "a", "A"], ["a", "A", "a2", "A2"], ["", "field"], ["", " ", "field", "-"], ["é", "è", "field"], ["1", "n1", "n_1"],
              ["type", "type_field", "typeField"], ["object", "object_field", "objectField"], ["class", "class_field", "Class"], ["def", "def_field", "Def"],
              ["fooBar", "foo_bar", "FooBar", "foo-bar", "foo bar", "FOO_BAR", "Foo Bar"], ["x", "X", "x_", "_x"], ["+1", "-1", "1"], ["ab", "aB", "AB", "Ab"],
              ["additional_fields", "x"], ["additionalFields", "additional_fields"], ["id", "ID", "Id", "iD"], ["a1", "a_1", "a 1"], ["n", "N", "ñ"], ["copy", "Copy", "copy_field"],
              ["self", "Self", "SELF"], ["é1", "1", "n1"], ["list", "List", "items"], ["a_b_c", "aBC", "ABC", "a-b-c", "abc"], ["a", "a2", "a3", "A", "Á"]]


def kw(lang):
    fam = {"jackson": "kotlin", "kotlinx": "kotlin", "tsa": "ts", "zod": "ts", "schema": "ts"}.get(lang, lang)
    return KEYWORDS[fam].split(), BUILTINS[fam].split()


def key_samples(lang, quick, r):
    """Samples whose keys are the point."""
    o, a, n, s, t = jv.obj, jv.arr, jv.num, jv.st, jv.bl(True)
    kws, bis = kw(lang)
    allkeys = list(dict.fromkeys(ODD + kws + bis + [k.upper() for k in kws[:12]] + [k.capitalize() for k in kws]
                                 + [b.lower() for b in bis] + ["_" + k for k in kws[:8]] + [k + "s" for k in bis]))
    if quick:
        allkeys = ODD + kws + bis + r.sample(allkeys, 25)
    allkeys = list(dict.fromkeys(allkeys))
    out = []
    for k in allkeys:
        # as a member; as the name of a nested type next to other uses of the library's names
        out.append(o([(k, n(1)), ("other", a([t]))]))
        out.append(a([o([(k, o([("in", n(1))])), ("l", a([s("x")])), ("u", jv.NULL), ("m", n("1.5")), ("b", t), ("opt", n(1))]),
                      o([(k, o([("in", n(2))])), ("l", a([])), ("u", jv.NULL), ("m", n(2)), ("b", jv.NULL)])]))
    for ks in COLLISIONS:
        for perm in ([ks, ks[::-1]] if quick else list(itertools.permutations(ks))[:24]):
            out.append(o([(k, n(i)) for i, k in enumerate(perm)]))
            out.append(o([(k, o([("v%d" % i, n(i))])) for i, k in enumerate(perm)]))
            out.append(a([o([(perm[0], n(1))]), o([(k, n(i)) for i, k in enumerate(perm)])]))
    for i in range(0, len(allkeys), 13):
        out.append(o([(k, n(i)) for k in allkeys[i:i + 13]]))
    for i in range(0, len(allkeys), 9):
        out.append(o([(k, o([(k, o([("leaf%d" % j, n(1))]))])) for j, k in enumerate(allkeys[i:i + 9])]))
    return out


def sharing_samples():
    """Samples in which objects at different positions are the same, nearly the same, or contain each other."""
    L = json.loads
    docs = [
        '[{"x":1},{"x":"s"},{}]', '{"a":{"x":1},"b":{"x":2}}', '{"a":{"x":1,"y":2},"b":{"y":3,"x":4}}', '{"a":{"x":1},"b":{"x":1.5}}', '{"a":{"x":1.5},"b":{"x":1}}',
        '{"a":{"x":1},"b":{"x":null}}', '{"a":{"x":null},"b":{"x":1}}', '{"a":{"x":1},"b":{"x":1,"y":1}}', '{"a":{"x":1,"y":1},"b":{"x":1}}',
        '{"a":[{"x":1},{}],"b":[{"x":1}]}', '{"a":[{"x":1}],"b":[{"x":1},{}]}', '{"a":[{"x":1},{"x":null}],"b":[{"x":1}]}', '{"a":[{"x":1}],"b":[{"x":1},{"x":null}]}',
        '{"a":[{"x":1},{"x":null}],"b":[{"x":null},{"x":2}]}', '{"a":[{"x":1},{}],"b":{"x":null}}', '{"a":{"x":[]},"b":{"x":[1]}}', '{"a":{"x":[1]},"b":{"x":[]}}',
        '{"a":{"x":[]},"b":{"x":[]}}', '{"a":{"x":[1]},"b":{"x":[]},"c":{"x":["s"]}}', '{"a":{"x":[]},"b":{"x":[1]},"c":{"x":["s"]}}',
        '{"a":{"x":{}},"b":{"x":{}}}', '{"a":{},"b":{}}', '{"a":{},"b":[{},{"x":1}]}', '{"a":{"x":{"y":1}},"b":{"x":{"y":1}}}', '{"a":{"x":{"y":1}},"b":{"x":{"y":null}}}',
        '{"v":1,"n":{"v":2,"n":{"v":3,"n":null}}}', '{"v":1,"n":{"v":2,"n":null}}', '[{"v":1,"n":[{"v":2,"n":[]}]}]', '[{"v":1,"n":[{"v":2,"n":[{"v":3,"n":[]}]}]}]',
        '{"v":1,"kids":[{"v":2,"kids":[]},{"v":3,"kids":[{"v":4,"kids":[]}]}]}', '[{"a":{"b":{"a":{}}}}]', '[{"x":{"x":{"x":1}}}]',
        '{"p":[1,"s"],"q":{"p":[1,"s"]}}', '{"a":{"p":[1,"s"]},"b":{"p":["s",1]}}', '{"a":{"p":[1,"s"]},"b":{"p":[2,"t"]}}', '{"a":{"p":[1,"s",true]},"b":{"p":[1,"s"]}}',
        '{"a":{"p":[1,2]},"b":{"p":[1,2]}}', '{"a":{"p":[1,2]},"b":{"p":[1,2,3]}}', '{"a":{"p":[[],"s"]},"b":{"p":[[1],"s"]}}', '{"a":{"p":[[1],["s"]]},"b":{"p":[[],["s"]]}}',
        '{"a":{"p":[[],["s"]]},"b":{"p":[[1],["s"]]}}', '{"a":{"p":[{"x":1},{"x":1}]},"b":{"p":[{"x":2},{"x":3}]}}', '{"a":[{"x":1},"s"],"b":[{"x":2},"t"]}',
        '{"a":{"k":{"x":1},"l":[{"x":2},{"x":3}]},"b":{"x":4}}', '[[{"x":1},"s"],[{"x":2},"t"]]', '[{"m":[{"x":1},{}]},{"m":[{"x":null}]}]',
        '{"as":[{"x":1}],"a":{"x":1},"aS":{"y":1}}', '{"item":{"x":1},"items":[{"x":1,"y":2}],"Item":{"z":1}}', '{"types":[{"a":1}],"type":{"b":1}}',
        '{"root":{"x":1},"Root":{"y":1}}', '{"root":{"root":{"x":1}}}', '[{"root":1}]', '[{"root":{"x":1}}]', '{"a":{"b":{"c":{"d":{"e":1}}}},"b":{"c":{"d":{"e":1}}}}',
        '{"a":{"u":null},"b":{"u":[1,"s",null]}}', '{"a":{"x":1,"y":{"z":[]}},"b":{"y":{"z":[1]},"x":2}}', '{"a":{"n":{"x":1,"y":2}},"b":{"n":{"y":1,"x":2}}}',
        '{"a":[{"n":{"x":1,"y":2}},{"n":null}],"b":[{"n":{"y":1,"x":2}},{"n":null}]}', '{"a":[{"n":{"x":1}},{"n":null}],"b":[{"n":{"x":1}}]}', '{"a":[{"n":{"x":1}}],"b":[{"n":{"x":1}},{}]}',
        '{"a":[{"n":[{"x":1}]},{}],"b":[{"n":[{"x":1}]},{}]}', '{"a":[{"n":[1]},{}],"b":[{"n":[]},{}]}', '{"a":[{"n":[]},{}],"b":[{"n":[1]},{}]}', '{"a":[{"n":[1,2]},{}],"b":[{"n":[3,4]},{}]}',
        '{"a":{"x":true},"b":{"x":1},"c":{"x":"s"},"d":{"x":1.5},"e":{"x":null},"f":{"x":[]},"g":{"x":{}}}', '[{"a":{"x":1}},{"a":{"x":1},"b":{"x":1}},{"b":{"x":"s"}}]',
        '{"a":[[]],"b":[[1]],"c":[[{"x":1}]],"d":{"x":1}}', '{"a":{"x":[[]]},"b":{"x":[[1]]}}', '{"a":{"x":[[1]]},"b":{"x":[[]]}}', '{"a":{"x":[null]},"b":{"x":[1]}}',
        '{"a":{"x":[{"y":1}]},"b":{"x":[]}}', '{"a":{"x":[]},"b":{"x":[{"y":1}]},"c":{"y":1}}',
        # a declaration that is not finished is shared by a position two or more declarations further in
        '{"a":[{"b":[{"a":[]}]}]}', '{"a":[{"b":[{"c":[{"a":[]}]}]}]}', '[{"a":[{"b":{"a":[]}}]}]', '{"a":{"b":[{"c":[]}],"d":{"b":[]}}}',
        '{"x":{"a":[{"b":[{"a":[]},{"a":[]}]}]},"y":{"b":[]}}', '{"k":{"a":[{"b":[{"b":[]}]}]}}', '{"a":[{"b":[{"a":[]}]}],"z":{"a":[]}}',
        '[{"v":1,"n":[{"w":2,"n":[{"v":3,"n":[]}]}]}]', '{"a":[{"p":[{"a":[]},"s"]}]}', '{"a":[{"b":[{"a":null}]},{"b":[{"a":[]}]}]}',
    ]
    return [jv.of(L(d)) for d in docs]


def wide(n):
    return jv.obj([("k%d" % i, jv.num(i)) for i in range(n)])


KEYPOOL = ["a", "b", "A", "id", "type", "class", "fooBar", "foo_bar", "foo-bar", "", "é", "1", "items", "item", "Root", "root", "value", "Value", "list", "def", "in", "$x", "a b", "field",
           "none", "Option", "copy", "n1", "self", "x\"y", "list_field"]


def model_samples(run, quick):
    """Samples of the type allocation machine (TypeAlloc.tla): all small ones."""
    out = []
    st = tlc.run("TypeAlloc", "INIT Init\nNEXT Next\nCHECK_DEADLOCK FALSE\nCONSTANTS Emit = TRUE Size = %d\nINVARIANTS "
                 "Fit Once Accepted Complete Exact Vectors\n" % (2 if quick else 3), timeout=850, heap="12g")
    run.model("TypeAlloc", st, "objects with up to %d members of a pool, in every order, for every language" % (2 if quick else 3))
    for v in tlc.tagged(st["out"], "DOC"):
        out.append(v)
    return out


def samples(run, lang, n_random, n_model=400):
    r = rng("targets", lang, run.prop)
    quick = run.quick()
    base = [c["val"] for c in infer.boundary_cases()]
    out = [(v, -1) for v in base]
    out += [(v, -1) for v in sharing_samples()]
    model = model_samples(run, quick)
    out += [(v, -1) for v in (model if not quick else r.sample(model, min(n_model, len(model))))]
    for m in (0, 1, 2, 3):
        for t in (0, 1, 2, 3):
            out.append((jv.obj([("a", wide(m)), ("b", jv.arr([wide(m), jv.obj([("z", jv.st("s"))])]))]), t))
            out.append((jv.arr([jv.obj([("k%d" % i, jv.obj([("x", jv.num(i))]))]) for i in range(m)]), t))
    g = jv.Gen(r)
    h = jv.Gen(r, keys=KEYPOOL)
    for i in range(n_random):
        v = (g if i % 2 else h).sample(maxsize=45)
        out.append((v, r.choice([-1, -1, -1, -1, 0, 1, 2, 3])))
    return out


ROOTS = ["Root", "Root", "Root", "FooBar", "root", "foo_bar", "ROOT", "Point2", "A", "GeneratedType", "Item", "Root2"]


def lang_cases(run, lang, n_random, hints=True):
    """All kinds of samples for one language."""
    r = rng("cases", lang, run.prop)
    quick = run.quick()
    cases = []
    for v, thr in samples(run, lang, n_random):
        o = {}
        if lang in ("rust", "jackson", "kotlinx", "py") and r.random() < 0.5:
            o["style"] = r.choice(STYLES)
        if lang == "jackson" and r.random() < 0.5:
            o["fmt"] = r.choice(FORMATS)
        if lang in ("jackson", "kotlinx") and r.random() < 0.15:
            o["collect"] = True
        name = r.choice(ROOTS) if r.random() < 0.4 else "Root"
        cases.append(tcase(v, lang, name, thr=thr, spelled=jv.spell(v, r) if r.random() < 0.3 else None, **o))
    for v in key_samples(lang, quick, r):
        o = {}
        if lang == "jackson":
            o["fmt"] = r.choice(["snake_case", "kebab-case", "PascalCase", "lowercase", "camelCase"])
        if lang in ("rust", "py"):
            o["style"] = r.choice(STYLES)
        cases.append(tcase(v, lang, **o))
    # a member that may be absent, spelled like a name of the language or of its library, in front of members of every type
    o, n = jv.obj, jv.num
    names = kw(lang)[1] + (["list", "dict", "items", "value"] if lang != "py" else [])
    for k in dict.fromkeys(y for x in names for y in ([x, x.capitalize(), x.upper(), x + " "] if lang == "py" else [x, r.choice([x.capitalize(), x.upper(), x + " ", "-" + x])])):
        rest = [("l", jv.arr([n(1)])), ("tl", jv.arr([n(1), jv.st("x")])), ("mp", o([("p", n(1))])), ("u", jv.NULL), ("m", n("1.5")), ("i", n(1)), ("b", jv.bl(True)),
                ("s", jv.st("x")), ("e", jv.arr([])), ("in", o([("deep", jv.arr([n(2)]))]))]
        rest = [x for x in rest if x[0] != k]
        v = jv.arr([o([(k, n(1))] + rest), o(rest)])
        cases.append(tcase(v, lang, hints=[{"p": "/-/mp", "t": "map"}] if lang != "schema" else (), style=r.choice(STYLES)))
    if hints and lang != "schema":
        g = jv.Gen(r, keys=KEYPOOL)
        for i in range(60 if quick else 1200):
            v = g.sample(maxsize=30)
            toks = infer.tokens_for(v, r, 1)
            cases.append(tcase(v, lang, hints=[{"p": infer.pointer(toks), "t": r.choice(["map", "Ext", "map"])}]))
    return cases


# ------------------------------------------------------------------------------------------ judging

def judge(run, cases, evs, answers, bad_tags, known_tags=(), chunk=6000):
    found = {}
    for lo in range(0, len(evs), chunk):
        part = evs[lo:lo + chunk]
        bad = tlc.validate("TraceTargets", part, run)
        for i in sorted(bad):
            found[lo + i] = bad[i]
            c, a = cases[lo + i], answers[lo + i]
            hit = bad[i] & set(bad_tags)
            rep = {"sample": c["text"], "lang": c["lang"], "options": c["o"], "hints": c["hints"], "thr": c["thr"], "unwrap": c["unwrap"],
                   "name": c["name"], "tags": sorted(bad[i]), "output": a.get("ok", a), "why": evs[lo + i]["prog"].get("why") if "prog" in evs[lo + i] else evs[lo + i].get("why")}
            if hit:
                run.violation("%s: %s from %s %s (%s)" % (",".join(sorted(hit)), c["lang"], c["text"][:160], c["o"] or "", rep["why"] or ""), rep)
            for t in bad[i] & set(known_tags):
                run.known_finding(t, {"sample": c["text"][:200], "lang": c["lang"]})
            other = bad[i] - set(bad_tags) - set(known_tags)
            if other:
                run.extra.setdefault("tags_of_other_properties", {})
                for t in other:
                    run.extra["tags_of_other_properties"][t] = run.extra["tags_of_other_properties"].get(t, 0) + 1
    return found


def note(run, cases):
    for c in cases[:1] + cases[len(cases) // 2:len(cases) // 2 + 2] + cases[-2:]:
        run.sample({"lang": c["lang"], "name": c["name"], "sample": c["text"][:200], "options": c["o"], "thr": c["thr"], "hints": c["hints"]})
    run.extra["programs"] = len(cases)
    run.extra["distinct_inputs"] = len({(c["lang"], c["text"], str(c["o"]), c["thr"], str(c["hints"]), c["name"]) for c in cases})


TYPES = {"type", "null", "optional", "default", "members", "syntax", "rejected", "crash", "sample-rejected", "accepted", "shared", "other",
         "does-not-compile", "does-not-load", "not-given-back", "any-absent-x", "illegal-member", "same-member", "same-key", "undeclared", "no-root",
         "illegal-name", "duplicate-declaration", "shadows"}


def runev(c, res, back=None, anyabsent=False, inherited=False):
    return {"k": "run", "val": c["val"], "run": {"res": res, "back": back or jv.NULL}, "anyabsent": anyabsent, "inherited": inherited, "usedef": c["o"].get("usedef", False)}


def opaque(c):
    return sorted({h["t"] for h in c["hints"] if h["t"] != "map"})


def is_clean(bad, i):
    return not (bad.get(i, set()) - {"any-absent"})


def existing(o):
    """The imports that the surrounding code is assumed to have."""
    return o.get("style", "add_imports") + ("/serde" if o.get("style") == "assume_existing" and "serde::Serialize" in o.get("derives", ()) else "")


def run_rust(run, cases, answers, bad, picks, edition="2021"):
    """rustc and serde on what was generated: does it compile, take the sample and give it back?"""
    picks = [i for i in picks if "ok" in answers[i] and is_clean(bad, i)]
    got = rt.rust_batch([(answers[i]["ok"], cases[i]["name"], cases[i]["text"], existing(cases[i]["o"]), opaque(cases[i]))
                         for i in picks], edition)
    evs = []
    for i, (res, t) in zip(picks, got):
        back = rt.same_numbers(cases[i]["val"], rt.parse(t)) if res == "back" else None
        e = runev(cases[i], res, back, "any-absent" in bad.get(i, ()))
        e["why"] = t[:300]
        evs.append(e)
    run.extra["compiled_and_run_by_rustc"] = run.extra.get("compiled_and_run_by_rustc", 0) + len(evs)
    return picks, evs


def run_judge(run, cases, answers, picks, evs, known=("any-absent", "inherited-member")):
    judge(run, [cases[i] for i in picks], evs, [answers[i] for i in picks],
          {"does-not-compile", "does-not-load", "not-given-back", "sample-rejected"}, known)


def plan(run, lang, quick_n, thorough_n, **kw):
    cases = lang_cases(run, lang, quick_n if run.quick() else thorough_n, **kw)
    note(run, cases)
    return cases


def spread(r, xs, n):
    xs = list(xs)
    return xs if len(xs) <= n else sorted(r.sample(xs, n))


def decide(run, cases, tags, known):
    """Run the cases through the code and judge what came out."""
    evs, answers = events(cases)
    bad = judge(run, cases, evs, answers, tags, known)
    return evs, answers, bad


def big_numbers(c):
    return "1e400" in c["text"]


def c10(run):
    r = rng("c10")
    cases = plan(run, "rust", 700, 16000)
    evs, answers, bad = decide(run, cases, TYPES, {"any-absent"})
    fit = [i for i, c in enumerate(cases) if not big_numbers(c) and c["name"] not in ("root", "foo_bar")]
    picks, revs = run_rust(run, cases, answers, bad, spread(r, fit, 640 if run.quick() else 6000))
    run_judge(run, cases, answers, picks, revs)
    if not run.quick():
        picks, revs = run_rust(run, cases, answers, bad, spread(r, fit, 1500), "2018")
        run_judge(run, cases, answers, picks, revs)


DERIVE_SETS = [DERIVES, ["Serialize", "Deserialize"], ["serde_derive::Deserialize", "serde_derive::Serialize"], ["Debug", "serde::Serialize", "serde::Deserialize", "Clone"],
               ["serde_derive::Serialize", "serde_derive::Deserialize", "PartialEq", "PartialOrd"], ["Debug"], [], ["std::fmt::Debug", "std::clone::Clone"],
               ["Default", "serde::Deserialize", "serde::Serialize"]]


def c11(run):
    r = rng("c11")
    quick = run.quick()
    vals = [v for v, _ in samples(run, "rust", 300 if quick else 6000)]
    vals += [v for v in key_samples("rust", quick, r)]
    cases = []

    def options():
        o = {}
        if r.random() < 0.4:
            o["derives"] = r.choice(DERIVE_SETS)
        if r.random() < 0.4:
            o["tvis"] = r.choice(["", "pub", "pub(crate)", "pub(super)"])
        if r.random() < 0.4:
            o["fvis"] = r.choice([None, "", "pub", "pub(crate)"])
        for k in ("deny", "usedef", "allowvec", "collect"):
            if r.random() < 0.3:
                o[k] = True
        if r.random() < 0.5:
            o["style"] = r.choice(STYLES)
        if r.random() < 0.5:
            o["fmt"] = r.choice(FORMATS)
        return o

    for v in vals:
        cases.append(tcase(v, "rust", thr=r.choice([-1, -1, -1, 1, 2]), **options()))
    # every option on its own, and every pair of switches, on samples that show what they do
    show = [json.loads(x) for x in (
        '[{"x":1},{"x":"s"},{}]', '[{"a":1,"b":[1],"c":null,"D":{"x":1}},{"b":[],"c":"s","fooBar":2.5}]', '[{"l":[1,"s"]},{"l":null},{}]', '[{"l":[1,2]},{"l":[3,4]},{}]',
        '[{"l":[]},{}]', '[{"l":[null]},{"l":null},{"m":{"k":1}}]', '{"a":{"type":1,"a b":[{"x":1},{}]},"additional_fields":{"z":null}}', '[]', '{}',
        '[{"o":{"x":1}},{"o":null},{}]', '[{"m":{"k":1,"l":2,"m":3}},{}]', '[1,null]', '{"HTTPServer":{"userID":1,"user_id":2,"user-id":3}}')]
    singles = [{}] + [{k: True} for k in ("deny", "usedef", "allowvec", "collect")] + [{"fmt": f} for f in FORMATS] + [{"style": s} for s in STYLES] \
        + [{"tvis": x} for x in ("", "pub", "pub(crate)")] + [{"fvis": x} for x in (None, "", "pub", "pub(crate)")] + [{"derives": d} for d in DERIVE_SETS]
    pairs = [dict(zip(ks, (True,) * len(ks))) for n in (2, 3, 4) for ks in itertools.combinations(("deny", "usedef", "allowvec", "collect"), n)]
    for d in show:
        for o in singles + pairs + [dict(a, **b) for a in pairs[:6] for b in ({"style": "qualified_paths"}, {"fmt": "camelCase"})]:
            cases.append(tcase(jv.of(d), "rust", **o))
        if not quick:
            for a in singles:
                for b in singles:
                    cases.append(tcase(jv.of(d), "rust", **dict(a, **b)))
    note(run, cases)
    evs, answers, bad = decide(run, cases, TYPES | {"derives", "type-visibility", "field-visibility", "deny-unknown-fields", "use-default",
                                                    "collect-additional", "rename-all", "attributes", "imports"}, {"any-absent"})
    both = [i for i, c in enumerate(cases) if any(x.endswith("Serialize") for x in c["o"].get("derives", DERIVES))
            and any(x.endswith("Deserialize") for x in c["o"].get("derives", DERIVES)) and not big_numbers(c)
            and not (c["o"].get("deny") and c["o"].get("collect"))
            and not (c["o"].get("usedef") and "Default" not in c["o"].get("derives", DERIVES))      # serde(default) needs Default
            and not (c["o"].get("derives") == ["Serialize", "Deserialize"] and c["o"].get("style") != "assume_existing")
            and not ("PartialOrd" in c["o"].get("derives", DERIVES))]
    picks, revs = run_rust(run, cases, answers, bad, spread(r, both, 480 if quick else 5000))
    run_judge(run, cases, answers, picks, revs)


def c12(run):
    r = rng("c12")
    for lang in ("ts", "tsa"):
        cases = plan(run, lang, 500, 14000)
        cases += [tcase(jv.of([{k: 1}, {}]), lang) for k in ("constructor", "toString", "valueOf", "hasOwnProperty")]
        evs, answers, bad = decide(run, cases, TYPES | {"unreachable"}, {"any-absent"})
        ok = [i for i in range(len(cases)) if "ok" in answers[i] and is_clean(bad, i)]
        picks = sorted(set(spread(r, ok, 500 if run.quick() else 5000)) | set(ok[-4:]))
        got = rt.tsc_batch([(answers[i]["ok"], cases[i]["name"], cases[i]["val"], opaque(cases[i])) for i in picks])
        revs = []
        for i, errs in zip(picks, got):
            res = "back" if not errs else "reject" if all(e["sample"] for e in errs) else "compile"
            e = runev(cases[i], res, cases[i]["val"], "any-absent" in bad.get(i, ()), all(x["inherited"] for x in errs))
            e["why"] = str(errs[:2])[:300]
            revs.append(e)
        run.extra["type_checked_by_tsc"] = run.extra.get("type_checked_by_tsc", 0) + len(revs)
        run_judge(run, cases, answers, picks, revs)


def c13(run):
    cases = plan(run, "schema", 900, 25000)
    evs, answers, bad = decide(run, cases, TYPES, {"any-absent"})
    picks = [i for i in range(len(cases)) if "ok" in answers[i] and is_clean(bad, i)]
    revs = []
    for i in picks:
        w = rt.schema_check(answers[i]["ok"], cases[i]["val"])
        e = runev(cases[i], w[0] if w else "back", cases[i]["val"], "any-absent" in bad.get(i, ()))
        e["why"] = str(w)
        revs.append(e)
    run.extra["validated_by_jsonschema"] = len(revs)
    run_judge(run, cases, answers, picks, revs)


def c14(run):
    cases = plan(run, "zod", 900, 25000)
    evs, answers = events(cases)
    for c, e in zip(cases, evs):
        # the one exported constant has a name made from the root name
        if e["prog"]["ok"] and not (e["prog"].pop("exported", "").lower().replace("_", "") == c["name"].lower().replace("_", "") + "schema"):
            e["prog"]["other"].append("export")
    judge(run, cases, evs, answers, TYPES | {"any-absent"})


def c15(run):
    for lang in ("jackson", "kotlinx"):
        cases = plan(run, lang, 500, 14000)
        decide(run, cases, TYPES | {"naming-strategy", "attributes", "collect-additional", "any-absent", "imports"}, ())


def c16(run):
    cases = plan(run, "py", 900, 25000)
    evs, answers, bad = decide(run, cases, TYPES | {"any-absent", "imports"}, ())
    picks = [i for i in range(len(cases)) if "ok" in answers[i] and is_clean(bad, i)]
    revs = []
    for i in picks:
        w = prog.python_runs(answers[i]["ok"], evs[i]["prog"], cases[i]["o"].get("style", "add_imports"), opaque(cases[i]))
        e = runev(cases[i], "load" if w else "back", cases[i]["val"])
        e["why"] = str(w)
        revs.append(e)
    run.extra["modules_loaded"] = len(revs)
    run_judge(run, cases, answers, picks, revs, ())


def naming_vectors(run):
    """Sequences of keys of the naming machine, after TLC has checked it."""
    quick = run.quick()
    out = []
    for n, pool in ((2, "short"), (2, "trouble"), (1, "triples")) if quick else ((3, "short"), (3, "trouble"), (2, "triples")):
        st = tlc.run("NamingModel", "INIT Init\nNEXT Next\nCHECK_DEADLOCK FALSE\nCONSTANTS MaxKeys = %d Emit = TRUE PoolName = \"%s\"\n"
                     "INVARIANTS Legal Distinct BoundToKey Vectors\n" % (n, pool), heap="12g", timeout=850)
        run.model("NamingModel", st, "all sequences of up to %d keys from pool %s, every language and format" % (n, pool))
        out.append(tlc.tagged(st["out"], "KEYS"))
    return out


KEYTAGS = {"illegal-member", "same-member", "same-key", "members", "syntax", "crash", "rejected", "sample-rejected", "does-not-compile", "does-not-load", "not-given-back"}


def c17(run):
    r = rng("c17")
    quick = run.quick()
    vecs = naming_vectors(run)
    keysets = []
    for i, v in enumerate(vecs):
        keysets += v if len(v) <= (700 if quick else 6000) else r.sample(v, 700 if quick else 6000)
    # several keys of the model at once, so that more collide
    flat = [k for v in vecs for ks in v for k in ks]
    for i in range(300 if quick else 3000):
        keysets.append(list(dict.fromkeys(r.choice(flat + ODD) for _ in range(r.randint(2, 9)))))
    # spellings that fall together, beside the numbered names that would be given to them
    for i in range(250 if quick else 4000):
        base = r.choice(["a", "B", "x", "self", "type", "class", "_", "1", "foo bar", "\u00e9"])
        near = [base, base.upper(), base.capitalize(), "_" + base, base + "_", "-" + base, base + " ", base + "'", "$" + base]
        near = r.sample(near, r.randint(2, 4))
        near += [r.choice([base, base, base.capitalize(), "_" + base]) + r.choice(["", "", "_", " "]) + str(k) for k in r.sample(range(1, 7), r.randint(1, 4))]
        r.shuffle(near)
        keysets.append(list(dict.fromkeys(near)))
    chars = [chr(c) for c in list(range(0, 0x100)) + [0x130, 0x131, 0x149, 0x1c5, 0x1f0, 0x2b0, 0x37a, 0x3a3, 0x3c2, 0x587, 0x660, 0x966, 0xb2, 0x1e9e, 0x2028, 0x2029, 0x2160, 0x2c6f,
                                                      0x200c, 0x200d, 0x203f, 0xfb00, 0xfe4d, 0xff10, 0xff21, 0xff3f, 0xffff, 0x10400, 0x1d400, 0x1f600, 0xe0100, 0x10ffff, 0xd7ff, 0xe000]]
    for ch in chars:
        keysets.append([ch])
        keysets.append(list(dict.fromkeys([ch + "a", "a" + ch, "a" + ch + "b", ch + ch])))
    for lang in ("rust", "jackson", "kotlinx", "py", "ts", "tsa", "schema", "zod"):
        cases = [tcase(v, lang, **({"fmt": r.choice(FORMATS)} if lang in ("rust", "jackson") and r.random() < 0.7 else {})) for v in key_samples(lang, quick, r)]
        sets = keysets if lang in ("rust", "jackson", "kotlinx", "py") else r.sample(keysets, min(len(keysets), 500 if quick else 5000)) + [[c] for c in chars]
        for ks in sets:
            o = {}
            if lang in ("rust", "jackson") and r.random() < 0.7:
                o["fmt"] = r.choice(FORMATS)
            if lang in ("rust", "jackson", "kotlinx") and r.random() < 0.1:
                o["collect"] = True
            cases.append(tcase(jv.obj([(k, jv.num(j)) for j, k in enumerate(ks)]), lang, **o))
        note(run, cases)
        evs, answers, bad = decide(run, cases, KEYTAGS, ())
        if lang == "rust":
            picks, revs = run_rust(run, cases, answers, bad, spread(r, [i for i, c in enumerate(cases) if not big_numbers(c)], 560 if quick else 5000))
            run_judge(run, cases, answers, picks, revs, ())
        elif lang == "py":
            picks = [i for i in range(len(cases)) if "ok" in answers[i] and is_clean(bad, i)]
            revs = []
            for i in picks:
                w = prog.python_runs(answers[i]["ok"], evs[i]["prog"], cases[i]["o"].get("style", "add_imports"))
                revs.append(dict(runev(cases[i], "load" if w else "back", cases[i]["val"]), why=str(w)))
            run_judge(run, cases, answers, picks, revs, ())


NAMETAGS = {"duplicate-declaration", "illegal-name", "undeclared", "no-root", "unreachable", "shadows", "imports", "syntax", "crash"}


def c18(run):
    r = rng("c18")
    quick = run.quick()
    for lang in ("rust", "ts", "jackson", "kotlinx", "py", "tsa"):
        cases = plan(run, lang, 300, 8000)
        kws, bis = kw(lang)
        # nested types named like everything the code may use, and like the root
        names = bis + kws + ["root", "Root", "ROOT", "root_", "roots", "Roots", "Root2", "root 2", "item", "1", "", "é", "-", "$", "a", "A", "list", "lists"]
        g = jv.Gen(r, keys=names)
        for i in range(400 if quick else 8000):
            o = {}
            if lang in ("rust", "jackson", "kotlinx", "py"):
                o["style"] = r.choice(STYLES)
            if lang in ("rust", "jackson", "kotlinx") and r.random() < 0.2:
                o["collect"] = True
            cases.append(tcase(g.sample(maxsize=40), lang, name=r.choice(ROOTS + ["List", "Value", "Map", "Any", "Items", "Type"][:0]), thr=r.choice([-1, -1, 2]), **o))
        for k in names:
            for st in (STYLES if lang in ("rust", "jackson", "kotlinx", "py") else [None]):
                o = {"style": st} if st else {}
                if lang == "rust" and r.random() < 0.5:
                    o["derives"] = r.choice([["serde::Serialize", "serde::Deserialize"], ["std::fmt::Debug", "serde_derive::Serialize", "serde_derive::Deserialize"]])
                inner = jv.of({k: {"u": None, "l": [1], "m": {"a": 1, "b": 2, "c": 3}, "o": [{"z": 1}, {}], "t": [1, "s"], "f": 1.5, "s": "s", "b": True}})
                cases.append(tcase(inner, lang, thr=2 if r.random() < 0.0 else -1, **o))
                cases.append(tcase(jv.of([{k: [{"x": 1}]}, {k: None}]), lang, **o))
        note(run, cases)
        evs, answers, bad = decide(run, cases, NAMETAGS, ())
        if lang == "rust":
            picks, revs = run_rust(run, cases, answers, bad, spread(r, [i for i, c in enumerate(cases) if not big_numbers(c)], 480 if quick else 4000))
            judge(run, [cases[i] for i in picks], revs, [answers[i] for i in picks], {"does-not-compile"}, ())
        elif lang == "ts":
            picks = spread(r, [i for i in range(len(cases)) if "ok" in answers[i] and is_clean(bad, i)], 400 if quick else 4000)
            got = rt.tsc_batch([(answers[i]["ok"], cases[i]["name"], cases[i]["val"], opaque(cases[i])) for i in picks])
            revs = [dict(runev(cases[i], "compile" if any(not e["sample"] for e in errs) else "none"), why=str(errs)[:300]) for i, errs in zip(picks, got)]
            judge(run, [cases[i] for i in picks], revs, [answers[i] for i in picks], {"does-not-compile"}, ())
        elif lang == "py":
            picks = [i for i in range(len(cases)) if "ok" in answers[i] and is_clean(bad, i)]
            revs = []
            for i in picks:
                w = prog.python_runs(answers[i]["ok"], evs[i]["prog"], cases[i]["o"].get("style", "add_imports"), opaque(cases[i]))
                revs.append(dict(runev(cases[i], "load" if w else "none"), why=str(w)))
            judge(run, [cases[i] for i in picks], revs, [answers[i] for i in picks], {"does-not-load"}, ())


def c19(run):
    r = rng("c19")
    quick = run.quick()
    model = model_samples(run, quick)
    g = jv.Gen(r, keys=["a", "b", "c", "x", "y"], maxdepth=5)
    for lang in ("rust", "ts", "jackson", "kotlinx", "py"):
        vals = list(sharing_samples()) + (model if not quick else r.sample(model, min(len(model), 289)))
        if not quick:
            vals = vals if len(vals) <= 6000 else r.sample(vals, 6000)
        # the same object, or slight variants of it, at several places
        for i in range(500 if quick else 9000):
            base = g.object(r.randint(1, 3))
            places = [(k, base if r.random() < 0.4 else g.mutate(base, 0.3, 2)) for k in r.sample(["a", "b", "c", "d", "e"], r.randint(2, 4))]
            places = [(k, r.choice([v, jv.arr([v]), jv.arr([v, g.mutate(base, 0.2, 2)]), jv.obj([("in", v)]), jv.arr([v, jv.NULL])])) for k, v in places]
            v = jv.obj(places)
            if jv.size(v) < 80:
                vals.append(v if r.random() < 0.8 else jv.arr([v, g.mutate(v, 0.1, 3)]))
        # deep chains of the same structure
        for d in (2, 3, 6, 12):
            for leaf in (jv.NULL, jv.arr([]), jv.obj([])):
                v, w = leaf, leaf
                for i in range(d):
                    v = jv.obj([("v", jv.num(i)), ("next", v)])
                    w = jv.obj([("v", jv.num(i)), ("next", jv.arr([w]) if w["k"] == "obj" else w)])
                vals += [v, jv.arr([v]), w]
        cases = [tcase(v, lang, thr=r.choice([-1, -1, -1, -1, 3]), **({"usedef": True} if lang == "rust" and r.random() < 0.1 else {})) for v in vals]
        note(run, cases)
        decide(run, cases, {"shared", "declared-twice", "crash"}, ())
