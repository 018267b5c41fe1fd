"""C28: only the structure of a sample shows in the program (spec/Skeleton.tla)."""
import hashlib, os, string
from vlib import drv, env, jv, shape, tlc
from vlib.env import rng
from . import infer, targets

CFG = """INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
CONSTANTS Depth = %d Emit = TRUE PoolName = "%s"
Strings = {"", "null", "1", "x"} Integers = {"0", "-1", "9223372036854775807"} Others = {"-0", "1e9", "9223372036854775808"}
INVARIANTS SameSkeleton Structure Order Pairs
"""
# what a generator might be tempted to look into
STRINGS = ["", " ", "a", "null", "true", "false", "0", "1", "-1", "1.5", "1e3", "NaN", "Infinity", "undefined", "None", "2020-01-01", "2020-01-01T00:00:00Z", "2020-01-01T12:34:56.789+02:00",
           "12:00", "12:00:00", "1600000000", "PT5M", "P1D", "2020-W01", "Wed, 21 Oct 2015 07:28:00 GMT", "http://example.com/", "https://x.y/z?a=b#c", "ftp://x", "mailto:a@b.c", "a@b.c",
           "123e4567-e89b-12d3-a456-426614174000", "00000000-0000-0000-0000-000000000000", "127.0.0.1", "::1", "fe80::1%eth0", "example.com", "+49 30 123456", "#ff0000", "rgb(1,2,3)", "USD", "en-US", "DE",
           "aGVsbG8=", "SGVsbG8gd29ybGQ", "0xdeadbeef", "deadbeef", "d41d8cd98f00b204e9800998ecf8427e", "1.2.3", "v1.0.0-rc1", "{}", "[]", "{\"a\":1}", "[1,2]", "\"x\"", "<xml/>", "a,b,c", "A", "RED", "GREEN", "foo_bar",
           "fooBar", "FOO", "Root", "root", "type", "class", "String", "9223372036854775807", "9223372036854775808", "1" * 40, "é", "ß", "日本", "\U0001F600", "\u202e", "\u0000", "\n", "\t", "\"", "\\", "'", "*/", "/*", "//", "--",
           "\"\"\"", "'''", "${x}", "%s", "{{x}}", "</script>", "x" * 300, "long text with words " * 20, "/path/to", "C:\\x", "../..", "file:///x", "data:text/plain,x", "$ref", "M", "F", "Y", "N", "yes", "no", "on", "off", "1,5", "1 000"]
INTS = ["0", "1", "-1", "2", "7", "10", "42", "100", "127", "128", "-128", "-129", "255", "256", "1000", "32767", "32768", "-32768", "65535", "65536", "2147483647", "2147483648", "-2147483648", "-2147483649",
        "4294967295", "4294967296", "9007199254740991", "9007199254740992", "-9007199254740993", "9223372036854775807", "-9223372036854775808", "1600000000", "1600000000000", "20200101", "1999", "2020"]
FLOATS = ["0.0", "1.0", "-1.0", "0.5", "1.5", "-0", "-0.0", "1e3", "1E3", "1e-3", "0.1", "3.14159265358979323846", "100.00", "1e38", "3.5e38", "1e308", "1e400", "-1e400", "1e-400", "9223372036854775808", "18446744073709551615",
          "18446744073709551616", "-9223372036854775809", "100000000000000000000", "0.30000000000000004", "1e9", "2e0", "20.20"]


# members whose names suggest a kind of value
TELLING = ["url", "uri", "href", "link", "date", "created_at", "updatedAt", "time", "timestamp", "ts", "email", "phone", "uuid", "guid", "id", "_id", "user_id", "count", "total", "size", "length", "price", "amount", "currency",
           "is_active", "enabled", "flag", "status", "state", "kind", "type", "role", "gender", "country", "lang", "locale", "lat", "lng", "age", "year", "version", "hash", "sha", "token", "key", "name", "title", "path", "file",
           "image", "color", "ip", "host", "port", "duration", "tags", "password", "base64", "data", "payload", "value", "percent", "ratio", "score"]
LENGTHS = [15, 16, 17, 31, 32, 33, 36, 40, 63, 64, 65, 99, 100, 101, 127, 128, 129, 255, 256, 257, 511, 512, 1000, 1023, 1024, 1025, 4095, 4096, 4097]


def members(v, out):
    for e in v.get("m", ()):
        out.append(e["n"])
        members(e["v"], out)
    for x in v.get("a", ()):
        members(x, out)
    return out


def words(r, near=()):
    c = r.randrange(8)
    if c == 5 and near:
        return r.choice(near)
    if c == 6:
        return r.choice("aZ0 é\"\n日") * r.choice(LENGTHS)
    if c == 0:
        return "".join(r.choice(string.ascii_letters) for _ in range(r.choice([1, 3, 12, 60])))
    if c == 1:
        return "".join(r.choice(string.digits) for _ in range(r.choice([1, 4, 8, 20])))
    if c == 2:
        return "".join(chr(r.choice([r.randrange(32, 127), r.randrange(0, 32), r.randrange(0xa0, 0x800), r.randrange(0x3000, 0x3100), r.randrange(0x1f300, 0x1f600)])) for _ in range(r.choice([1, 2, 9])))
    return r.choice(STRINGS)


def is_int(t):
    try:
        return t != "-0" and -2 ** 63 <= int(t) < 2 ** 63
    except ValueError:
        return False


def same(v, w):
    """As Skeleton!Same, for a quick look."""
    if v["k"] != w["k"]:
        return False
    if v["k"] == "num":
        return is_int(v["t"]) == is_int(w["t"])
    if v["k"] == "arr":
        return len(v["a"]) == len(w["a"]) and all(map(same, v["a"], w["a"]))
    return v["k"] != "obj" or (len(v["m"]) == len(w["m"]) and all(x["n"] == y["n"] and same(x["v"], y["v"]) for x, y in zip(v["m"], w["m"])))


def tweak(v, r, p, more, near=None):
    """Another sample with the same skeleton."""
    if near is None:
        near = members(v, ["Root"])
    k = v["k"]
    if k in ("str", "num", "bool") and r.random() >= p:
        return v
    if k == "str":
        return jv.st(words(r, near))
    if k == "bool":
        return jv.bl(r.random() < 0.5)
    if k == "num":
        if r.random() < 0.7:
            return jv.num(r.choice(INTS if is_int(v["t"]) else FLOATS))
        return jv.num(str(r.randrange(-2 ** 63, 2 ** 63) >> r.randrange(64)) if is_int(v["t"]) else r.choice(["%d.%d", "%de%d", "%d.0e-%d"]) % (r.randrange(-10 ** 6, 10 ** 6), r.randrange(300)))
    if k == "arr":
        a = [tweak(x, r, p, more, near) for x in v["a"]]
        if more and len(a) > 12 and all(same(v["a"][0], x) for x in v["a"]):
            a += [tweak(r.choice(v["a"]), r, p, more, near) for _ in range(r.choice([1, 2, 5, 30]) if jv.size(v) < 200 else 1)]
        return jv.arr(a)
    if k == "obj":
        return jv.obj([(e["n"], tweak(e["v"], r, p, more, near)) for e in v["m"]])
    return v


def short_lists(v):
    """No list that could be a tuple."""
    if v["k"] == "arr":
        return not 2 <= len(v["a"]) <= 12 and all(map(short_lists, v["a"]))
    if v["k"] == "obj":
        return all(short_lists(e["v"]) for e in v["m"])
    return True


def stretch(v, r):
    """Lists that could be tuples made longer than those."""
    if v["k"] == "arr":
        a = [stretch(x, r) for x in v["a"]]
        if 2 <= len(a) <= 12:
            a = a[:1] if r.random() < 0.3 else a + [r.choice(a) for _ in range(13 - len(a))]
        return jv.arr(a)
    if v["k"] == "obj":
        return jv.obj([(e["n"], stretch(e["v"], r)) for e in v["m"]])
    return v


def given(s, opt=False):
    """A reported structure as one to be handed over."""
    if opt:
        return {"k": "optional", "e": given(s)}
    if s["k"] in ("vec", "map", "nullable", "optional"):
        return dict(s, e=given(s["e"]))
    if s["k"] == "tuple":
        return dict(s, es=[given(x) for x in s["es"]])
    if s["k"] == "struct":
        return {"k": "struct", "f": [{"n": f["n"], "s": given(f["s"], f["o"])} for f in s["f"]]}
    return s


def answer(a):
    if "ok" in a:
        return {"a": "ok", "out": hashlib.sha1(a["ok"].encode("utf-8", "surrogatepass")).hexdigest()}
    return {"a": "err", "out": a["err"][:300]} if "err" in a else {"a": "crash", "out": ""}


def request(c, i):
    q = targets.request(dict(c, lang="ts") if c["lang"] == "shape" else c, i)
    q["ast"] = False
    if c["lang"] == "shape":
        q["opts"]["output_mode"] = "shape"
    return q


def options(r, lang):
    o = {}
    if lang in ("rust", "jackson", "kotlinx", "py"):
        o["style"] = r.choice(targets.STYLES)
    if lang in ("rust", "jackson", "kotlinx") and r.random() < 0.3:
        o["fmt"] = r.choice(targets.FORMATS)
    for k in ("collect", "deny", "usedef", "allowvec"):
        if r.random() < 0.2:
            o[k] = True
    return o


LANGS = ["rust", "ts", "tsa", "jackson", "kotlinx", "py", "schema", "zod", "shape"]


def c28(run):
    quick = run.quick()
    r = rng("c28")
    pairs = []
    for pool, depth in (("flat", 2), ("long", 1)) if quick else (("flat", 5), ("long", 2)):
        st = tlc.run("SkeletonModel", CFG % (depth, pool), timeout=2500, heap="12g")
        run.model("SkeletonModel", st, "all sequences of %d steps from the samples of pool %s, pointers and thresholds" % (depth, pool))
        found = [(v["a"], v["b"]) for v in tlc.tagged(st["out"], "PAIR")]
        pairs += found if len(found) <= 6000 else r.sample(found, 6000)
    run.log("model done", len(pairs), "pairs")
    binary = env.build("drv") + "/drv"
    cases, evs = [], []

    def add(a, b, lang, **kw):
        """Two requests that differ in the sample alone."""
        cases.append(targets.tcase(a, lang, spelled=jv.text(a) if r.random() < 0.5 else jv.spell(a, r), **kw))
        cases.append(targets.tcase(b, lang, spelled=jv.text(b) if r.random() < 0.5 else jv.spell(b, r), **kw))
        evs.append({"k": "pair", "a": a, "b": b})

    for a, b in pairs:
        for lang in r.sample(LANGS, 2):
            add(a, b, lang, unwrap=r.choice(["", "", "", "/-", "/a"]), thr=r.choice([-1, -1, 0, 1, 2]), **options(r, lang))
    g = jv.Gen(r, keys=jv.KEYS + targets.ODD[:40] + TELLING, strs=STRINGS, ints=INTS, floats=FLOATS)
    for i in range(900 if quick else 30000):
        v = g.sample(maxsize=r.choice([8, 30, 80]))
        if r.random() < 0.2:          # a long list of one kind
            one = r.choice([g.scalar(), g.object(2)])
            v = jv.obj([("a", jv.arr([tweak(one, r, 1, False) for _ in range(r.choice([13, 14, 20]))])), ("b", v)])
        lang = r.choice(LANGS)
        kw = dict(name=r.choice(["Root", "Foo", "foo bar", "R2"]), unwrap=r.choice(["", "", "", "/-", "/a", "/a/-", "/-/id"]), thr=r.choice([-1, -1, -1, 0, 1, 3]),
                  hints=[{"p": r.choice(["", "/a", "/-", "/-/a", "/b/c"]), "t": r.choice(["map", "Foo", "a::B"])}] if r.random() < 0.15 else (), **options(r, lang))
        for _ in range(3):
            add(v, tweak(v, r, r.choice([0.3, 1, 1]), r.random() < 0.5), lang, **kw)
    # each kind of scalar, with everything that could be put there
    for lang in LANGS:
        for v, alts in ((jv.st("x"), [jv.st(s) for s in STRINGS]), (jv.num("5"), [jv.num(t) for t in INTS]), (jv.num("2.5"), [jv.num(t) for t in FLOATS]), (jv.bl(True), [jv.bl(False)])):
            frames = [lambda x: jv.obj([("a", x)]), lambda x: jv.arr([x]), lambda x: jv.arr([x, jv.NULL, jv.obj([("k", x)])]), lambda x: jv.arr([jv.obj([("a", x), ("b", v)]), jv.obj([("b", x)])]),
                      lambda x: jv.arr([x] * 13), lambda x: jv.obj([("a", jv.arr([x, v]))])]
            for x in alts:
                for f in frames if not quick else [r.choice(frames)]:
                    add(f(v), f(x), lang)
    # members with telling names, and values that go with them
    for i in range(500 if quick else 8000):
        ks = r.sample(TELLING, r.choice([1, 2, 3]))
        lang = r.choice(LANGS)
        one = lambda k: jv.st(words(r)) if k < 0.5 else jv.num(r.choice(INTS)) if k < 0.75 else jv.num(r.choice(FLOATS)) if k < 0.9 else jv.bl(True)  # noqa: E731
        v = jv.obj([(k, r.choice([lambda x: x, lambda x: jv.arr([x]), lambda x: jv.arr([x, tweak(x, r, 1, False)])])(one(r.random()))) for k in ks])
        v = r.choice([v, v, jv.arr([v]), jv.arr([v, tweak(v, r, 1, False), v])])
        for _ in range(2):
            add(v, tweak(v, r, 1, False), lang, name=r.choice(["Root", ks[0]]), **options(r, lang))
    # samples longer than any buffer
    for lang in LANGS:
        for n in (3000, 20000) if quick else (3000, 20000, 200000):
            a = jv.obj([("s", jv.st("x")), ("l", jv.arr([jv.obj([("k", jv.num("1"))])] * 13))])
            add(a, jv.obj([("s", jv.st("y" * n)), ("l", jv.arr([jv.obj([("k", jv.num(str(i)))]) for i in range(min(n, 3000) // 10)]))]), lang)
    # long lists of all lengths
    for n in sorted(set(range(13, 41)) | {63, 64, 65, 99, 100, 101, 127, 128, 129, 200, 255, 256, 257, 500, 512, 999, 1000, 1001, 1024}):
        for one in (jv.num("1"), jv.st("x"), jv.obj([("k", jv.num("1")), ("l", jv.st("u"))]), jv.arr([jv.num("1.5")])) if not quick or n < 41 else (jv.num("1"), jv.obj([("k", jv.st("u"))])):
            lang = r.choice(LANGS)
            frame = r.choice([lambda x: x, lambda x: jv.obj([("a", x)])])
            add(frame(jv.arr([one] * 13)), frame(jv.arr([tweak(one, r, 1, False) for _ in range(n)])), lang, **options(r, lang))
    ans = drv.run(binary, [request(c, i) for i, c in enumerate(cases)])
    for e, i in zip(evs, range(0, len(ans), 2)):
        e["ra"], e["rb"] = answer(ans[i]), answer(ans[i + 1])
    info = [(cases[i], cases[i + 1]["text"], ans[i], ans[i + 1]) for i in range(0, len(ans), 2)]
    run.log("pairs done", len(evs))
    # the structure handed over directly
    bases, seen = [], 0
    while len(bases) < (700 if quick else 15000):
        v = stretch(g.sample(maxsize=40), r)
        if short_lists(v) and jv.size(v) < 600:
            kw = dict(unwrap=r.choice(["", "", "", "/-", "/a"]), thr=r.choice([-1, -1, 0, 1, 3]))
            bases.append(targets.tcase(v, "shape", spelled=jv.text(v), **kw))
    shapes = drv.run(binary, [request(c, i) for i, c in enumerate(bases)])
    more, gevs = [], []
    for c, a in zip(bases, shapes):
        if "ok" not in a:
            continue
        s = shape.parse(a["ok"])
        lang = r.choice([x for x in LANGS if x != "shape"])
        c = dict(c, lang=lang, o=options(r, lang), name=r.choice(["Root", "Foo", "foo bar"]))
        q = request(c, len(cases) + len(more))
        h = {k: x for k, x in q.items() if k not in ("input", "hex", "path")}
        h["opts"] = {k: x for k, x in h["opts"].items() if k != "unwrap"}
        more += [q, dict(h, via="shape", shape=given(s))]
        gevs.append({"k": "given", "a": c["val"], "shape": s, "unwrap": c["unwrap"], "hints": [], "thr": c["thr"]})
        info.append((c, "structure " + a["ok"], None, None))
    ans = drv.run(binary, more)
    for j, (e, i) in enumerate(zip(gevs, range(0, len(ans), 2))):
        e["ra"], e["rb"] = answer(ans[i]), answer(ans[i + 1])
        k = len(evs) + j
        info[k] = info[k][:2] + (ans[i], ans[i + 1])
    evs += gevs
    run.log("structures done", len(gevs))
    bad = tlc.validate("TraceSkeleton", evs, run)
    odd = 0
    for i in sorted(bad):
        c, other, x, y = info[i]
        if "not-same" in bad[i]:
            if evs[i]["k"] == "pair":
                raise env.ToolError("not the same skeleton: %s and %s" % (c["text"][:300], other[:300]))
            odd += 1          # the structure is not that of the sample: judged by C02, C07 and C09
            continue
        run.violation("%s: %s and %s, mode %s, unwrap=%r thr=%s" % (",".join(sorted(bad[i])), c["text"][:200], other[:200], c["lang"], c["unwrap"], c["thr"]),
                      {"samples": [c["text"], other], "mode": c["lang"], "options": c["o"], "name": c["name"], "unwrap": c["unwrap"], "thr": c["thr"], "hints": c["hints"], "answers": [x, y]})
    run.extra["pairs"] = sum(e["k"] == "pair" for e in evs)
    run.extra["structures_given"] = len(gevs)
    run.extra["successful"] = sum(e["ra"]["a"] == "ok" for e in evs)
    run.extra["structure_not_canonical"] = odd
    run.sample({"samples": [info[0][0]["text"], info[0][1]]})
    run.assumptions += ["structures are handed over for samples without lists of 2 to 12 elements, as the output mode shape does not tell tuples from lists",
                        "whether the inferred structure is right is decided by C01 to C03, C07 to C09"]
