"""C31: names in the generated code are made of the words of the sample's member names (spec/Words.tla)."""
from vlib import jv, tlc
from vlib.env import rng
from . import infer, targets

LANGS = ["rust", "jackson", "kotlinx", "py", "ts"]
# what lists are called, and what only looks like it
LISTS = ("series cookies movies queries abilities legalities ies les pes ss es is as us os news s S IES Series NEWS tables files examples types recipes tapes shapes classes guesses boxes "
         "axis analysis canvas gas status virus photos videos kudos lens moves lives leaves matrices indices slices children people data items values keys entries addresses buses "
         "foreignNames categoryKeys userIDs user_ids user-ids URLs HTTPs x1s ids id1s a1 as2 s_ s- 's ses les_ pies dies ties lies caches axes yes no news_ newsletters sheep _s 1s 2ies ys "
         "oS uS aS iS eS sS\u00e9s \u00e9ies ies\u00e9 \u017fs \u212as \u00dfs movies2 moviesx Movies COOKIES mOvIeS subseries pseudonews").split()
PARTS = ["foo", "Bar", "BAZ", "a", "B", "x1", "1", "22", "1st", "HTTP", "Id", "ID", "qU", "\u00e9", "\u00e9a", "A\u00e9", "\u65e5", "ss", "type", "self", "Self", "none", "True", "s", "ies",
         "field", "Generated", "vec", "Any", "list", "2", "02", "9"]
SEPS = ["", "", "_", "__", "-", " ", ".", "/", ":", "$", "@", "\u00e9", "\u00a0", "\u2028", "\u0001", "\u007f", "\u0000", "\t", "\n", "'", "\"", "\\", "+", "\U0001F600"]


def wordy(r):
    out = r.choice(["", "", "", "_", "$", " ", "\u00e9", "-"])
    for i in range(r.choice([1, 1, 2, 2, 3, 4])):
        out += (r.choice(SEPS) if i else "") + r.choice(PARTS)
    return out + r.choice(["", "", "", "s", "_", " ", "ies", "2", "\u00e9"])


def nested(r, ks, depth=2):
    """An object whose members hold objects, each of its own structure."""
    def inner(k):
        c = r.randrange(9)
        o = jv.obj([("v%d" % r.randrange(10 ** 6), jv.num(1))])
        if depth and r.random() < 0.4:
            o = nested(r, r.sample(ks, min(len(ks), r.choice([1, 2, 3]))), depth - 1)
        if c < 3:
            return o
        if c < 6:
            return jv.arr([o] * r.choice([1, 1, 2, 13]))
        if c == 6:
            return jv.arr([jv.arr([o])])
        if c == 7:
            return jv.arr([o, jv.st("s")])
        return r.choice([jv.num(1), jv.NULL, jv.arr([jv.arr([jv.arr([o])])]), jv.arr([jv.num(1), o, jv.bl(True)])])
    return jv.obj([(k, inner(k)) for k in dict.fromkeys(ks)])


def keys_in(v, out):
    for e in v.get("m", ()):
        out.add(e["n"])
        keys_in(e["v"], out)
    for x in v.get("a", ()):
        keys_in(x, out)
    return out


ROOTS = ["Root", "Root", "Root", "Items", "items", "movies", "Series", "fooBars", "foo_bars", "ROOTS", "Classes", "GeneratedType", "A", "Vec", "Value", "List", "Any", "Root2", "S"]


def c31(run):
    quick = run.quick()
    r = rng("c31")
    n = 5 if quick else 6
    st = tlc.run("WordsModel", "INIT Init\nNEXT Next\nCHECK_DEADLOCK FALSE\nCONSTANTS MaxLen = %d Emit = TRUE\nINVARIANTS Agree Keeps Tidy Fixed Vectors\n" % n, timeout=850, heap="12g")
    run.model("WordsModel", st, "all names of up to %d characters from an alphabet with one of every kind" % n)
    names = ["".join(map(chr, x)) for x in tlc.tagged(st["out"], "NAME")]
    names += [x[:i] for x in names[::7] for i in range(1, n)]
    names = list(dict.fromkeys(names))
    st = tlc.run("NumberModel", "INIT Init\nNEXT Next\nCHECK_DEADLOCK FALSE\nCONSTANT Len0 = %d\nINVARIANTS Fit Distinct Only\n" % (5 if quick else 6), timeout=850, heap="12g")
    run.model("NumberModel", st, "all sequences of %d wishes from five names, with none or one taken" % (5 if quick else 6))
    total = 0
    for lang in LANGS:
        cases = []

        def add(v, name="Root", **o):
            if lang != "ts" and r.random() < 0.5:
                o["style"] = r.choice(targets.STYLES)
            if lang in ("rust", "jackson") and r.random() < 0.25:
                o["fmt"] = r.choice(targets.FORMATS)
            if r.random() < 0.1:
                o["collect"] = True
            if lang == "rust" and r.random() < 0.1:
                o["derives"] = r.choice([["serde::Serialize", "serde::Deserialize"], ["std::fmt::Debug", "serde_derive::Serialize", "serde_derive::Deserialize"], ["Foo", "x::Bar", "A"]])
            thr = r.choice([-1, -1, -1, -1, 1, 2])
            cases.append(targets.tcase(v, lang, name, thr=thr, spelled=jv.spell(v, r) if r.random() < 0.2 else None, **o))

        for v in targets.key_samples(lang, quick, r):
            add(v)
        # names of the machine, several in one object, as members and as types
        some = r.sample(names, min(len(names), 3000 if quick else 40000))
        for i in range(0, len(some), 12):
            ks = some[i:i + 12]
            add(jv.obj([(k, jv.num(1)) for k in ks]) if r.random() < 0.7 else jv.obj([(k, jv.obj([("v%d" % j, jv.num(1))])) for j, k in enumerate(ks)]))
        for k in LISTS:
            one = jv.obj([("x", jv.num(1))])
            add(r.choice([jv.obj([(k, jv.arr([one]))]), jv.obj([(k, jv.arr([jv.arr([one])]))]), jv.obj([(k, jv.arr([one, jv.num(1)]))]), jv.obj([(k, one)])]))
            add(jv.obj([(k, jv.arr([one]))]))
            if k.isascii() and k.isalnum() and k[0].isalpha():
                add(r.choice([jv.arr([one]), jv.arr([jv.obj([(k, jv.arr([one]))])])]), name=k)
        for i in range(500 if quick else 8000):
            ks = list(dict.fromkeys(wordy(r) for _ in range(r.choice([1, 2, 3, 5, 8]))))
            add(nested(r, ks), name=r.choice(ROOTS))
        for i in range(150 if quick else 3000):
            base = r.choice(["item", "root", "value", "a", "x", "foo bar", "1", "vec", "s", "\u00e9", "self", "type"])
            ks = [base, base + "s", base.upper(), base.capitalize(), base + "2", base + "3", base + "_2", "_" + base, base + " ", base + "ies", base.capitalize() + "2s"]
            ks = r.sample(ks, r.randint(2, 8))
            add(nested(r, ks), name=r.choice(ROOTS))
        # members of list elements and of maps
        g = jv.Gen(r, keys=targets.KEYPOOL + LISTS[:40])
        for i in range(200 if quick else 4000):
            add(g.sample(maxsize=40), name=r.choice(ROOTS))
        for i in range(60 if quick else 1000):
            v = g.sample(maxsize=30)
            cases.append(targets.tcase(v, lang, hints=[{"p": infer.pointer(infer.tokens_for(v, r, 1)), "t": r.choice(["map", "map", "Ext"])}]))
        evs, answers = targets.events(cases)
        total += len(cases)
        todo = []
        for i, e in enumerate(evs):
            if e["res"] == "ok" and e["prog"]["ok"]:
                ks = keys_in(e["val"], set()) | {e["name"]}
                e["cps"] = [{"s": k, "c": [ord(c) for c in k]} for k in sorted(ks) if not (k.isascii() and k.replace("_", "a").isalnum())]
                todo.append(i)
        bad = tlc.validate("TraceWords", [evs[i] for i in todo], run)
        run.log(lang, len(cases), "programs", len(todo))
        for j in sorted(bad):
            i = todo[j]
            hit = bad[j] & {"type-name", "member-name"}
            c = cases[i]
            if hit:
                run.violation("%s: %s, name %r, from %s %s" % (",".join(sorted(hit)), lang, c["name"], c["text"][:200], c["o"] or ""),
                              {"sample": c["text"], "lang": lang, "name": c["name"], "options": c["o"], "hints": c["hints"], "thr": c["thr"], "tags": sorted(bad[j]), "output": answers[i].get("ok")})
        run.extra["programs_" + lang] = len(todo)
        targets.note(run, cases)
    run.extra["programs"] = total
    run.assumptions += ["a name is read off the program that the parser of the language's output finds; output that is no program is judged by C10 to C18",
                        "whether a name must be avoided (keywords, library names, names of other declarations) is decided by C17 and C18",
                        "the first place where a type is met, members in order, is the one that names it"]
