"""C01, C02, C03, C07, C08, C09: the inferred structure (output mode "shape") against the specification."""
import itertools, json
from vlib import env, drv, jv, rs, shape, tlc
from vlib.env import rng

MERGE_CFG = """INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
CONSTANTS MaxLen = %d Emit = TRUE PoolName = "%s" ThrC = %d
INVARIANTS Canonical Sound Tightest Idempotent Grouping Vectors
"""


def merge_model(run, maxlen, pool, thr=999):
    st = tlc.run("Merge", MERGE_CFG % (maxlen, pool, thr))
    run.model("Merge", st, "all sequences of %d values from pool %s, threshold %s" % (maxlen, pool, thr))
    return tlc.tagged(st["out"], "VEC")


def case(val, unwrap="", hints=(), thr=-1, spelled=None, root_file=False):
    return {"val": val, "unwrap": unwrap, "hints": list(hints), "thr": thr, "text": spelled or jv.text(val),
            "file": root_file or val["k"] not in ("arr", "obj")}


def request(c, i):
    opts, block = {"output_mode": "shape"}, {}
    # options as the library takes them, and as text
    into = block if i % 2 else opts
    if c["unwrap"]:
        into["unwrap"] = c["unwrap"]
    if c["thr"] >= 0:
        into["infer_map_threshold"] = str(c["thr"]) if i % 2 else c["thr"]
    r = {"op": "gen", "name": "Root", "opts": opts}
    if c["hints"] or block:
        r["block"] = rs.block(block, hints=c["hints"])
    if c["file"]:
        r["hex"] = c["text"].encode().hex()
        r["path"] = "%s/s%d.json" % (env.scratch(), i)
    else:
        r["input"] = c["text"]
    return r


def outcome(ans):
    if "ok" in ans:
        return "ok", shape.parse(ans["ok"])
    if "err" in ans:
        return "err", {"k": "none"}
    return "crash", {"k": "none"}


def execute(cases):
    binary = env.build("drv") + "/drv"
    return drv.run(binary, [request(c, i) for i, c in enumerate(cases)])


def events(cases):
    evs = []
    for c, a in zip(cases, execute(cases)):
        res, out = outcome(a)
        evs.append({"k": "infer", "val": c["val"], "unwrap": c["unwrap"], "hints": c["hints"], "thr": c["thr"],
                    "res": res, "out": out})
    return evs


def embed(vec, r):
    """The values of a Merge behaviour, put where they are merged."""
    yield case(jv.arr(jv.obj([("x", v)]) for v in vec))
    yield case(jv.arr(vec), unwrap="/-")
    yield case(jv.obj([("k%d" % i, v) for i, v in enumerate(vec)]), hints=[{"p": "", "t": "map"}])
    yield case(jv.arr([vec[0]] * 12 + list(vec[1:])))
    yield case(jv.obj([("f", jv.arr(jv.obj([("x", v)] if r.random() < 0.8 else [("x", v), ("y", vec[0])]) for v in vec))]))


def judge(run, cases, evs, tags_bad, tags_known=()):
    bad = tlc.validate("TraceInfer", evs, run)
    for i in sorted(bad):
        hit = bad[i] & set(tags_bad)
        c = cases[i] if i < len(cases) else {}
        replay = {"sample": c.get("text"), "unwrap": c.get("unwrap"), "hints": c.get("hints"), "thr": c.get("thr"),
                  "got": evs[i].get("out"), "result": evs[i]["res"], "tags": sorted(bad[i])}
        if hit:
            run.violation("%s: sample %s unwrap=%r hints=%s thr=%s" % (
                ",".join(sorted(hit)), (c.get("text") or "")[:200], c.get("unwrap"), c.get("hints"), c.get("thr")), replay)
        for t in bad[i] & set(tags_known):
            run.known_finding(t, {"sample": c.get("text"), "unwrap": c.get("unwrap")})


def random_cases(n, salt, **kw):
    g = jv.Gen(rng("infer", salt), **kw)
    out = []
    for i in range(n):
        v = g.sample()
        thr = g.r.choice([-1, -1, -1, 0, 1, 2, 3, 4])
        out.append(case(v, thr=thr, spelled=jv.spell(v, g.r)))
    return out


# always present: a case for every boundary that random generation may miss
def boundary_cases():
    o, a, n, s, nul, t = jv.obj, jv.arr, jv.num, jv.st, jv.NULL, jv.bl(True)
    out = []
    for ln in (0, 1, 2, 3, 11, 12, 13, 14, 25):
        out.append(case(a([n(1)] * ln)))
        out.append(case(a(([n(1), s("x")] * ln)[:ln])))
        out.append(case(a([n(1)] * max(0, ln - 1) + [s("x")] * min(1, ln))))
        out.append(case(a([n(1)] * max(0, ln - 1) + [nul] * min(1, ln))))
        out.append(case(o([("x", a([a(([n(1), s("x")] * ln)[:ln]), a(([n(1), s("x")] * ln)[:ln])]))])))
        out.append(case(a([a(([n(1), s("x")] * ln)[:ln]), a(([n(2), s("y")] * (ln + 1))[:ln + 1])])))
        out.append(case(a([o([("p", a(([n(1), s("x")] * ln)[:ln]))]), o([("p", nul)]), o([])])))
    for tx in jv.INTS + jv.FLOATS + ["-1", "10", "00"[:1], "-9223372036854775807", "9223372036854775806", "99999999999999999999",
                                     "1e400"[:3], "0.0", "-0e0", "1E5", "123456789012345678", "-123456789012345678"]:
        out.append(case(o([("x", n(tx))])))
        out.append(case(a([n("1"), n(tx)])))
        out.append(case(n(tx), root_file=True))
    for v in (nul, t, s("x"), a([]), o([])):
        out.append(case(v, root_file=True))
        out.append(case(a([o([("x", v)]), o([])])))
        out.append(case(a([o([]), o([("x", v)])])))
        out.append(case(a([o([("x", v)]), o([("x", nul)])])))
        out.append(case(a([o([("x", nul)]), o([]), o([("x", v)])])))
        out.append(case(a([v, nul])))
        out.append(case(a([v] * 13 + [nul])))
    keys = ["", " ", "a b", "é", "\U0001F600", "a\"b", "a\\b", "a\nb", "\u0001", "/", "~", "~0", "a/b", "-", "0", "1", "type",
            "A", "a", "constructor", "x" * 60, "__proto__", "\u2028", "\u00a0", "\ufeff", "\u007f"]
    for k in keys:
        out.append(case(o([(k, n(1))])))
        out.append(case(a([o([(k, n(1)), ("other", t)]), o([("other", t)])])))
    out.append(case(o([(k, n(i)) for i, k in enumerate(keys)])))
    for d in (1, 5, 30, 60):
        v = n(1)
        for i in range(d):
            v = a([v]) if i % 2 else o([("d", v)])
        if v["k"] == "arr" or v["k"] == "obj":
            out.append(case(v) if d < 100 else case(v))
    # merging after the twelfth element, and tuples with vectors
    two = a([n(1), s("x")])
    out.append(case(a([two] * 12 + [a([n(1)])])))
    out.append(case(a([two] * 12 + [two])))
    out.append(case(a([two, a([s("x"), n(1)])])))
    out.append(case(a([a([two, two]), a([two, nul])])))
    out.append(case(a([o([("a", two)]), o([("a", a([]))]), o([("a", nul)])])))
    out.append(case(a([n(1)] * 12 + [n("1.5")])))
    out.append(case(a([o([("a", n(1))])] * 12 + [o([("b", n(1))])])))
    out.append(case(a([o([("a", n(1))])] * 12 + [o([("a", nul), ("b", n(1))]), o([("b", t)])])))
    out.append(case(a([nul] * 12 + [o([("a", n(1))])])))
    return out


def merge_cases(run, r):
    quick = run.quick()
    vecs = merge_model(run, 2, "large")
    v3 = merge_model(run, 3, "small" if quick else "large")
    merge_model(run, 3, "small", 1)
    if not quick:
        merge_model(run, 4, "small")
    if quick:
        v3 = r.sample(v3, 500)
    elif len(v3) > 12000:
        v3 = r.sample(v3, 12000)
    cases = []
    for v in vecs:
        cases.extend(embed(v, r))
    for v in v3:
        es = list(embed(v, r))
        cases.extend(r.sample(es, 2) if quick else es)
    return cases


def note(run, cases):
    for c in cases[:2] + cases[-2:]:
        run.sample({"sample": c["text"][:300], "unwrap": c["unwrap"], "hints": c["hints"], "threshold": c["thr"]})
    run.extra["objects_merged"] = sum(1 for c in cases if "[{" in c["text"])
    run.extra["distinct_samples"] = len({(c["text"], c["unwrap"], str(c["hints"]), c["thr"]) for c in cases})


def structure_cases(run):
    r = rng("structure")
    return boundary_cases() + merge_cases(run, r) + random_cases(1500 if run.quick() else 30000, "structure")


def c01(run):
    cases = structure_cases(run)
    evs = events(cases)
    note(run, cases)
    judge(run, cases, evs, {"not-admitted", "rejected", "malformed", "crash", "any-absent-x"}, {"any-absent"})


def c02(run):
    cases = structure_cases(run)
    evs = events(cases)
    note(run, cases)
    judge(run, cases, evs, {"loose", "not-tight", "members", "malformed", "crash"})


def c03(run):
    r = rng("order")
    base = [c for c in merge_cases(run, r) if not c["hints"]]
    base = r.sample(base, min(len(base), 700 if run.quick() else 8000))
    base += random_cases(1200 if run.quick() else 20000, "order", lens=[0, 1, 1, 2, 3, 12, 13])
    base += boundary_cases()
    cases, pairs = [], []
    for c in base:
        if c["thr"] >= 0:
            c = case(c["val"], c["unwrap"])
        v = c["val"]
        variants = [jv.permute(v, r)]
        if v["k"] == "arr" and v["a"] and all(x["k"] == "obj" for x in v["a"]):
            perm = list(v["a"])
            r.shuffle(perm)
            variants.append(jv.arr(perm + [r.choice(perm)]))
            variants.append(jv.arr(list(reversed(v["a"])) * (1 if len(v["a"]) > 8 else 7)))
            if len(v["a"]) <= 4:
                variants += [jv.arr(p) for p in itertools.permutations(v["a"])][:6]
        i = len(cases)
        cases.append(c)
        for w in variants:
            pairs.append((i, len(cases)))
            cases.append(case(w, c["unwrap"]))
    evs0 = []
    answers = execute(cases)
    for i, j in pairs:
        (ra, oa), (rb, ob) = outcome(answers[i]), outcome(answers[j])
        evs0.append({"k": "same", "res": ra, "out": oa, "res2": rb, "out2": ob})
    # unwrap merges the designated nodes in document order: permuting them must not matter either
    idx = [p[0] for p in pairs]
    shown = [dict(cases[i], text=cases[i]["text"] + "   <->   " + cases[j]["text"]) for i, j in pairs]
    note(run, shown)
    # confluence against the specification itself: the merged values in every order give the canonical structure
    extra = [cases[i] for i in sorted(set(idx))][:600]
    judge(run, shown, [dict(e, val=cases[i]["val"]) for e, i in zip(evs0, idx)], {"order", "rejected"})


# ----------------------------------------------------------------------------------------------- pointers

def tokens_for(v, r, depth=0):
    """A pointer into the value: mostly existing paths, with wildcards, sometimes a miss."""
    toks = []
    while True:
        if depth and r.random() < 0.3:
            return toks
        if v["k"] == "obj":
            if not v["m"]:
                if r.random() < 0.3:
                    toks.append("nope")
                return toks
            e = r.choice(v["m"])
            toks.append("-" if r.random() < 0.35 else e["n"].replace("~", "~0").replace("/", "~1"))
            if r.random() < 0.03:
                toks[-1] = "missing"
            v = e["v"]
        elif v["k"] == "arr":
            if not v["a"]:
                if r.random() < 0.3:
                    toks.append("0")
                return toks
            i = r.randrange(len(v["a"]))
            if r.random() < 0.15:
                i = len(v["a"]) - 1
            toks.append("-" if r.random() < 0.5 else str(i))
            if r.random() < 0.04:
                toks[-1] = r.choice([str(len(v["a"])), "01", "+1", "a", "", "00", "1e0", "9999999999999999999999"])
            v = v["a"][i]
        else:
            if r.random() < 0.08:
                toks.append(r.choice(["-", "0", "x"]))
            return toks
        depth += 1


PKEYS = ["a", "b", "c", "0", "1", "12", "-", "a/b", "m~n", "~1", "~0", "", "/", "items", "é"]


def pointer(toks):
    return "".join("/" + t for t in toks)


def c07(run):
    r = rng("unwrap")
    quick = run.quick()
    merge_model(run, 2, "large")
    runs = infer_machine(run, 6 if quick else 8, "all", "none") + infer_machine(run, 6 if quick else 7, "all", "few" if quick else "all", 1)
    cases, tcases = replay_runs(run, runs, r, 1500 if quick else 30000)
    g = jv.Gen(r, keys=PKEYS)
    for i in range(2500 if quick else 40000):
        v = g.sample()
        toks = tokens_for(v, r)
        p = pointer(toks)
        if toks and r.random() < 0.1 and not toks[0].startswith("/") and toks[0] != "":
            p = p[1:]         # without the leading slash
        if r.random() < 0.02:
            p = "/"
        hints = []
        if r.random() < 0.15:
            hints = [{"p": pointer(tokens_for(v, r)[len(toks):]), "t": r.choice(["Foo", "Bar"])}]
        cases.append(case(v, unwrap=p, hints=hints, thr=r.choice([-1, -1, -1, 1, 2]), spelled=jv.spell(v, r)))
    # every pointer of up to three tokens on fixed documents
    docs = [
        {"a": [{"b": 1}, {"b": "x"}, {"b": None}], "b": {"a": 1, "b": {"a": None}}, "": {"": 1.5}},
        [[1, "x"], [], {"a": [True]}, None, [[2]]],
        {"a": {"1": [1, 2], "-": ["z"]}, "1": [{"a": 1}, {"b": 2}], "a/b": {"m~n": 1}, "~1": 2},
        [{"a": i} if i % 3 else {"a": i, "b": None} for i in range(14)],
    ]
    toks = ["-", "a", "b", "0", "1", "12", "13", "", "~1", "a~1b", "m~0n", "01"]
    for d in docs:
        v = jv.of(d)
        for ln in (1, 2) if quick else (1, 2, 3):
            for ts in itertools.product(toks, repeat=ln):
                cases.append(case(v, unwrap=pointer(ts)))
    evs = events(cases)
    # malformed anywhere: an error, whatever the pointer designates
    mal, mcases = malformed_events(r, 500 if quick else 6000)
    note(run, cases)
    run.extra["pointers_without_match"] = sum(1 for e in evs if e["res"] == "err")
    judge(run, cases, evs, {"not-admitted", "rejected", "accepted", "malformed", "crash", "not-canonical", "loose", "not-tight"})
    judge_text(run, mcases, mal)
    from checks import text as tx
    judge_text(run, tcases, tx.text_events(tcases))


def malformed_events(r, n):
    """Documents with one byte changed, dropped or added, with a pointer that designates part of them."""
    from checks import text as tx
    g = jv.Gen(r, keys=PKEYS, maxdepth=3)
    cases = []
    for i in range(n):
        v = g.sample(maxsize=15)
        t = jv.spell(v, r)
        p = pointer(tokens_for(v, r))
        b = bytearray(t.encode())
        c = r.random()
        j = r.randrange(len(b))
        if c < 0.3:
            b = b[:j]
        elif c < 0.5:
            del b[j]
        elif c < 0.8:
            b[j:j] = r.choice([b",", b"]", b"}", b"[", b"{", b":", b"1", b'"', b"x", b"\\", b"null", b"\x01"])
        elif c < 0.9:
            b += r.choice([b",", b"]", b"x", b" {}", b"1", b"\x00"])
        else:
            b[j] = r.choice(b'{}[],:"0x')
        cases.append({"b": list(b), "unwrap": p})
    return tx.text_events(cases), cases


def judge_text(run, cases, evs):
    from checks import text as tx
    tx.judge(run, cases, evs, {"accepted", "crash"})


INFER_CFG = """INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
CONSTANTS MaxTokens = %d MaxDepth = %d PointerSet = "%s" HintSet = "%s" ThrC = %d Emit = TRUE
INVARIANTS Answer Refusal NeverAfterFault EndIsDoc Vectors
"""


def infer_machine(run, tokens, pointers, hints, thr=999, depth=3):
    """The token machine of the inference, exhaustively up to a number of tokens (see Inference.tla).

    Returns its behaviours: token sequence, pointer, hints, and how it ended."""
    st = tlc.run("Inference", INFER_CFG % (tokens, depth, pointers, hints, thr), heap="12g")
    run.model("Inference", st, "all token sequences up to length %d, pointers %s, hints %s, threshold %s, a fault at any point" % (
        tokens, pointers, hints, thr))
    return tlc.tagged(st["out"], "RUN")


def token_text(toks, r):
    """A text that spells the tokens (numbers do not run together)."""
    out = []
    for t in toks:
        if out and out[-1][-1:].isalnum() and t in ("1", "null"):
            out.append(" ")
        out.append('"%s"' % t if t in ("a", "b", "-") else t)
        if r.random() < 0.1:
            out.append(r.choice([" ", "\n", "\t "]))
    return "".join(out)


def replay_runs(run, runs, r, limit):
    """Behaviours of the token machine, run on the code: complete ones as inference events, the others as text events."""
    from checks import text as tx
    done = [x for x in runs if x["e"] == "done"]
    errs = [x for x in runs if x["e"] == "error"]
    if len(done) > limit:
        done = r.sample(done, limit)
    if len(errs) > 2 * limit:
        errs = r.sample(errs, 2 * limit)
    cases, tcases = [], []
    for x in done + errs:
        t = token_text(x["t"], r)
        try:
            pairs = []
            py = json.loads(t, object_pairs_hook=lambda ps: pairs.append(len({k for k, _ in ps}) < len(ps)) or dict(ps))
            dup = any(pairs)
        except ValueError:
            tcases.append(tx.case(t.encode(), x["p"], x["h"]))
            continue
        if not dup:
            cases.append(case(jv.of(py), unwrap=x["p"], hints=x["h"], spelled=t, root_file=True))
    return cases, tcases


def hint_cases(r, n, kinds):
    g = jv.Gen(r, keys=PKEYS)
    cases = []
    for i in range(n):
        v = g.sample()
        hints = []
        for _ in range(r.choice([1, 1, 1, 2, 3])):
            hints.append({"p": pointer(tokens_for(v, r, 1)), "t": r.choice(kinds)})
        cases.append(case(v, hints=hints, thr=r.choice([-1, -1, -1, 0, 1, 2]), spelled=jv.spell(v, r)))
    return cases


def c08(run):
    r = rng("hints")
    quick = run.quick()
    merge_model(run, 2, "large")
    runs = infer_machine(run, 6 if quick else 8, "none", "all") + infer_machine(run, 6 if quick else 7, "few", "all", 1)
    cases, tcases = replay_runs(run, runs, r, 1500 if quick else 30000)
    cases += hint_cases(r, 1800 if quick else 30000, ["Foo", "Bar<Baz>", "map", "map", "map", "map", "map", "Foo", "Map", "MAP", "map ", " Foo ", "Option<Map>"])
    docs = [
        {"a": [{"b": 1}, {"b": "x"}, {"b": {"x": 1, "y": None}}], "b": {"a": 1, "b": {"a": None}}, "": {"": 1.5}},
        [[1, "x"], [], {"a": {"b": True, "c": False}}, [[2]]],
        {"a": {"1": [1, 2], "-": ["z"]}, "1": [{"a": {"k": 1}}, {"a": {"j": 2}}], "a/b": {"m~n": {"q": 1}}, "~1": 2},
        [{"a": {"i": i}} for i in range(14)],
        [{"a": {"i": i}} for i in range(12)] + ["x", {"a": None}],
    ]
    toks = ["-", "a", "b", "0", "1", "12", "13", "", "~1", "a~1b", "m~0n"]
    for d in docs:
        v = jv.of(d)
        for ln in (0, 1, 2) if quick else (0, 1, 2, 3):
            for ts in itertools.product(toks, repeat=ln):
                for t in ("Foo", "map"):
                    cases.append(case(v, hints=[{"p": pointer(ts), "t": t}]))
    # a hint on a discarded part, with unwrap
    g = jv.Gen(r, keys=PKEYS)
    for i in range(300 if quick else 4000):
        v = g.sample()
        u = tokens_for(v, r)
        cases.append(case(v, unwrap=pointer(u), hints=[{"p": pointer(tokens_for(v, r)[len(u):]), "t": r.choice(["Foo", "map"])}]))
    evs = events(cases)
    note(run, cases)
    run.extra["invalid_targets"] = sum(1 for e in evs if e["res"] == "err")
    judge(run, cases, evs, {"not-admitted", "rejected", "accepted", "malformed", "crash", "not-canonical", "loose", "not-tight"})
    from checks import text as tx
    judge_text(run, tcases, tx.text_events(tcases))


def c09(run):
    r = rng("threshold")
    quick = run.quick()
    for thr in (0, 1, 2):
        merge_model(run, 2, "large", thr)
    if not quick:
        for thr in (0, 1):
            merge_model(run, 3, "large", thr)
    cases = []
    for v in merge_model(run, 3, "small", 1):
        if any(x["k"] == "obj" for x in v):
            for e in r.sample(list(embed(v, r)), 1):
                cases.append(dict(e, thr=r.choice([0, 1])))
    if quick:
        cases = r.sample(cases, 900)
    g = jv.Gen(r)
    for i in range(1500 if quick else 25000):
        v = g.sample()
        cases.append(case(v, thr=r.choice([0, 1, 2, 3, 4, 5]), spelled=jv.spell(v, r)))
    for n in range(0, 8):
        for thr in range(0, 8):
            o = jv.obj([("k%d" % i, jv.num(i)) for i in range(n)])
            cases.append(case(o, thr=thr))
            cases.append(case(jv.arr([o, jv.obj([("k0", jv.NULL)])]), thr=thr))
            cases.append(case(jv.obj([("a", o), ("b", jv.arr([o]))]), thr=thr))
            cases.append(case(o, thr=thr, hints=[{"p": "", "t": "map"}]))
            cases.append(case(jv.obj([("k%d" % i, jv.num(i) if i % 2 else jv.st("x")) for i in range(n)]), thr=thr))
            # a union of members larger than the threshold is still a struct
            cases.append(case(jv.arr([jv.obj([("k%d" % i, jv.num(i))]) for i in range(n)]), thr=thr))
    evs = events(cases)
    note(run, cases)
    judge(run, cases, evs, {"not-admitted", "rejected", "accepted", "malformed", "crash", "not-canonical", "loose", "not-tight"})
