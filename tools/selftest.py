"""Not a check: corrupts recorded programs in many ways and counts how many corruptions the trace specification lets through."""
import copy, json, random, sys
sys.path.insert(0, __import__("os").path.dirname(__import__("os").path.abspath(__file__)))
from vlib import env, tlc, prog
from checks import targets as T


def corruptions(p, r, lang):
    places = []
    holders = [("root", p["root"])] + [("d", d) for d in p["decls"]]

    def walk(t, put):
        places.append(("term", t, put))
        for k in ("e",):
            if k in t:
                walk(t[k], lambda x, t=t: t.__setitem__("e", x))
        for i, x in enumerate(t.get("es", [])):
            walk(x, lambda y, t=t, i=i: t["es"].__setitem__(i, y))
        for i, f in enumerate(t.get("f", [])):
            places.append(("field", f, t["f"]))
            walk(f["t"], lambda y, f=f: f.__setitem__("t", y))
    if p["root"]["k"] not in ("none",):
        walk(p["root"], lambda x: p.__setitem__("root", x))
    for d in p["decls"]:
        if lang == "tsa":
            continue
        if d["k"] == "alias":
            walk(d["t"], lambda x, d=d: d.__setitem__("t", x))
        for f in d["fields"]:
            places.append(("field", f, d["fields"]))
            walk(f["t"], lambda y, f=f: f.__setitem__("t", y))
    if not places:
        return None
    kind, x, put = r.choice(places)
    if kind == "field":
        w = r.choice(["drop", "id"] + {"rust": ["dflt"], "ts": ["q"], "tsa": ["q"], "schema": ["q"]}.get(lang, []))
        if w == "drop":
            put.remove(x)
        elif w == "id":
            x["id"] += "zz"
            if x["ren"]:
                x["key"] += "z"
        else:
            x[w] = not x[w]
        return "field " + w
    w = r.choice(["opt", "unopt", "prim", "list", "any"])
    if w == "opt":
        put({"k": "opt", "e": copy.deepcopy(x)})
    elif w == "unopt" and x["k"] in ("opt", "undef"):
        put(x["e"])
    elif w == "prim" and x["k"] == "prim":
        put({"k": "prim", "n": {"bool": "String", "boolean": "string", "Boolean": "Long"}.get(x["n"], "bool")})
    elif w == "list":
        put({"k": "list", "e": copy.deepcopy(x)})
    elif w == "any" and x["k"] != "any":
        put({"k": "any"})
    else:
        return None
    return "term " + w


def main():
    lang = sys.argv[1]
    r = random.Random(5)
    run = env.Run("SELF", "quick")
    cases = T.lang_cases(run, lang, 200)
    evs, _ = T.events(cases)
    out, what = [], []
    for e in evs:
        if e["res"] != "ok" or not e["prog"]["ok"]:
            continue
        e = copy.deepcopy(e)
        w = corruptions(e["prog"], r, lang)
        if w:
            out.append(e)
            what.append(w)
    bad = tlc.validate("TraceTargets", out)
    missed = [i for i in range(len(out)) if not (bad.get(i, set()) - {"any-absent"})]
    print(lang, len(out), "corrupted", len(missed), "unnoticed")
    for i in missed[:int(sys.argv[2]) if len(sys.argv) > 2 else 5]:
        e = out[i]
        print("  ", what[i], cases[0]["name"] and json.dumps(e["val"])[:300], "|", json.dumps(e["prog"]["root"])[:300], "|",
              " ".join("%s%s" % (d["n"], [(f["id"], f["t"]) for f in d["fields"]] or d["t"]) for d in e["prog"]["decls"])[:400])


main()
