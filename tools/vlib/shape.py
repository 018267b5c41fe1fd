"""Reading the output mode "shape": the inferred structure as the specification's records."""
import json


def pairs(ps):
    return ("obj", ps)


def parse(code, opaque=()):
    return conv(json.loads(code, object_pairs_hook=pairs), set(opaque))


SCALARS = {"any", "bottom", "bool", "string", "integer", "floating"}


def conv(j, opaque):
    if j is None:
        return {"k": "null"}
    if isinstance(j, str):
        if j in opaque:
            return {"k": "opaque", "n": j}
        if j in SCALARS:
            return {"k": j}
        return {"k": "opaque", "n": j}
    if isinstance(j, list):
        if len(j) != 1:
            return {"k": "malformed", "why": "array of %d" % len(j)}
        return {"k": "vec", "e": conv(j[0], opaque)}
    if isinstance(j, tuple):
        ps = j[1]
        d = dict(ps)
        t = d.get("__type__")
        if t in ("nullable", "optional"):
            return {"k": t, "e": conv(d.get("item"), opaque)}
        if t == "map":
            return {"k": "map", "e": conv(d.get("values"), opaque)}
        if t == "tuple":
            items = d.get("items")
            return {"k": "tuple", "es": [conv(x, opaque) for x in items]}
        fs = []
        for k, v in ps:
            o = k.endswith("?")
            fs.append({"n": k[:-1] if o else k, "o": o, "s": conv(v, opaque)})
        return {"k": "struct", "f": fs}
    return {"k": "malformed", "why": repr(j)[:100]}
