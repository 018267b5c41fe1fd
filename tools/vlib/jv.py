"""JSON values as the specification's records, their spellings, and generators."""
import json

NULL = {"k": "null"}


def num(t):
    return {"k": "num", "t": str(t)}


def st(s):
    return {"k": "str", "s": s}


def bl(b):
    return {"k": "bool", "b": bool(b)}


def arr(xs):
    return {"k": "arr", "a": list(xs)}


def obj(pairs):
    if isinstance(pairs, dict):
        pairs = list(pairs.items())
    return {"k": "obj", "m": [{"n": n, "v": v} for n, v in pairs]}


def of(py):
    """From a Python literal (ints/floats/str/bool/None/list/dict)."""
    if py is None:
        return NULL
    if isinstance(py, bool):
        return bl(py)
    if isinstance(py, (int, float)):
        return num(json.dumps(py))
    if isinstance(py, str):
        return st(py)
    if isinstance(py, list):
        return arr(of(x) for x in py)
    return obj([(k, of(v)) for k, v in py.items()])


def text(v, ascii_only=False):
    k = v["k"]
    if k == "null":
        return "null"
    if k == "bool":
        return "true" if v["b"] else "false"
    if k == "num":
        return v["t"]
    if k == "str":
        return json.dumps(v["s"], ensure_ascii=ascii_only)
    if k == "arr":
        return "[" + ",".join(text(x, ascii_only) for x in v["a"]) + "]"
    return "{" + ",".join(json.dumps(m["n"], ensure_ascii=ascii_only) + ":" + text(m["v"], ascii_only) for m in v["m"]) + "}"


def py(v):
    """As a Python value (numbers as int or float)."""
    k = v["k"]
    if k == "null":
        return None
    if k == "bool":
        return v["b"]
    if k == "num":
        return json.loads(v["t"])
    if k == "str":
        return v["s"]
    if k == "arr":
        return [py(x) for x in v["a"]]
    return {m["n"]: py(m["v"]) for m in v["m"]}


def size(v):
    if v["k"] == "arr":
        return 1 + sum(size(x) for x in v["a"])
    if v["k"] == "obj":
        return 1 + sum(size(m["v"]) for m in v["m"])
    return 1


def depth(v):
    if v["k"] == "arr":
        return 1 + max([depth(x) for x in v["a"]] or [0])
    if v["k"] == "obj":
        return 1 + max([depth(m["v"]) for m in v["m"]] or [0])
    return 0


# --------------------------------------------------------------------------------------------- spellings

def _spell_string(s, r):
    out = ['"']
    short = {'"': '\\"', "\\": "\\\\", "\b": "\\b", "\f": "\\f", "\n": "\\n", "\r": "\\r", "\t": "\\t"}
    for ch in s:
        o = ord(ch)
        c = r.random()
        if o > 0xFFFF and c < 0.5:
            o -= 0x10000
            hi, lo = 0xD800 + (o >> 10), 0xDC00 + (o & 0x3FF)
            f = r.choice(["%04x", "%04X"])
            out.append("\\u" + f % hi + "\\u" + f % lo)
        elif ch in short:
            out.append(short[ch] if c < 0.6 else "\\u" + r.choice(["%04x", "%04X"]) % o)
        elif o < 0x20:
            out.append("\\u%04x" % o)
        elif ch == "/" and c < 0.5:
            out.append("\\/")
        elif o <= 0xFFFF and not (0xD800 <= o <= 0xDFFF) and c < 0.25:
            out.append("\\u" + r.choice(["%04x", "%04X"]) % o)
        else:
            out.append(ch)
    return "".join(out) + '"'


def _spell_number(t, r):
    """Another spelling of a number of the same kind (only for floating numbers)."""
    if "e" in t or "E" in t:
        return t.replace("e", r.choice(["e", "E"]))
    if "." in t and r.random() < 0.5:
        return t + "0" * r.randint(0, 3)
    return t


def _ws(r):
    return "".join(r.choice(" \t\n\r") for _ in range(r.choice([0, 0, 0, 1, 2])))


def spell(v, r):
    """A random spelling of the value."""
    def go(v):
        k = v["k"]
        if k == "str":
            return _spell_string(v["s"], r)
        if k == "num":
            return _spell_number(v["t"], r)
        if k == "arr":
            return "[" + _ws(r) + (_ws(r) + "," + _ws(r)).join(go(x) for x in v["a"]) + _ws(r) + "]"
        if k == "obj":
            return "{" + _ws(r) + (_ws(r) + "," + _ws(r)).join(
                _spell_string(m["n"], r) + _ws(r) + ":" + _ws(r) + go(m["v"]) for m in v["m"]) + _ws(r) + "}"
        return text(v)
    return _ws(r) + go(v) + _ws(r)


# --------------------------------------------------------------------------------------------- generators

INTS = ["0", "1", "-1", "42", "9223372036854775807", "-9223372036854775808", "1000000"]
FLOATS = ["1.5", "-0", "-0.0", "1e3", "1E+2", "0.1", "9223372036854775808", "-9223372036854775809", "1.0", "2e-3",
          "18446744073709551615", "100000000000000000000", "0e0"]
STRS = ["", "x", "hello", "2020-01-01", "null", "é", "\U0001F600", "a\"b", "a\\b", "tab\t"]
KEYS = ["a", "b", "c", "id", "name", "items", "fooBar", "foo_bar", "user", "x"]


class Gen:
    """Random samples whose values collide in interesting ways."""

    def __init__(self, r, keys=KEYS, strs=STRS, ints=INTS, floats=FLOATS, maxdepth=4, lens=None):
        self.r, self.keys, self.strs, self.ints, self.floats, self.maxdepth = r, keys, strs, ints, floats, maxdepth
        self.lens = lens or [0, 1, 1, 2, 2, 3, 3, 4, 11, 12, 13, 14]

    def scalar(self):
        r = self.r
        c = r.randrange(10)
        if c < 2:
            return NULL
        if c < 4:
            return bl(r.random() < 0.5)
        if c < 6:
            return num(r.choice(self.ints))
        if c < 8:
            return num(r.choice(self.floats))
        return st(r.choice(self.strs))

    def value(self, depth=None, budget=None):
        r = self.r
        if depth is None:
            depth = r.randint(1, self.maxdepth)
        if depth <= 0 or r.random() < 0.25:
            return self.scalar()
        c = r.random()
        if c < 0.45:
            return self.object(depth)
        if c < 0.75:
            return self.records(depth)
        n = r.choice(self.lens)
        if n > 4:
            base = [self.value(min(depth - 1, 1)) for _ in range(3)]
            return arr(self.mutate(r.choice(base), 0.1, 1) for _ in range(n))
        return arr(self.value(depth - 1) for _ in range(n))

    def object(self, depth):
        r = self.r
        ks = r.sample(self.keys, min(len(self.keys), r.choice([0, 1, 1, 2, 2, 3, 4, 5])))
        return obj([(k, self.value(depth - 1)) for k in ks])

    def records(self, depth):
        r = self.r
        proto = self.object(depth) if r.random() < 0.8 else self.value(depth - 1)
        n = r.choice([1, 2, 2, 3, 3, 4, 5, 12, 13, 15])
        if n > 5 and size(proto) > 12:
            n = 3
        return arr(self.mutate(proto, 0.25, depth) for _ in range(n))

    def mutate(self, v, p, depth):
        """A variant: members dropped, added, nulled, replaced, arrays resized."""
        r = self.r
        if r.random() < p * 0.3:
            return NULL
        if r.random() < p * 0.25:
            return self.value(min(depth - 1, 2)) if r.random() < 0.7 else self.scalar()
        k = v["k"]
        if k == "num" and r.random() < p:
            return num(r.choice(self.ints + self.floats))
        if k == "str" and r.random() < p:
            return st(r.choice(self.strs))
        if k == "arr":
            a = [self.mutate(x, p, depth - 1) for x in v["a"]]
            if r.random() < p:
                if a and r.random() < 0.5:
                    a.pop(r.randrange(len(a)))
                elif len(a) < 14:
                    a.append(self.mutate(r.choice(a), p, depth - 1) if a and r.random() < 0.7 else self.scalar())
            return arr(a)
        if k == "obj":
            m = []
            for e in v["m"]:
                if r.random() < p * 0.7:
                    continue
                m.append((e["n"], self.mutate(e["v"], p, depth - 1)))
            if r.random() < p * 0.5:
                have = {n for n, _ in m}
                free = [x for x in self.keys if x not in have]
                if free:
                    m.append((r.choice(free), self.value(min(depth - 1, 1))))
            if r.random() < p * 0.5:
                r.shuffle(m)
            return obj(m)
        return v

    def sample(self, depth=None, maxsize=60):
        """A sample: an object or an array (what the tools take inline)."""
        while True:
            v = self.value(depth)
            if v["k"] in ("arr", "obj") and size(v) <= maxsize:
                return v


def permute(v, r):
    """Permute the members of every object, and the elements of homogeneous lists of records
    (where every array that is merged at the position holds objects only)."""
    mixed = set()

    def scan(v, path):
        if v["k"] == "arr":
            if not all(x["k"] == "obj" for x in v["a"]):
                mixed.add(path)
            for x in v["a"]:
                scan(x, path + ("*",))
        elif v["k"] == "obj":
            for m in v["m"]:
                scan(m["v"], path + (m["n"], "."))

    def go(v, path):
        if v["k"] == "arr":
            a = [go(x, path + ("*",)) for x in v["a"]]
            if path not in mixed:
                r.shuffle(a)
            return arr(a)
        if v["k"] == "obj":
            m = [(e["n"], go(e["v"], path + (e["n"], "."))) for e in v["m"]]
            r.shuffle(m)
            return obj(m)
        return v

    scan(v, ())
    return go(v, ())
