"""Generated programs as data (the records of Targets.tla), one reader per output language."""
import ast, builtins, json, re, sys, types, typing

EMPTY = {"ok": False, "decls": [], "root": {"k": "none"}, "imports": [], "used": [], "libs": [], "other": []}


def program(**kw):
    p = dict(EMPTY, ok=True)
    p.update(kw)
    return p


def failed(why):
    return dict(EMPTY, why=str(why)[:200])


def field(id, t, key=None, dflt=False, q=False, vis="", extra=()):
    return {"id": id, "key": key if key is not None else "", "ren": key is not None, "dflt": dflt, "q": q, "vis": vis,
            "t": t, "extra": list(extra)}


def classdecl(n, fields, **kw):
    d = {"k": "class", "n": n, "fields": fields, "vis": "", "derives": [], "deny": False, "dflt": False, "renall": "",
         "collect": False, "serializable": False, "plain": [], "masked": False, "extra": [], "t": {"k": "none"}}
    d.update(kw)
    return d


def aliasdecl(n, t, **kw):
    return classdecl(n, [], k="alias", t=t, **kw)


def subterms(t):
    yield t
    if "e" in t:
        yield from subterms(t["e"])
    for x in t.get("es", ()):
        yield from subterms(x)
    for x in t.get("f", ()):
        yield from subterms(x["t"])


# ------------------------------------------------------------------------------------------------ Rust

RUST_BUILTIN = {"list": "Vec", "opt": "Option"}


def rust(a, opts):
    if "error" in a:
        return failed(a["error"])
    decls, libs, used, other = [], {}, set(), list(a["other"])

    def term(t):
        k = t["k"]
        if k == "prim":
            used.add(t["n"])
            return {"k": "prim", "n": t["n"]}
        if k in ("list", "opt"):
            used.add(RUST_BUILTIN[k])
            return {"k": k, "e": term(t["e"])}
        if k == "tuple":
            return {"k": "tuple", "es": [term(x) for x in t["es"]]}
        if k == "map":
            if t["key"] != "String":
                return {"k": "bad", "why": "key " + t["key"]}
            libs[t["q"]] = "std::collections::HashMap"
            used.add("String")
            return {"k": "map", "e": term(t["e"])}
        if k == "any":
            libs[t["q"]] = "serde_json::Value"
            return {"k": "any"}
        return {"k": "ref", "n": t["n"]}

    for d in a["decls"]:
        if d["k"] == "alias":
            decls.append(aliasdecl(d["n"], term(d["t"]), vis=d["vis"]))
            continue
        fields, collect = [], False
        extra = []
        for f in d["fields"]:
            t = term(f["t"])
            attrs = [tuple(x) for x in f["serde"]]
            if ("flatten", "") in attrs:
                ok = attrs == [("flatten", "")] and t == {"k": "map", "e": {"k": "any"}} and f["id"] == "additional_fields" and not collect
                if not ok:
                    extra.append("flatten")
                collect = True
                continue
            key, dflt, ex = None, False, []
            for n, v in attrs:
                if n == "rename" and key is None:
                    key = v
                elif (n, v) == ("default", "") and not dflt:
                    dflt = True
                else:
                    ex.append(n)
            fields.append(field(f["id"], t, key, dflt, vis=f["vis"], extra=ex))
        deny = dflt = False
        renall = ""
        for n, v in d["serde"]:
            if (n, v) == ("deny_unknown_fields", "") and not deny:
                deny = True
            elif (n, v) == ("default", "") and not dflt:
                dflt = True
            elif n == "rename_all" and not renall:
                renall = v
            else:
                extra.append(n)
        if len(d["derives"]) == len(opts["derives"]):
            for full, w in zip(opts["derives"], d["derives"]):
                libs[w] = full
        decls.append(classdecl(d["n"], fields, vis=d["vis"], derives=d["derives"], deny=deny, dflt=dflt, renall=renall,
                               collect=collect, extra=extra))
    used |= {w for w in libs if "::" not in w and w in ("HashMap", "Value")}
    used |= {u.rsplit("::", 1)[-1] for u in a["uses"] if not u.startswith("serde_derive::")}
    return program(decls=decls, imports=a["uses"], used=sorted(used), libs=[{"f": f, "w": w} for w, f in libs.items()], other=other)


# ------------------------------------------------------------------------------------------------ TypeScript, Zod

def js(answer, inline):
    if not answer["ok"]:
        return failed(answer.get("why"))
    used = set()

    def term(t):
        t = dict(t)
        w = t.pop("w", None)
        if w:
            used.add(w)
        if "e" in t:
            t["e"] = term(t["e"])
        if "es" in t:
            t["es"] = [term(x) for x in t["es"]]
        if "f" in t:
            t["f"] = [field(x["id"], term(x["t"]), q=x["q"]) for x in t["f"]]
        return t

    decls = []
    for d in answer["decls"]:
        if d["k"] == "alias":
            decls.append(aliasdecl(d["n"], term(d["t"])))
        else:
            decls.append(classdecl(d["n"], [field(x["id"], term(x["t"]), q=x["q"]) for x in d["fields"]]))
    p = program(decls=decls, other=list(answer["other"]), used=sorted(used))
    if inline == "tsa":
        # one exported alias; the term is looked at as a whole
        p["root"] = decls[0]["t"] if len(decls) == 1 and decls[0]["k"] == "alias" else {"k": "bad"}
    elif inline == "zod":
        p["root"] = term(answer["root"])
        p["exported"] = answer["exported"]
    return p


# ------------------------------------------------------------------------------------------------ JSON Schema

class Dup(Exception):
    pass


def _pairs(ps):
    if len({k for k, _ in ps}) < len(ps):
        raise Dup("duplicate key")
    return dict(ps)


def schema(code):
    try:
        j = json.loads(code, object_pairs_hook=_pairs)
    except (ValueError, Dup) as e:
        return failed(e), None
    if not isinstance(j, dict):
        return failed("not an object"), j
    top = dict(j)
    if top.pop("$schema", None) != "http://json-schema.org/draft-07/schema#":
        return failed("no $schema"), j
    ANNOTATIONS = ("title", "description", "$comment", "examples", "$id")

    def term(s):
        if s is True:
            return {"k": "any"}
        if not isinstance(s, dict):
            return {"k": "bad", "why": "schema"}
        s = {k: v for k, v in s.items() if k not in ANNOTATIONS}
        t = s.pop("type", None)
        if t is None:
            return {"k": "any"} if not s else {"k": "bad", "why": "no type"}
        null = False
        if isinstance(t, list):
            null = "null" in t
            t = [x for x in t if x != "null"]
            if len(t) != 1:
                return {"k": "bad", "why": "types"}
            t = t[0]
        if t in ("boolean", "string", "number", "integer") and not s:
            r = {"k": "prim", "n": t}
        elif t == "array" and set(s) == {"items"} and not isinstance(s["items"], list):
            r = {"k": "list", "e": term(s["items"])}
        elif t == "array" and isinstance(s.get("items"), list) and s.get("additionalItems") is False and \
                set(s) - {"minItems", "maxItems"} == {"items", "additionalItems"} and \
                s.get("minItems", 0) in (0, len(s["items"])) and s.get("maxItems", len(s["items"])) == len(s["items"]):
            r = {"k": "tuple", "es": [term(x) for x in s["items"]]}
        elif t == "object" and set(s) == {"additionalProperties"}:
            r = {"k": "map", "e": term(s["additionalProperties"])}
        elif t == "object" and set(s) <= {"properties", "required"} and isinstance(s.get("properties", {}), dict):
            props, req = s.get("properties", {}), s.get("required", [])
            if not isinstance(req, list) or len(set(req)) < len(req) or not set(req) <= set(props):
                return {"k": "bad", "why": "required"}
            r = {"k": "obj", "f": [field(k, term(v), q=k not in req) for k, v in props.items()]}
        else:
            return {"k": "bad", "why": "keywords"}
        return {"k": "opt", "e": r} if null else r

    return program(root=term(top)), j


# ------------------------------------------------------------------------------------------------ Kotlin

KT = re.compile(r'''\s+|(?P<id>[^\W\d]\w*|`[^`\n\r]+`)|(?P<str>"(?:[^"\\\n\r]|\\.)*")|(?P<p>[@().,:<>?=;\[\]-])|(?P<num>\d+)''')
KT_ESC = {"t": "\t", "b": "\b", "n": "\n", "r": "\r", "'": "'", '"': '"', "\\": "\\", "$": "$"}


class KtError(Exception):
    pass


def kt_string(lit):
    s, out, i = lit[1:-1], [], 0
    while i < len(s):
        c = s[i]
        if c == "\\":
            e = s[i + 1]
            if e == "u":
                h = s[i + 2:i + 6]
                if not re.fullmatch("[0-9a-fA-F]{4}", h):
                    raise KtError("escape")
                out.append(chr(int(h, 16)))
                i += 6
                continue
            if e not in KT_ESC:
                raise KtError("escape \\" + e)
            out.append(KT_ESC[e])
            i += 2
            continue
        if c == "$" and i + 1 < len(s) and (s[i + 1] in "{`_" or s[i + 1].isalpha()):
            raise KtError("template")
        out.append(c)
        i += 1
    return "".join(out).encode("utf-16", "surrogatepass").decode("utf-16")


class Kotlin:
    def __init__(self, code):
        self.toks, i = [], 0
        while i < len(code):
            m = KT.match(code, i)
            if not m:
                raise KtError("character %r" % code[i])
            i = m.end()
            if m.lastgroup:
                self.toks.append((m.lastgroup, m.group(m.lastgroup)))
        self.toks.append(("end", ""))
        self.i = 0
        self.used, self.libs = set(), {}
        self.quoted = set()

    def peek(self):
        return self.toks[self.i][1] if self.toks[self.i][0] != "str" else '"'

    def next(self):
        t = self.toks[self.i]
        self.i += 1
        return t

    def take(self, text):
        k, v = self.next()
        if v != text or k == "str":
            raise KtError("expected %s, got %s" % (text, v))

    def ident(self):
        k, v = self.next()
        if k != "id":
            raise KtError("expected an identifier, got " + v)
        if v[0] == "`":
            self.quoted.add(v[1:-1])
            return v[1:-1]
        return v

    def path(self):
        p = self.ident()
        while self.peek() == ".":
            self.next()
            p += "." + self.ident()
        return p

    def type(self):
        n = self.path()
        args = []
        if self.peek() == "<":
            self.next()
            args.append(self.type())
            while self.peek() == ",":
                self.next()
                args.append(self.type())
            self.take(">")
        q = 0
        while self.peek() == "?":
            self.next()
            q += 1
        t = self.term(n, args, q)
        return t

    def term(self, n, args, q):
        a = [self.value(x) for x in args]
        if n == "Any" and not args:
            self.used.add(n)
            t, q = ({"k": "any"}, q - 1) if q else ({"k": "nonnull"}, 0)
        elif n in ("Boolean", "String", "Long", "Double") and not args:
            self.used.add(n)
            t = {"k": "prim", "n": n}
        elif n == "List" and len(args) == 1:
            self.used.add(n)
            t = {"k": "list", "e": a[0]}
        elif n == "Map" and len(args) == 2 and a[0] == {"k": "prim", "n": "String"}:
            self.used.add(n)
            t = {"k": "emptymap"} if args[1] == {"k": "nonnull"} else {"k": "map", "e": a[1]}
        elif (n, len(args)) in (("Pair", 2), ("Triple", 3)):
            self.used.add(n)
            t = {"k": "tuple", "es": a}
        elif not args:
            t = {"k": "ref", "n": n}
        else:
            t = {"k": "bad", "why": n}
        for _ in range(q):
            t = {"k": "opt", "e": t}
        return t

    @staticmethod
    def value(t):
        return {"k": "bad", "why": "Any"} if t == {"k": "nonnull"} else t

    def annotations(self):
        """[(full or short path, site, args)] where args is None or a list of tokens"""
        out = []
        while self.peek() == "@":
            self.next()
            p, site = self.ident(), ""
            if self.peek() == ":":
                self.next()
                site, p = p, self.ident()
            while self.peek() == ".":
                self.next()
                p += "." + self.ident()
            args = None
            if self.peek() == "(":
                self.next()
                args = []
                while self.peek() != ")":
                    k, v = self.next()
                    if k == "end":
                        raise KtError("end in annotation")
                    args.append((k, v))
                self.next()
            out.append((p, site, args))
        return out

    LIBS = {n.rsplit(".", 1)[-1]: n for n in [
        "com.fasterxml.jackson.annotation.JsonProperty", "kotlinx.serialization.SerialName", "kotlinx.serialization.Serializable",
        "com.fasterxml.jackson.databind.annotation.JsonNaming", "com.fasterxml.jackson.databind.PropertyNamingStrategies",
        "com.fasterxml.jackson.annotation.JsonAnySetter", "com.fasterxml.jackson.annotation.JsonAnyGetter"]}

    def lib(self, w):
        short = w.rsplit(".", 1)[-1]
        if short in self.LIBS and w in (short, self.LIBS[short]):
            self.libs[w] = self.LIBS[short]
            if w == short:
                self.used.add(short)
            return short
        return "?" + w

    def file(self, mode):
        imports, decls = [], []
        while self.peek() == "import":
            self.next()
            imports.append(self.path())
        while self.toks[self.i][0] != "end":
            anns = self.annotations()
            kw = self.ident()
            if kw == "typealias" and not anns:
                n = self.ident()
                self.take("=")
                decls.append(aliasdecl(n, self.value(self.type())))
                if self.peek() == ";":
                    self.next()
            elif kw == "data":
                self.take("class")
                decls.append(self.dataclass(anns, mode))
            else:
                raise KtError("declaration " + kw)
        for d in decls:
            for x in [d["n"]] + [f["id"] for f in d["fields"]]:
                if x in self.quoted:
                    d["extra"].append("backticks")
        return program(decls=decls, imports=imports, used=sorted(self.used), libs=[{"f": f, "w": w} for w, f in self.libs.items()])

    def dataclass(self, anns, mode):
        n = self.ident()
        extra, renall, ser = [], "", False
        for p, site, args in anns:
            short = self.lib(p)
            if short == "JsonNaming" and not site and args and len(args) >= 6:
                words = "".join(v for _, v in args)
                m = re.fullmatch(r"([\w.]+)\.(\w+)::class", words)
                if m and self.lib(m.group(1)) == "PropertyNamingStrategies" and not renall:
                    renall = m.group(2)
                    continue
            elif short == "Serializable" and not site and args is None and not ser:
                ser = True
                continue
            extra.append(p)
        self.take("(")
        fields, collect = [], False
        while self.peek() != ")":
            fanns = self.annotations()
            self.take("val")
            id = self.ident()
            self.take(":")
            t = self.type()
            default = None
            if self.peek() == "=":
                self.next()
                default = []
                while self.peek() not in (",", ")") or (default and default[-1] == "("):
                    default.append(self.next()[1])
                    if default[-1] == "":
                        raise KtError("end in default")
            if default is not None:
                kinds = [(self.lib(p), site, args) for p, site, args in fanns]
                if id == "additionalFields" and t == {"k": "emptymap"} and "".join(default) == "mutableMapOf()" and \
                        kinds == [("JsonAnySetter", "", None), ("JsonAnyGetter", "get", None)] and not collect:
                    collect = True
                else:
                    extra.append("default")
            else:
                key, ex = None, []
                for p, site, args in fanns:
                    short = self.lib(p)
                    want = "JsonProperty" if mode == "jackson" else "SerialName"
                    if short == want and not site and args and len(args) == 1 and args[0][0] == "str" and key is None:
                        key = kt_string(args[0][1])
                    else:
                        ex.append(p)
                fields.append(field(id, self.value(t), key, extra=ex))
            if self.peek() == ",":
                self.next()
            elif self.peek() != ")":
                raise KtError("expected , or )")
        self.take(")")
        if not fields and not collect:
            raise KtError("empty data class")
        return classdecl(n, fields, renall=renall, collect=collect, serializable=ser, extra=extra)


def kotlin(code, mode):
    try:
        return Kotlin(code).file(mode)
    except (KtError, IndexError, UnicodeError) as e:
        return failed(e)


# ------------------------------------------------------------------------------------------------ Python

PY_LIBS = {"Any": "typing.Any", "Optional": "typing.Optional", "BaseModel": "pydantic.BaseModel", "Field": "pydantic.Field"}
PY_BUILTINS = ("bool", "str", "int", "float", "list", "dict", "tuple")


class PyBad(Exception):
    pass


def python(code):
    try:
        tree = ast.parse(code)
    except (SyntaxError, ValueError, RecursionError, MemoryError) as e:
        return failed(e)
    used, libs, imports, other, decls = set(), {}, [], [], []

    def name(n):
        """(kind, name) of a Name or a module.attribute"""
        if isinstance(n, ast.Name):
            if n.id in PY_LIBS:
                libs[n.id] = PY_LIBS[n.id]
                used.add(n.id)
                return "lib", n.id
            if n.id in PY_BUILTINS:
                used.add(n.id)
                return "builtin", n.id
            return "ref", n.id
        if isinstance(n, ast.Attribute) and isinstance(n.value, ast.Name):
            full = n.value.id + "." + n.attr
            if PY_LIBS.get(n.attr) == full:
                libs[full] = full
                used.add(n.value.id)
                return "lib", n.attr
        raise PyBad(ast.dump(n)[:60])

    def term(n, plain, quoted=False):
        if isinstance(n, ast.Constant) and isinstance(n.value, str) and not quoted:
            return term(ast.parse(n.value, mode="eval").body, plain, True)
        if isinstance(n, ast.Subscript):
            k, x = name(n.value)
            args = n.slice.elts if isinstance(n.slice, ast.Tuple) else [n.slice]
            ts = [term(a, plain, quoted) for a in args]
            if (k, x) == ("lib", "Optional") and len(ts) == 1:
                return {"k": "opt", "e": ts[0]}
            if (k, x) == ("builtin", "list") and len(ts) == 1:
                return {"k": "list", "e": ts[0]}
            if (k, x) == ("builtin", "dict") and len(ts) == 2 and ts[0] == {"k": "prim", "n": "str"}:
                return {"k": "map", "e": ts[1]}
            if (k, x) == ("builtin", "tuple"):
                return {"k": "tuple", "es": ts}
            raise PyBad("subscript")
        k, x = name(n)
        if (k, x) == ("lib", "Any"):
            return {"k": "any"}
        if k == "builtin" and x in ("bool", "str", "int", "float"):
            return {"k": "prim", "n": x}
        if k == "ref":
            if not quoted:
                plain.append(x)
            return {"k": "ref", "n": x}
        raise PyBad("name " + x)

    def names(n):
        return {x.id for x in ast.walk(n) if isinstance(x, ast.Name)}

    for st in tree.body:
        try:
            if isinstance(st, ast.ImportFrom) and st.level == 0 and all(a.asname is None for a in st.names):
                imports += ["%s.%s" % (st.module, a.name) for a in st.names]
            elif isinstance(st, ast.Import) and all(a.asname is None for a in st.names):
                imports += [a.name for a in st.names]
            elif isinstance(st, ast.Assign) and len(st.targets) == 1 and isinstance(st.targets[0], ast.Name):
                plain = []
                decls.append(aliasdecl(st.targets[0].id, term(st.value, plain), plain=plain))
            elif isinstance(st, ast.ClassDef) and len(st.bases) == 1 and not st.keywords and not st.decorator_list:
                if name(st.bases[0]) != ("lib", "BaseModel"):
                    raise PyBad("base")
                fields, plain, withdefault, masked = [], [], set(), False
                for m in st.body:
                    if isinstance(m, ast.Pass) and len(st.body) == 1:
                        continue
                    if not isinstance(m, ast.AnnAssign) or not isinstance(m.target, ast.Name) or not m.simple:
                        raise PyBad("member")
                    key = None
                    if m.value is not None:
                        c = m.value
                        if not (isinstance(c, ast.Call) and name(c.func) == ("lib", "Field") and not c.args and len(c.keywords) == 1
                                and c.keywords[0].arg == "alias" and isinstance(c.keywords[0].value, ast.Constant)
                                and isinstance(c.keywords[0].value.value, str)):
                            raise PyBad("default")
                        key = c.keywords[0].value.value
                        masked = masked or bool(names(c) & withdefault)
                    masked = masked or bool(names(m.annotation) & withdefault)
                    fields.append(field(m.target.id, term(m.annotation, plain), key))
                    if m.value is not None:
                        withdefault.add(m.target.id)
                decls.append(classdecl(st.name, fields, plain=plain, masked=masked))
            else:
                raise PyBad(type(st).__name__)
        except (PyBad, SyntaxError) as e:
            other.append(str(e)[:100])
    return program(decls=decls, imports=imports, used=sorted(used), libs=[{"f": f, "w": w} for w, f in libs.items()], other=other)


# running it, with a stand-in for pydantic (v1 rules about field names and forward references)

class FieldInfo:
    def __init__(self, alias):
        self.alias = alias


def Field(*, alias):
    return FieldInfo(alias)


ATTRS = ("construct", "copy", "dict", "from_orm", "json", "parse_file", "parse_obj", "parse_raw", "schema", "schema_json",
         "update_forward_refs", "validate", "Config")


class Meta(type):
    def __new__(m, n, bases, ns):
        if bases:
            ann = ns.get("__annotations__", {})
            for f in ann:
                if f in ATTRS:
                    raise NameError('Field name "%s" shadows a BaseModel attribute' % f)
                if f.startswith("_"):
                    raise NameError("fields must not start with an underscore: " + f)
                if f in ns and not isinstance(ns[f], FieldInfo):
                    raise TypeError("default of " + f)
            for f in ns:
                if not f.startswith("__") and f not in ann:
                    raise TypeError("not annotated: " + f)
        return super().__new__(m, n, bases, ns)


class BaseModel(metaclass=Meta):
    pass


def run_python(code, style, opaque=()):
    """Load the module; returns (error or None, {class: {field: runtime annotation as term, collapsed}}, aliases)"""
    pyd = types.ModuleType("pydantic")
    pyd.BaseModel, pyd.Field = BaseModel, Field
    real = builtins.__import__

    def imp(n, g=None, l=None, fromlist=(), level=0):
        if n == "pydantic":
            return pyd
        if n == "typing":
            return real(n, g, l, fromlist, level)
        raise ImportError(n)

    g = {"__builtins__": dict(vars(builtins), __import__=imp), "__name__": "generated"}
    if style == "assume_existing":
        g.update({"BaseModel": BaseModel, "Field": Field, "Any": typing.Any, "Optional": typing.Optional})
    for n in opaque:
        g[n] = type(n, (), {})
    try:
        exec(compile(code, "<generated>", "exec"), g)
    except Exception as e:  # noqa
        return "%s: %s" % (type(e).__name__, e), None

    def conv(t):
        if isinstance(t, str):
            return conv(eval(t, g))
        if isinstance(t, typing.ForwardRef):
            return conv(eval(t.__forward_arg__, g))
        if t is typing.Any:
            return {"k": "any"}
        if t in (bool, str, int, float):
            return {"k": "prim", "n": t.__name__}
        if isinstance(t, type) and isinstance(t, Meta) and t is not BaseModel:
            if g.get(t.__name__) is not t:
                raise TypeError("class %s is not what its name refers to" % t.__name__)
            return {"k": "ref", "n": t.__name__}
        o, args = typing.get_origin(t), typing.get_args(t)
        if o is typing.Union:
            rest = [a for a in args if a is not type(None)]
            if len(rest) == 1 and len(args) == 2:
                return {"k": "opt", "e": conv(rest[0])}
        if o is list and len(args) == 1:
            return {"k": "list", "e": conv(args[0])}
        if o is dict and len(args) == 2 and args[0] is str:
            return {"k": "map", "e": conv(args[1])}
        if o is tuple:
            return {"k": "tuple", "es": [conv(a) for a in args]}
        if isinstance(t, type) and t.__name__ in opaque:
            return {"k": "ref", "n": t.__name__}
        raise TypeError("annotation %r" % (t,))

    try:
        out = {}
        for n, v in list(g.items()):
            if isinstance(v, Meta) and v is not BaseModel:
                out[n] = {f: conv(a) for f, a in v.__dict__.get("__annotations__", {}).items()}
            elif n not in ("__builtins__", "typing", "pydantic", "__name__", "Any", "Optional", "Field", "BaseModel") and n not in opaque:
                out[n] = conv(v)
        return None, out
    except Exception as e:  # noqa
        return "annotation: %s: %s" % (type(e).__name__, e), None


def collapse(t):
    """What typing makes of nested Optionals."""
    if t["k"] == "opt":
        e = collapse(t["e"])
        return e if e["k"] == "opt" else {"k": "opt", "e": e}
    t = dict(t)
    if "e" in t:
        t["e"] = collapse(t["e"])
    if "es" in t:
        t["es"] = [collapse(x) for x in t["es"]]
    return t


def python_runs(code, p, style, opaque=()):
    """None, or what is wrong when the module is loaded."""
    err, rt = run_python(code, style, opaque)
    if err:
        return err
    for d in p["decls"]:
        if d["n"] not in rt:
            return "%s is not defined" % d["n"]
        if d["k"] == "alias":
            if rt[d["n"]] != collapse(d["t"]) and not isinstance(rt[d["n"]], dict):
                return "alias %s" % d["n"]
        elif isinstance(rt[d["n"]], dict):
            for f in d["fields"]:
                if rt[d["n"]].get(f["id"]) != collapse(f["t"]):
                    return "%s.%s is %s" % (d["n"], f["id"], rt[d["n"]].get(f["id"]))
    return None
