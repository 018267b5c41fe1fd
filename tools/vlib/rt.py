"""Compilers and libraries on generated code: rustc with serde, tsc, Draft 7 validation, loading of Python modules."""
import concurrent.futures, glob, json, os, re, shutil, subprocess
from . import env, jv, prog
from .env import ToolError


def rust_externs():
    """Where the harness' build left serde, serde_derive and serde_json."""
    env.build("drv")
    r = subprocess.run(["cargo", "build", "--offline", "-q", "-p", "drv", "--message-format=json"],
                       cwd=os.path.join(env.VERIF, "harness"), env=env.cargo_env(), capture_output=True, text=True)
    out = {}
    for line in r.stdout.splitlines():
        m = json.loads(line)
        if m.get("reason") == "compiler-artifact" and m["target"]["name"] in ("serde", "serde_derive", "serde_json"):
            for f in m["filenames"]:
                if f.endswith((".rlib", ".so")):
                    out[m["target"]["name"]] = f
    if len(out) != 3:
        raise ToolError("no serde libraries: %s %s" % (out, r.stderr[-500:]))
    return out


PRELUDE = {"assume_existing": "use serde_derive::{Serialize, Deserialize};\nuse std::collections::HashMap;\nuse serde_json::Value;\n",
           "assume_existing/serde": "use serde::{Serialize, Deserialize};\nuse std::collections::HashMap;\nuse serde_json::Value;\n"}
RUN = """
pub mod __run {
    pub fn run(s: &str) -> (bool, String) {
        let r: std::result::Result<super::%s, _> = ::serde_json::from_str(s);
        match r {
            std::result::Result::Err(e) => (false, e.to_string()),
            std::result::Result::Ok(v) => match ::serde_json::to_string(&v) {
                std::result::Result::Err(e) => (false, e.to_string()),
                std::result::Result::Ok(t) => (true, t),
            },
        }
    }
}
"""


def _rust_group(d, group, ext, edition):
    """group: [(index, code, name, sample, prelude)]; returns {index: ("compile", messages) | ("reject", e) | ("back", text)}"""
    res = {}
    left = list(group)
    os.makedirs(d)
    for attempt in range(12):
        if not left:
            return res
        with open(os.path.join(d, "main.rs"), "w") as f:
            f.write("#![allow(warnings)]\n")
            for i, *_ in left:
                f.write("mod m%d;\n" % i)
            f.write("fn main() {\n    let inp: Vec<String> = ::serde_json::from_reader(std::io::stdin()).unwrap();\n    let mut out = Vec::new();\n")
            for n, (i, *_) in enumerate(left):
                f.write("    out.push(m%d::__run::run(&inp[%d]));\n" % (i, n))
            f.write("    println!(\"{}\", ::serde_json::to_string(&out).unwrap());\n}\n")
        for i, code, name, sample, pre in left:
            with open(os.path.join(d, "m%d.rs" % i), "w") as f:
                f.write(pre + code + RUN % name)
        r = subprocess.run(["rustc", "--edition", edition, "-C", "debuginfo=0", "--error-format=json", "--crate-name", "gen", "-o", "gen",
                            "-L", "dependency=" + os.path.dirname(ext["serde"])]
                           + ["--extern=%s=%s" % kv for kv in ext.items()] + ["main.rs"], cwd=d, capture_output=True, text=True)
        if r.returncode == 0:
            p = subprocess.run(["./gen"], cwd=d, input=json.dumps([x[3] for x in left]), capture_output=True, text=True, timeout=120)
            if p.returncode != 0:
                raise ToolError("round trip program: " + p.stderr[-500:])
            for (i, *_), (ok, t) in zip(left, json.loads(p.stdout)):
                res[i] = ("back" if ok else "reject", t)
            return res
        bad = {}
        for line in r.stderr.splitlines():
            try:
                m = json.loads(line)
            except ValueError:
                continue
            if m.get("level") == "error":
                for sp in m.get("spans", []):
                    while sp.get("expansion") and not sp["file_name"].startswith("m"):
                        sp = sp["expansion"]["span"]
                    g = re.fullmatch(r"m(\d+)\.rs", os.path.basename(sp["file_name"]))
                    if g:
                        bad.setdefault(int(g.group(1)), m["message"])
        if not bad:
            raise ToolError("rustc: " + r.stderr[-1500:])
        for i, m in bad.items():
            res[i] = ("compile", m)
        left = [x for x in left if x[0] not in bad]
    for i, *_ in left:
        res[i] = ("compile", "no success in many attempts")
    return res


def rust_batch(items, edition="2021", per=40):
    """items: [(code, root, sample text, style, opaque names)] -> list of (result, text)"""
    ext = rust_externs()
    base = os.path.join(env.scratch(), "rt%d" % len(os.listdir(env.scratch())))
    os.makedirs(base)
    full = []
    for i, (code, name, sample, style, opaque) in enumerate(items):
        pre = PRELUDE.get(style, "") + "".join("pub type %s = ::serde_json::Value;\n" % n for n in opaque)
        full.append((i, code, name, sample, pre))
    groups = [full[i:i + per] for i in range(0, len(full), per)]
    out = {}
    with concurrent.futures.ThreadPoolExecutor(8) as ex:
        for r in ex.map(lambda g: _rust_group(os.path.join(base, "g%d" % g[0]), g[1], ext, edition), enumerate(groups)):
            out.update(r)
    shutil.rmtree(base, ignore_errors=True)
    return [out[i] for i in range(len(items))]


def same_numbers(v, w):
    """w with every number that equals its counterpart in v (as an integer, or as a double) spelled as in v."""
    if v["k"] == "num" and w["k"] == "num":
        a, b = v["t"], w["t"]
        ints = all(re.fullmatch(r"-?\d+", x) for x in (a, b))
        return v if (int(a) == int(b) if ints and abs(int(a)) < 2 ** 63 else float(a) == float(b)) else w
    if v["k"] == "arr" and w["k"] == "arr" and len(v["a"]) == len(w["a"]):
        return jv.arr(same_numbers(x, y) for x, y in zip(v["a"], w["a"]))
    if v["k"] == "obj" and w["k"] == "obj":
        have = {m["n"]: m["v"] for m in v["m"]}
        return jv.obj([(m["n"], same_numbers(have[m["n"]], m["v"]) if m["n"] in have else m["v"]) for m in w["m"]])
    return w


class Lit(str):
    pass


def parse(text):
    """JSON text as a value record, numbers by their text."""
    def conv(x):
        if isinstance(x, Lit):
            return jv.num(str(x))
        if x is None:
            return jv.NULL
        if isinstance(x, bool):
            return jv.bl(x)
        if isinstance(x, str):
            return jv.st(x)
        if isinstance(x, list):
            return jv.arr(conv(y) for y in x)
        return jv.obj([(k, conv(y)) for k, y in x.items()])
    return conv(json.loads(text, parse_int=Lit, parse_float=Lit))


# -------------------------------------------------------------------------------------------------- TypeScript

def js_literal(v):
    """The sample as a TypeScript expression (a literal __proto__ key would set the prototype)."""
    k = v["k"]
    if k == "arr":
        return "[" + ",".join(js_literal(x) for x in v["a"]) + "]"
    if k == "obj":
        return "{" + ",".join((("[%s]" if m["n"] == "__proto__" else "%s") % json.dumps(m["n"])) + ":" + js_literal(m["v"]) for m in v["m"]) + "}"
    return jv.text(v, True)


def tsc_batch(items, per=120):
    """items: [(code, root, value, opaque names)] -> list of lists of errors"""
    script = os.path.join(env.VERIF, "tools", "js", "assign.js")
    groups = [items[i:i + per] for i in range(0, len(items), per)]

    def go(g):
        inp = json.dumps([{"code": c, "name": n, "sample": js_literal(v), "names": list(o)} for c, n, v, o in g])
        r = subprocess.run(["node", script], input=inp, capture_output=True, text=True, timeout=600)
        if r.returncode != 0:
            raise ToolError("tsc: " + r.stderr[-800:])
        a = json.loads(r.stdout)
        if a["global"]:
            raise ToolError("tsc: %s" % a["global"])
        return a["out"]
    with concurrent.futures.ThreadPoolExecutor(6) as ex:
        return [x for g in ex.map(go, groups) for x in g]


# -------------------------------------------------------------------------------------------------- JSON Schema

def schema_check(code, value):
    """None, or ("load" | "reject", message)"""
    import jsonschema
    j = json.loads(code)
    try:
        jsonschema.Draft7Validator.check_schema(j)
    except jsonschema.exceptions.SchemaError as e:
        return "load", str(e)[:300]
    err = next(jsonschema.Draft7Validator(j).iter_errors(jv.py(value)), None)
    return None if err is None else ("reject", err.message[:300])
