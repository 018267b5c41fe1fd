"""C23: SQL input (spec/Sql.tla)."""
import json
from vlib import drv, env, rs, shape, tlc
from vlib.env import rng

CFG = """INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
CONSTANTS Deep = %s Emit = %s
INVARIANTS Same Prefix Broken Vectors
"""
MODES = ["rust", "typescript", "typescript/typealias", "kotlin/jackson", "kotlin/kotlinx", "python", "json_schema", "zod", "shape"]
TYPES = {  # spellings of each type
    "CHARACTER": ["CHARACTER", "CHARACTER(20)"], "CHAR": ["CHAR", "CHAR(3)"], "CHARACTER VARYING": ["CHARACTER VARYING(9)", "CHARACTER VARYING"],
    "CHAR VARYING": ["CHAR VARYING(9)"], "VARCHAR": ["VARCHAR(255)", "VARCHAR"], "NVARCHAR": ["NVARCHAR(10)"], "TEXT": ["TEXT"], "STRING": ["STRING"],
    "TINYINT": ["TINYINT", "TINYINT(1)", "TINYINT UNSIGNED"], "SMALLINT": ["SMALLINT", "SMALLINT(5) UNSIGNED"], "MEDIUMINT": ["MEDIUMINT", "MEDIUMINT UNSIGNED"],
    "INT": ["INT", "INT(11)", "INT UNSIGNED"], "INTEGER": ["INTEGER", "INTEGER(4)", "INTEGER UNSIGNED"], "BIGINT": ["BIGINT", "BIGINT(20) UNSIGNED"],
    "BOOLEAN": ["BOOLEAN"], "BOOL": ["BOOL"],
    "DATE": ["DATE"], "DATETIME": ["DATETIME", "DATETIME(6)"], "TIMESTAMP": ["TIMESTAMP", "TIMESTAMP WITH TIME ZONE", "TIMESTAMP(3)", "TIMESTAMP WITHOUT TIME ZONE"],
    "SERIAL": ["SERIAL"], "BIGSERIAL": ["BIGSERIAL"],
    "FLOAT": ["FLOAT", "FLOAT(8)"], "REAL": ["REAL"], "DOUBLE": ["DOUBLE"], "DOUBLE PRECISION": ["DOUBLE PRECISION"], "NUMERIC": ["NUMERIC(10,2)", "NUMERIC"],
    "DECIMAL": ["DECIMAL(10, 2)", "DECIMAL"], "DEC": ["DEC(3)"], "UUID": ["UUID"], "CLOB": ["CLOB"], "JSON": ["JSON"], "BLOB": ["BLOB"], "BYTEA": ["BYTEA"],
    "TIME": ["TIME"], "TIMESTAMPTZ": ["TIMESTAMPTZ"], "ENUM": ["ENUM('a', 'NOT NULL')"], "BINARY": ["BINARY(16)"], "INT ARRAY": ["INT[]"], "TEXT ARRAY": ["TEXT[]"],
    "money": ["money", "app.kind", "Weird(1, 2)"],
}
PLAIN = ["a", "b", "c", "id", "userName", "created_at", "x1", "_y", "été", "n", "Ab", "ID", "camelCaseName", "snake_case_name", "sk1", "データ"]
QUOTED = ["select", "a b", "NOT NULL", "x\"y", "é", "{", "x'y", "a.b", "CREATE TABLE", "1", "-- a", "type", "/*", "a;b", "(", "\\", "\t", "Name", "nameé", "self", "$ref", "%"]
RESERVED_NAMES = {"u", "c", "id", "t", "l"}


def quote(n):
    return '"' + n.replace('"', '""') + '"'


def name(r, used=()):
    while True:
        if r.random() < 0.6:
            n = r.choice(PLAIN)
            if r.random() < 0.3:
                n += r.choice(["2", "_x", "Id"])
            text = n if r.random() < 0.75 else quote(n)
        else:
            n = r.choice(QUOTED) + r.choice(["", "", "", " 2", "?x"])
            text = quote(n)
        if n not in used:
            return n, text


VALS = ["1", "'x'", "NULL", "CURRENT_TIMESTAMP", "now()", "(1 + 2)", "'NOT NULL'", "-1", "true", "'it''s'", "1.5e3", "''", "FALSE"]
CHECKS = ["a IS NOT NULL", "a > 1", "a <> 'NOT NULL'", "length(a) > 2 AND a IS NOT NULL", "a IN (1, 2)", "NOT a", "a NOT IN (1)", "(a)"]
OTHERS = ["SELECT 1", "INSERT INTO x VALUES (1, 'CREATE TABLE x (a INT)')", "DROP TABLE x", "CREATE INDEX i ON x (a)", "CREATE VIEW v AS SELECT a FROM x",
          "ALTER TABLE x ADD COLUMN z INT NOT NULL", "DELETE FROM x", "UPDATE x SET a = 1", "BEGIN", "COMMIT", "SELECT a FROM b WHERE c IS NOT NULL",
          "CREATE SCHEMA s", "SHOW TABLES", "TRUNCATE TABLE x", "SELECT 'CREATE TABLE t (a INT);'", "CREATE SEQUENCE q", "GRANT SELECT ON x TO y"]
JUNK = ["{", "}", "\u00a7", "(((;"]
COMMENTS = [" -- NOT NULL\n", " /* NOT NULL, */ ", "\n-- ) ;\n", "/*a*/", "\n\n\t", "\r\n  ", "  "]


def case(r, w):
    k = r.randrange(4)
    return w if k == 0 else w.lower() if k == 1 else w.capitalize() if k == 2 else "".join(ch.upper() if r.random() < 0.5 else ch.lower() for ch in w)


def spell(r, toks):
    """Texts for tokens; returns the text and the tokens with the names and types that were put in."""
    out, parts, names, cols = [], [], {}, set()
    for i, t in enumerate(toks):
        k, v = t["t"], t["v"]
        prev = toks[i - 1]["t"] if i else ""
        nv = v
        if k == "name":
            depth_column = prev in ("(", ",") and i + 1 < len(toks) and toks[i + 1]["t"] == "type"
            if depth_column:
                nv, text = name(r, cols)
                cols.add(nv)
            elif prev == "TABLE":
                nv, text = "t", r.choice(["t", "users", "\"my table\"", "app.users", "a.b.c", "\"x\".\"y z\"", "Tbl_1"])
                cols = set()
            else:
                nv, text = name(r)
        elif k == "type":
            nv = r.choice(list(TYPES)) if r.random() < 0.5 else r.choice(["VARCHAR", "INT", "BOOLEAN", "TEXT", "BIGINT", "DATE", "TIMESTAMP", "DECIMAL", "CHAR"])
            text = r.choice(TYPES[nv])
            if text.upper() == text and "'" not in text:
                text = case(r, text)
        elif k == "val":
            if prev == "(":
                text = r.choice(CHECKS)
            elif prev == "UPDATE":
                text = r.choice(["CURRENT_TIMESTAMP", "now()"])
            else:
                text = v if r.random() < 0.3 and v in VALS else r.choice(VALS)
        elif k == "str":
            text = r.choice(["'x'", "'NOT NULL'", "'a, b INT NOT NULL'", "'it''s'", "')'", "''"])
        elif k == "other":
            text = r.choice(OTHERS)
        elif k == "junk":
            text = r.choice(JUNK)
        elif k == "suffix":
            text = r.choice(["ENGINE=InnoDB", "ENGINE=InnoDB DEFAULT CHARSET=utf8", "WITH (fillfactor=70)", "DEFAULT CHARSET=utf8"])
        elif k == "CREATE":
            text = case(r, "CREATE") + r.choice([""] * 6 + [" TEMPORARY", " OR REPLACE", " temp"]) if i + 1 < len(toks) and toks[i + 1]["t"] == "TABLE" else "CREATE"
        elif k == "TABLE":
            text = case(r, "TABLE") + (r.choice([""] * 5 + [" IF NOT EXISTS", " if not exists"]) if i + 1 < len(toks) and toks[i + 1]["t"] == "name" else "")
        elif k in "(),;":
            text = k
        elif k == "NULL" and prev == "SET":
            text = case(r, r.choice(["NULL", "NULL", "DEFAULT"]))
        else:
            text = case(r, k)
        out.append({"t": k, "v": nv})
        parts.append(text)
    text = r.choice(["", "", "\n ", "-- CREATE TABLE x (a INT);\n", "/* ; */"])
    for i, p in enumerate(parts):
        if i:
            tight = toks[i]["t"] in "(),;" or toks[i - 1]["t"] in "(),;"
            text += r.choice(["", " ", "\n  "]) if tight else " "
            if r.random() < 0.06 and toks[i - 1]["t"] != "junk" and toks[i]["t"] != "junk":
                text += r.choice(COMMENTS) + " "
        text += p
    return out, text + r.choice(["", "", "\n", " -- end\n"])


CONS = [["NOT", "NULL"], ["NOT", "NULL"], ["NULL"], ["PRIMARY", "KEY"], ["UNIQUE"], ["DEFAULT", "val"], ["CHECK", "(", "val", ")"], ["REFERENCES", "name", "(", "name", ")"],
        ["REFERENCES", "name", "(", "name", ")", "ON", "DELETE", "SET", "NULL"], ["COMMENT", "str"], ["AUTO_INCREMENT"], ["GENERATED", "ALWAYS", "AS", "IDENTITY"],
        ["CONSTRAINT", "name", "NOT", "NULL"], ["CONSTRAINT", "name", "UNIQUE"], ["CONSTRAINT", "name", "CHECK", "(", "val", ")"], ["CONSTRAINT", "name", "NULL"]]
TABLE_CONS = [["PRIMARY", "KEY", "(", "name", ")"], ["UNIQUE", "(", "name", ")"], ["CHECK", "(", "val", ")"], ["CONSTRAINT", "name", "UNIQUE", "(", "name", ")"],
              ["FOREIGN", "KEY", "(", "name", ")", "REFERENCES", "name", "(", "name", ")"], ["CONSTRAINT", "name", "PRIMARY", "KEY", "(", "name", ")"],
              ["CONSTRAINT", "name", "CHECK", "(", "val", ")"]]


def random_toks(r):
    """A longer list of statements."""
    ks = []
    for s in range(r.choice([1, 1, 2, 3, 5])):
        if s:
            ks += [";"] * r.choice([1, 1, 1, 2])
        if r.random() < 0.3:
            ks.append("other")
            continue
        ks += ["CREATE", "TABLE", "name", "("]
        for c in range(r.choice([1, 2, 3, 5, 12])):
            if c:
                ks.append(",")
            if r.random() < 0.12:
                ks += r.choice(TABLE_CONS)
            else:
                ks += ["name", "type"]
                for _ in range(r.choice([0, 0, 1, 1, 2, 4])):
                    ks += r.choice(CONS)
        ks.append(")")
        if r.random() < 0.1:
            ks.append("suffix")
    if r.random() < 0.3:
        ks.append(";")
    if r.random() < 0.25:
        i = r.randrange(len(ks))
        how = r.randrange(4)
        ks = ks[:i] + ks[i + 1:] if how == 0 else ks[:i] if how == 1 else ks[:i] + [r.choice(["(", ")", ",", ";", "junk"])] + ks[i:] if how == 2 else ks[:i] + [ks[i]] + ks[i:]
    return [{"t": k, "v": ""} for k in ks]


NOT_SQL = ['{"a": 1}', "[1]", "hello", "hello world", "", " ", "\n", ";", ";;", "-- x", "/* x */", "SELECT 1", "json_typegen!(\"A\", \"{}\")", "CREATE", "CREATE VIEW",
           "create tabel t (a int)", "CRATE TABLE t (a INT)", "null", "1", "<xml/>", "a: 1\nb: 2", "TABLE t (a INT)", "/etc/passwd", "http://127.0.0.1:1/x"]


def members(code):
    v = shape.parse(code)
    if v["k"] != "struct":
        return None
    out = []
    for f in v["f"]:
        s, null = f["s"], False
        if s["k"] == "nullable":
            s, null = s["e"], True
        kind = s["n"] if s["k"] == "opaque" else s["k"]
        out.append({"name": f["n"] + ("?" if f["o"] else ""), "kind": kind, "null": null})
    return out


def as_shape(ms):
    def one(m):
        s = {"k": m["kind"]} if m["kind"] in ("string", "integer", "bool", "any", "floating") else {"k": "opaque", "n": m["kind"]}
        return {"k": "nullable", "e": s} if m["null"] else s
    return {"k": "struct", "f": [{"n": m["name"], "s": one(m)} for m in ms]}


def c23(run):
    quick = run.quick()
    r = rng("sql")
    binary = env.build("drv") + "/drv"
    st = tlc.run("SqlModel", CFG % ("FALSE", "TRUE"))
    run.model("SqlModel", st, "columns with up to 2 constraints, tables of 2 items, lists of 3 statements, all single token edits")
    vectors = tlc.tagged(st["out"], "SQL")
    if not quick:
        st = tlc.run("SqlModel", CFG % ("TRUE", "FALSE"), timeout=3000, heap="16g")
        run.model("SqlModel", st, "columns with up to 3 constraints, tables of 3 items")
    run.log("model done,", len(vectors), "texts")
    whole = [v for v in vectors if v["how"] == "none"]
    spoiled = [v for v in vectors if v["how"] != "none" and v["a"] != "open"]
    texts = []
    for v in whole * (6 if quick else 40) + (r.sample(spoiled, 6000) if quick else spoiled * 2):
        texts.append(spell(r, v["toks"]))
    for _ in range(2500 if quick else 60000):
        texts.append(spell(r, random_toks(r)))
    # every type, alone, with and without NOT NULL, in all spellings
    for ty, sps in TYPES.items():
        for sp in sps:
            for nn in (False, True):
                toks = [("CREATE", ""), ("TABLE", ""), ("name", "t"), ("(", ""), ("name", "a"), ("type", ty)] + ([("NOT", ""), ("NULL", "")] if nn else []) + [(")", "")]
                texts.append(([{"t": a, "v": b} for a, b in toks], "CREATE TABLE t (a %s%s)" % (sp, " NOT NULL" if nn else "")))
    bad = [([{"t": "junk", "v": ""}] if t.strip(" \n;") and not t.startswith(("--", "/*", "SELECT")) else [{"t": ";", "v": ""}], t) for t in NOT_SQL]
    texts += bad
    ans = drv.run(binary, [{"op": "gen", "name": "Root", "input": t, "block": '{input_mode: "sql", output_mode: "shape"}'} for _, t in texts])
    evs, jobs, back = [], [], []
    for i, ((toks, text), a) in enumerate(zip(texts, ans)):
        if "ok" in a:
            ms = members(a["ok"])
            obs = {"a": "ok", "members": ms, "same": True} if ms is not None else {"a": "no struct", "members": [], "same": True}
            if ms is not None:
                # the same members, not from SQL
                o = {"output_mode": r.choice(MODES)}
                if r.random() < 0.4:
                    o["property_name_format"] = r.choice(["camelCase", "snake_case", "PascalCase", "kebab-case"])
                for k in ("deny_unknown_fields", "use_default_for_missing_fields", "collect_additional"):
                    if r.random() < 0.2:
                        o[k] = True
                if r.random() < 0.3:
                    o["import_style"] = r.choice(["add_imports", "assume_existing", "qualified_paths"])
                nm = r.choice(["Root", "Foo", "users", "foo bar"])
                jobs.append({"op": "gen", "name": nm, "input": text, "block": rs.block(dict(o, input_mode="sql"))})
                jobs.append({"op": "gen", "via": "shape", "name": nm, "input": "", "shape": as_shape(ms), "opts": o})
                back.append(i)
        else:
            obs = {"a": "error" if "err" in a else "panic" if "panic" in a else "crash", "members": [], "same": True}
        evs.append({"toks": toks, "obs": obs})
    res = drv.run(binary, jobs)
    for k, i in enumerate(back):
        x, y = res[2 * k], res[2 * k + 1]
        evs[i]["obs"]["same"] = "ok" in x and x.get("ok") == y.get("ok")
    found = tlc.validate("TraceSql", evs, run)
    for k, tags in sorted(found.items()):
        n = back.index(k) if k in back else None
        run.violation("%s: %s => %s" % (",".join(sorted(tags)), json.dumps(texts[k][1])[:300], json.dumps(ans[k])[:300]),
                      {"sql": texts[k][1], "tokens": texts[k][0], "answer": ans[k], "tags": sorted(tags),
                       "outputs": None if n is None else {"request": jobs[2 * n], "sql": res[2 * n], "same members": res[2 * n + 1]}})
    run.extra["texts"] = len(texts)
    run.extra["accepted"] = len(back)
    run.sample({"sql": texts[0][1], "answer": ans[0]})
    run.sample({"sql": texts[-40][1], "answer": ans[-40]})
    run.assumptions += ["PRIMARY KEY does not count as NOT NULL; types without a counterpart (decimal, json, ...) may be left open (any)",
                        "where dialects of SQL differ (empty list of columns, surplus commas, columns without a type) acceptance is not judged",
                        "the tokens of a text are those it was made from"]
