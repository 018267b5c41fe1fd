// Declarations of generated TypeScript and Zod code, as data. One JSON request per line, one JSON answer per line:
//   {"lang": "ts" | "tsa" | "zod", "code": ..., "names": [names that are in scope]}
const path = require("path"), vm = require("vm"), readline = require("readline");
const ts = require(path.join("/opt/veriftools/node/node_modules", "typescript"));

const K = ts.SyntaxKind;
function bad(why) { return { k: "bad", why }; }

function keyOf(name) {
    if (name.kind === K.Identifier) return name.escapedText !== undefined ? ts.unescapeLeadingUnderscores(name.escapedText) : name.text;
    if (name.kind === K.StringLiteral || name.kind === K.NumericLiteral) return name.text;
    return undefined;
}
function members(list) {
    const out = [];
    for (const m of list) {
        if (m.kind !== K.PropertySignature || m.modifiers || !m.type) return undefined;
        const key = keyOf(m.name);
        if (key === undefined) return undefined;
        out.push({ id: key, q: !!m.questionToken, t: term(m.type) });
    }
    return out;
}
function term(n) {
    switch (n.kind) {
        case K.AnyKeyword: return { k: "any" };
        case K.BooleanKeyword: return { k: "prim", n: "boolean" };
        case K.NumberKeyword: return { k: "prim", n: "number" };
        case K.StringKeyword: return { k: "prim", n: "string" };
        case K.ParenthesizedType: return term(n.type);
        case K.ArrayType: return { k: "list", e: term(n.elementType) };
        case K.TupleType: return n.elements.every(e => e.kind !== K.NamedTupleMember && e.kind !== K.OptionalType && e.kind !== K.RestType)
            ? { k: "tuple", es: n.elements.map(term) } : bad("tuple");
        case K.UnionType: {
            // null and undefined, in any order, around one other type
            let rest = n.types.slice();
            const isNull = t => t.kind === K.LiteralType && t.literal.kind === K.NullKeyword;
            const isUndef = t => t.kind === K.UndefinedKeyword;
            const wrap = [];
            while (rest.length > 1) {
                const last = rest[rest.length - 1], first = rest[0];
                if (isNull(last)) { wrap.push("opt"); rest.pop(); }
                else if (isUndef(last)) { wrap.push("undef"); rest.pop(); }
                else if (isNull(first)) { wrap.push("opt"); rest.shift(); }
                else if (isUndef(first)) { wrap.push("undef"); rest.shift(); }
                else return bad("union");
            }
            let t = term(rest[0]);
            for (const w of wrap.reverse()) t = { k: w, e: t };
            return t;
        }
        case K.TypeLiteral: {
            if (n.members.length === 1 && n.members[0].kind === K.IndexSignature) {
                const s = n.members[0];
                if (s.parameters.length === 1 && s.parameters[0].type && s.parameters[0].type.kind === K.StringKeyword && s.type)
                    return { k: "map", e: term(s.type) };
                return bad("index signature");
            }
            const f = members(n.members);
            return f ? { k: "obj", f } : bad("member");
        }
        case K.TypeReference: {
            if (n.typeName.kind !== K.Identifier) return bad("qualified name");
            const name = ts.unescapeLeadingUnderscores(n.typeName.escapedText);
            const args = n.typeArguments || [];
            if (name === "Array" && args.length === 1) return { k: "list", e: term(args[0]), w: name };
            if (name === "Record" && args.length === 2 && args[0].kind === K.StringKeyword) return { k: "map", e: term(args[1]), w: name };
            if (args.length) return bad("type arguments");
            return { k: "ref", n: name };
        }
        default: return bad(K[n.kind]);
    }
}

function typescript(code) {
    const f = ts.createSourceFile("x.ts", code, ts.ScriptTarget.ES2022, true, ts.ScriptKind.TS);
    if (f.parseDiagnostics.length)
        return { ok: false, why: ts.flattenDiagnosticMessageText(f.parseDiagnostics[0].messageText, " ") };
    const decls = [], other = [];
    for (const s of f.statements) {
        const exported = (s.modifiers || []).map(m => m.kind).join() === String(K.ExportKeyword);
        if (!exported || s.typeParameters) { other.push(s.getText().slice(0, 80)); continue; }
        if (s.kind === K.InterfaceDeclaration && !s.heritageClauses) {
            const fields = members(s.members);
            if (!fields) other.push(s.getText().slice(0, 80));
            else decls.push({ k: "class", n: ts.unescapeLeadingUnderscores(s.name.escapedText), fields });
        } else if (s.kind === K.TypeAliasDeclaration) {
            decls.push({ k: "alias", n: ts.unescapeLeadingUnderscores(s.name.escapedText), t: term(s.type) });
        } else other.push(s.getText().slice(0, 80));
    }
    return { ok: true, decls, other };
}

// ---------------------------------------------------------------------------------------------- zod
const schemas = new WeakSet();
function schema(t) {
    const s = {
        _t: t,
        array: () => schema({ k: "list", e: t }),
        nullable: () => schema({ k: "opt", e: t }),
        optional: () => schema({ k: "undef", e: t }),
        nullish: () => schema({ k: "undef", e: { k: "opt", e: t } }),
        int: () => schema(t.k === "prim" && t.n === "number" ? { k: "prim", n: "integer" } : bad("int")),
    };
    schemas.add(s);
    return s;
}
function un(s) { return s && schemas.has(s) ? s._t : bad("not a schema"); }
const z = {
    unknown: () => schema({ k: "any" }), any: () => schema({ k: "any" }),
    boolean: () => schema({ k: "prim", n: "boolean" }), string: () => schema({ k: "prim", n: "string" }),
    number: () => schema({ k: "prim", n: "number" }),
    array: (s) => schema({ k: "list", e: un(s) }),
    nullable: (s) => schema({ k: "opt", e: un(s) }),
    optional: (s) => schema({ k: "undef", e: un(s) }),
    tuple: (ss) => schema({ k: "tuple", es: ss.map(un) }),
    record: (a, b) => schema(b === undefined ? { k: "map", e: un(a) }
        : JSON.stringify(un(a)) === '{"k":"prim","n":"string"}' ? { k: "map", e: un(b) } : bad("record key")),
    object: (o) => schema({ k: "obj", f: Reflect.ownKeys(o).map(id => ({ id: String(id), q: false, t: un(o[id]) })) }),
};
function zod(code, names) {
    const f = ts.createSourceFile("x.ts", code, ts.ScriptTarget.ES2022, true, ts.ScriptKind.TS);
    if (f.parseDiagnostics.length)
        return { ok: false, why: ts.flattenDiagnosticMessageText(f.parseDiagnostics[0].messageText, " ") };
    const st = f.statements;
    const exported = st.length === 1 && st[0].kind === K.VariableStatement && (st[0].modifiers || []).some(m => m.kind === K.ExportKeyword);
    if (!exported || st[0].declarationList.declarations.length !== 1) return { ok: false, why: "not one exported declaration" };
    const name = st[0].declarationList.declarations[0].name.getText();
    const js = ts.transpileModule(code, { compilerOptions: { target: ts.ScriptTarget.ES2022, module: ts.ModuleKind.CommonJS } }).outputText;
    const sandbox = { z, exports: {} };
    for (const n of names || []) sandbox[n] = schema({ k: "ref", n });
    try {
        vm.runInNewContext(js, sandbox, { timeout: 5000 });
    } catch (e) {
        return { ok: false, why: String(e) };
    }
    if (Object.keys(sandbox.exports).join() !== name) return { ok: false, why: "exports " + Object.keys(sandbox.exports).join() };
    return { ok: true, decls: [], other: [], root: un(sandbox.exports[name]), exported: name };
}

readline.createInterface({ input: process.stdin }).on("line", line => {
    const r = JSON.parse(line);
    let a;
    try {
        a = r.lang === "zod" ? zod(r.code, r.names) : typescript(r.code);
    } catch (e) {
        a = { ok: false, why: "extractor: " + String(e) };
    }
    process.stdout.write(JSON.stringify(a) + "\n");
});
