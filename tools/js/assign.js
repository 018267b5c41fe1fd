// Type-checks generated TypeScript with the sample assigned to the root type.
// Request (stdin, one JSON): [{"code": ..., "name": root, "sample": JSON text, "names": [...]}]; answer: list of [errors]
const path = require("path");
const ts = require(path.join("/opt/veriftools/node/node_modules", "typescript"));
const cases = JSON.parse(require("fs").readFileSync(0, "utf8"));
const files = new Map();
cases.forEach((c, i) => {
    // a computed key does not set the prototype; JSON texts are expressions otherwise
    const decl = (c.names || []).map(n => `declare type ${n} = any;\n`).join("");
    files.set(`/c${i}.ts`, c.code + "\n" + decl + "export const __sample: " + c.name + " = " + c.sample + ";\n");
});
const opts = { strict: true, target: ts.ScriptTarget.ES2022, noEmit: true, types: [], lib: ["lib.es2022.d.ts"], module: ts.ModuleKind.ES2022 };
const host = ts.createCompilerHost(opts);
const readFile = host.readFile, exists = host.fileExists, getSource = host.getSourceFile;
host.getSourceFile = (n, v, ...r) => files.has(n) ? ts.createSourceFile(n, files.get(n), v, true) : getSource.call(host, n, v, ...r);
host.fileExists = n => files.has(n) || exists.call(host, n);
host.readFile = n => files.has(n) ? files.get(n) : readFile.call(host, n);
const prog = ts.createProgram([...files.keys()], opts, host);
const out = cases.map((c, i) => {
    const f = prog.getSourceFile(`/c${i}.ts`);
    return [...prog.getSyntacticDiagnostics(f), ...prog.getSemanticDiagnostics(f)].map(d => {
        const line = d.start === undefined ? 0 : f.getLineAndCharacterOfPosition(d.start).line;
        return { code: d.code, sample: line >= f.getLineAndCharacterOfPosition(c.code.length + 1).line, msg: ts.flattenDiagnosticMessageText(d.messageText, " ").slice(0, 200),
                 // a member every object inherits, and that the types declare as optional
                 inherited: /Types of property '(constructor|toString|toLocaleString|valueOf|hasOwnProperty|isPrototypeOf|propertyIsEnumerable)' are incompatible\.\s+Type '(Function|\(.*\) => \w+)' is not assignable/.test(ts.flattenDiagnosticMessageText(d.messageText, " ")) };
    });
});
const opt = prog.getOptionsDiagnostics().concat(prog.getGlobalDiagnostics());
process.stdout.write(JSON.stringify({ global: opt.map(d => ts.flattenDiagnosticMessageText(d.messageText, " ")), out }));
