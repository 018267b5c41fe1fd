// The web page and its worker, outside of a browser. Reads one schedule per line from standard input, replays it against
// the code in REPO/json_typegen_web/src and prints what was done and what the page shows at the end.
//
// The script of App.svelte is run as Svelte runs it in legacy mode: assignments to variables of the component invalidate
// them if the value differs, and `$:` statements that use an invalidated variable run once the current task is done.
// The markup is read for what is bound to controls; both the page and the worker get stand-ins for the browser.
"use strict";
const path = require("path");
const fs = require("fs");
const readline = require("readline");
const M = "/opt/veriftools/node/node_modules/";
const ts = require(M + "typescript");
const esbuild = require(M + "esbuild");
const SRC = path.join(process.env.VERIF_REPO || "/repo", "json_typegen_web/src");

// ------------------------------------------------------------------ markup
function parseMarkup(text) {
  // elements with attributes and the {#if}/{#each} blocks around them
  const els = [];
  const blocks = [];
  const open = [];
  let i = 0;
  const expr = () => {
    // at "{": the text up to the matching brace
    let depth = 0, j = i, q = null;
    for (; j < text.length; j++) {
      const c = text[j];
      if (q) { if (c === "\\") j++; else if (c === q) q = null; continue; }
      if (c === "'" || c === '"' || c === "`") q = c;
      else if (c === "{") depth++;
      else if (c === "}" && --depth === 0) break;
    }
    const e = text.slice(i + 1, j);
    i = j + 1;
    return e;
  };
  while (i < text.length) {
    if (text.startsWith("<!--", i)) { i = text.indexOf("-->", i) + 3; continue; }
    if (text[i] === "{") {
      const e = expr().trim();
      let m;
      if ((m = /^#if\s+([\s\S]*)$/.exec(e))) blocks.push({ k: "if", e: m[1] });
      else if (/^:else/.test(e)) {
        const b = blocks[blocks.length - 1];
        const m2 = /^:else\s+if\s+([\s\S]*)$/.exec(e);
        if (b.k === "if") b.e = "!(" + b.e + ")" + (m2 ? " && (" + m2[1] + ")" : "");
      } else if ((m = /^#each\s+([\s\S]*?)\s+as\s+(\w+)/.exec(e))) blocks.push({ k: "each", list: m[1], v: m[2] });
      else if (/^#/.test(e)) blocks.push({ k: "other" });
      else if (/^\//.test(e)) blocks.pop();
      else for (const el of open) el.text += " ";
      continue;
    }
    if (text[i] === "<" && text[i + 1] === "/") {
      const j = text.indexOf(">", i);
      open.pop();
      i = j + 1;
      continue;
    }
    const m = text[i] === "<" ? /^<([A-Za-z][\w:.-]*)/.exec(text.slice(i, i + 80)) : null;
    if (m) {
      i += m[0].length;
      const el = { tag: m[1], attrs: {}, text: "", blocks: blocks.slice() };
      for (;;) {
        while (/\s/.test(text[i])) i++;
        if (text[i] === ">") { i++; open.push(el); break; }
        if (text.startsWith("/>", i)) { i += 2; break; }
        if (text[i] === "{") { const e = expr().trim(); el.attrs[e] = { e }; continue; }
        const a = /^[^\s=>/]+/.exec(text.slice(i, i + 200))[0];
        i += a.length;
        if (text[i] !== "=") { el.attrs[a] = { s: "" }; continue; }
        i++;
        if (text[i] === "{") el.attrs[a] = { e: expr().trim() };
        else if (text[i] === '"' || text[i] === "'") {
          const j = text.indexOf(text[i], i + 1);
          const s = text.slice(i + 1, j);
          const m2 = /^\{([\s\S]*)\}$/.exec(s.trim());
          el.attrs[a] = m2 ? { e: m2[1] } : { s };
          i = j + 1;
        } else {
          const s = /^[^\s>]+/.exec(text.slice(i, i + 200))[0];
          el.attrs[a] = { s };
          i += s.length;
        }
      }
      if (/^(br|img|input|hr|link|meta)$/.test(el.tag) && open[open.length - 1] === el) open.pop();
      els.push(el);
      continue;
    }
    for (const el of open) el.text += text[i];
    i++;
  }
  return els;
}

// ------------------------------------------------------------------ script
function compileScript(source, accessors) {
  const sf = ts.createSourceFile("App.ts", source, ts.ScriptTarget.ES2022, true);
  const state = new Set();
  const reactive = [];
  const imports = [];
  const body = [];
  const declared = new Set();
  const bindingNames = (n, out) => {
    if (ts.isIdentifier(n)) out.add(n.text);
    else n.elements.forEach((e) => e.name && bindingNames(e.name, out));
  };
  for (const st of sf.statements) {
    if (ts.isVariableStatement(st)) {
      for (const d of st.declarationList.declarations) {
        bindingNames(d.name, declared);
        if (!(st.declarationList.flags & ts.NodeFlags.Const)) bindingNames(d.name, state);
      }
    }
    if (ts.isFunctionDeclaration(st) && st.name) declared.add(st.name.text);
  }
  for (const st of sf.statements) {
    if (ts.isLabeledStatement(st) && st.label.text === "$" && ts.isExpressionStatement(st.statement)) {
      let e = st.statement.expression;
      while (ts.isParenthesizedExpression(e)) e = e.expression;
      if (ts.isBinaryExpression(e) && e.operatorToken.kind === ts.SyntaxKind.EqualsToken && ts.isIdentifier(e.left) && !declared.has(e.left.text)) {
        state.add(e.left.text);
        declared.add(e.left.text);
        body.push(ts.factory.createVariableStatement(undefined, ts.factory.createVariableDeclarationList(
          [ts.factory.createVariableDeclaration(e.left.text)], ts.NodeFlags.Let)));
      }
    }
  }
  const f = ts.factory;
  const call = (n, ...a) => f.createCallExpression(f.createIdentifier(n), undefined, a);
  const str = (s) => f.createStringLiteral(s);
  const root = (n) => {
    while (ts.isPropertyAccessExpression(n) || ts.isElementAccessExpression(n) || ts.isNonNullExpression(n) || ts.isParenthesizedExpression(n) || ts.isAsExpression(n)) n = n.expression;
    return ts.isIdentifier(n) ? n.text : null;
  };
  const transformer = (ctx) => (rootNode) => {
    const scopes = [];
    const shadowed = (n) => scopes.some((s) => s.has(n));
    const mine = (n) => state.has(n) && !shadowed(n);
    const locals = (node) => {
      const s = new Set();
      if (node.parameters) node.parameters.forEach((p) => bindingNames(p.name, s));
      const scan = (n) => {
        if (n !== node && ts.isFunctionLike(n)) { if (ts.isFunctionDeclaration(n) && n.name) s.add(n.name.text); return; }
        if (ts.isVariableDeclaration(n)) bindingNames(n.name, s);
        if (ts.isCatchClause(n) && n.variableDeclaration) bindingNames(n.variableDeclaration.name, s);
        ts.forEachChild(n, scan);
      };
      ts.forEachChild(node, scan);
      return s;
    };
    const visit = (node) => {
      if (ts.isFunctionLike(node)) {
        scopes.push(locals(node));
        const r = ts.visitEachChild(node, visit, ctx);
        scopes.pop();
        return r;
      }
      if (ts.isBinaryExpression(node) && node.operatorToken.kind >= ts.SyntaxKind.FirstAssignment && node.operatorToken.kind <= ts.SyntaxKind.LastAssignment) {
        const left = node.left;
        if (ts.isIdentifier(left)) {
          if (!mine(left.text)) return ts.visitEachChild(node, visit, ctx);
          const right = ts.visitNode(node.right, visit);
          const op = node.operatorToken.kind;
          const id = f.createIdentifier(left.text);
          // what the variable held is read before the assignment
          if (op === ts.SyntaxKind.EqualsToken) return f.createAssignment(id, call("$$set", str(left.text), id, right));
          const plain = { [ts.SyntaxKind.PlusEqualsToken]: "+", [ts.SyntaxKind.MinusEqualsToken]: "-", [ts.SyntaxKind.BarBarEqualsToken]: "||", [ts.SyntaxKind.QuestionQuestionEqualsToken]: "??", [ts.SyntaxKind.AmpersandAmpersandEqualsToken]: "&&" }[op];
          if (!plain) throw new Error("assignment not understood: " + node.getText());
          const tok = { "+": ts.SyntaxKind.PlusToken, "-": ts.SyntaxKind.MinusToken, "||": ts.SyntaxKind.BarBarToken, "??": ts.SyntaxKind.QuestionQuestionToken, "&&": ts.SyntaxKind.AmpersandAmpersandToken }[plain];
          return f.createAssignment(id, call("$$set", str(left.text), id, f.createBinaryExpression(id, tok, f.createParenthesizedExpression(right))));
        }
        if (ts.isPropertyAccessExpression(left) || ts.isElementAccessExpression(left)) {
          const n = root(left);
          const v = ts.visitEachChild(node, visit, ctx);
          return n && mine(n) ? call("$$touch", str(n), v) : v;
        }
        // destructuring
        const names = new Set();
        const collect = (n) => { if (ts.isIdentifier(n)) names.add(n.text); else ts.forEachChild(n, collect); };
        collect(left);
        let v = ts.visitEachChild(node, visit, ctx);
        for (const n of names) if (mine(n)) v = call("$$touch", str(n), v);
        return f.createParenthesizedExpression(v);
      }
      if ((ts.isPrefixUnaryExpression(node) || ts.isPostfixUnaryExpression(node)) && (node.operator === ts.SyntaxKind.PlusPlusToken || node.operator === ts.SyntaxKind.MinusMinusToken)) {
        const t = node.operand;
        const tok = node.operator === ts.SyntaxKind.PlusPlusToken ? ts.SyntaxKind.PlusToken : ts.SyntaxKind.MinusToken;
        const back = node.operator === ts.SyntaxKind.PlusPlusToken ? ts.SyntaxKind.MinusToken : ts.SyntaxKind.PlusToken;
        if (ts.isIdentifier(t) && mine(t.text)) {
          const id = f.createIdentifier(t.text);
          const asg = f.createParenthesizedExpression(f.createAssignment(id, call("$$set", str(t.text), id, f.createBinaryExpression(id, tok, f.createNumericLiteral(1)))));
          return ts.isPrefixUnaryExpression(node) ? asg : f.createParenthesizedExpression(f.createBinaryExpression(asg, back, f.createNumericLiteral(1)));
        }
        const n = root(t);
        const v = ts.visitEachChild(node, visit, ctx);
        return n && mine(n) ? call("$$touch", str(n), v) : v;
      }
      return ts.visitEachChild(node, visit, ctx);
    };
    return ts.visitNode(rootNode, visit);
  };
  const printer = ts.createPrinter();
  const out = ts.transform(sf, [transformer]).transformed[0];
  const names = [...state];
  const reads = (node) => {
    // variables a reactive statement depends on: those it mentions other than as the target of an assignment
    const deps = new Set(), targets = new Set();
    const go = (n) => {
      if (ts.isBinaryExpression(n) && n.operatorToken.kind === ts.SyntaxKind.EqualsToken && ts.isIdentifier(n.left)) { targets.add(n.left.text); go(n.right); return; }
      if (ts.isPropertyAccessExpression(n)) { go(n.expression); return; }
      if (ts.isPropertyAssignment(n)) { go(n.initializer); return; }
      if (ts.isIdentifier(n) && state.has(n.text)) deps.add(n.text);
      ts.forEachChild(n, go);
    };
    go(node);
    return { deps: [...deps], targets: [...targets] };
  };
  const text = (n) => printer.printNode(ts.EmitHint.Unspecified, n, out);
  let js = body.map(text).join("\n") + "\n";
  sf.statements.forEach((orig, k) => {
    const st = out.statements[k];
    if (ts.isImportDeclaration(orig)) { imports.push(orig.getText()); return; }
    if (ts.isLabeledStatement(orig) && orig.label.text === "$") {
      const { deps, targets } = reads(orig.statement);
      reactive.push({ deps, targets, code: text(st.statement) });
      return;
    }
    js += text(st) + "\n";
  });
  // order of Svelte: a statement after those that assign what it reads
  const order = [];
  const seen = new Set();
  const place = (r) => {
    if (seen.has(r)) return;
    seen.add(r);
    for (const q of reactive) if (q !== r && q.targets.some((t) => r.deps.includes(t))) place(q);
    order.push(r);
  };
  reactive.forEach(place);
  const acc = accessors.map((a) => JSON.stringify(a.key) + ": " + a.code).join(",\n");
  // assignments in accessors (handlers written in the markup) are invalidations too
  const accSrc = "const $$acc = {\n" + acc + "\n};";
  const accFile = ts.createSourceFile("acc.ts", accSrc, ts.ScriptTarget.ES2022, true);
  const accOut = ts.transform(accFile, [transformer]).transformed[0];
  return imports.join("\n") + `
export function create($$env: any): any {
const $$dirty = new Set<string>();
let $$scheduled = false;
let $$started = false;
const $$differ = (a: any, b: any) => a != a ? b == b : a !== b || (a !== null && typeof a === "object") || typeof a === "function";
function $$mark(n: string) { $$dirty.add(n); if (!$$scheduled && $$started) { $$scheduled = true; Promise.resolve().then($$flush); } }
function $$set(n: string, old: any, v: any): any { if ($$differ(old, v)) $$mark(n); return v; }
function $$touch(n: string, v: any): any { $$mark(n); return v; }
function $$flush() {
  for (let round = 0; round < 50; round++) {
    const d = new Set($$dirty); $$dirty.clear();
    if (d.size === 0) break;
    for (const r of $$reactive) {
      for (const n of $$dirty) d.add(n);
      if (r.deps.some((n: string) => d.has(n))) { for (const n of r.deps) if ($$dirty.has(n)) $$dirty.delete(n); r.run(); }
    }
  }
  $$scheduled = false;
  if ($$dirty.size) $$mark([...$$dirty][0]);
}
${js}
const $$reactive: any[] = [${order.map((r) => `{deps: ${JSON.stringify(r.deps)}, run: () => { ${r.code} }}`).join(",\n")}];
for (const r of $$reactive) r.run();
$$dirty.clear();
$$started = true;
${printer.printFile(accOut)}
return { acc: $$acc, names: ${JSON.stringify(names)} };
}
`;
}

function readPage() {
  const text = fs.readFileSync(path.join(SRC, "App.svelte"), "utf8");
  const scripts = [...text.matchAll(/<script([^>]*)>([\s\S]*?)<\/script>/g)];
  const script = scripts.filter((m) => !/context=|module/.test(m[1])).map((m) => m[2]).join("\n");
  const module_ = scripts.filter((m) => /context=|module/.test(m[1])).map((m) => m[2]).join("\n");
  let markup = text;
  for (const m of scripts) markup = markup.replace(m[0], "");
  markup = markup.replace(/<style[\s\S]*?<\/style>/g, "");
  const els = parseMarkup(markup);
  const acc = [];
  const controls = {};
  const parts = {};
  const props = (el) => Object.entries(el.attrs).filter(([k]) => /^[a-zA-Z]\w*$/.test(k) && !/^on[a-z]/.test(k) && k !== "slot")
    .map(([k, v]) => k + ": " + (v.e !== undefined ? "(" + v.e + ")" : JSON.stringify(v.s))).join(", ");
  const cond = (el) => el.blocks.filter((b) => b.k === "if").map((b) => "(" + b.e + ")").join(" && ") || "true";
  const handler = (el, ev) => (el.attrs["on:" + ev] || el.attrs["on" + ev] || {}).e;
  const need = {};
  for (const el of els) {
    const bind = el.attrs["bind:value"] || el.attrs["bind:checked"] || (el.attrs.value && el.attrs.value.e && { e: el.attrs.value.e, s: undefined });
    const id = el.attrs.id && el.attrs.id.s;
    if (bind && id && (el.attrs["bind:value"] || el.attrs["bind:checked"])) {
      const v = bind.e || "value";
      acc.push({ key: "get:" + id, code: "() => (" + v + ")" });
      acc.push({ key: "set:" + id, code: "($$v: any) => { " + v + " = $$v; }" });
      acc.push({ key: "if:" + id, code: "() => !!(" + cond(el) + ")" });
      if (el.attrs.options && el.attrs.options.e) acc.push({ key: "options:" + id, code: "() => (" + el.attrs.options.e + ")" });
      controls[id] = true;
      const bound = el.attrs["bind:value"] ? "value" : "checked";
      if (/^[A-Z]/.test(el.tag)) {
        acc.push({ key: "props:" + id, code: "() => ({ " + props(el) + " })" });
        parts[id] = { tag: el.tag, bound };
      }
    }
    if (el.tag === "FileInputButton" && handler(el, "change")) { acc.push({ key: "pick", code: "($$e: any) => (" + handler(el, "change") + ")($$e)" }); need.pick = 1; }
    if (handler(el, "click") && /clear/i.test(el.text) && el.blocks.some((b) => b.k === "if")) {
      acc.push({ key: "clear", code: "($$e: any) => (" + handler(el, "click") + ")($$e)" });
      acc.push({ key: "overlay", code: "() => !!(" + cond(el) + ")" });
      need.clear = 1;
    }
    if (handler(el, "click") && /copy/i.test(el.text)) acc.push({ key: "copy", code: "($$e: any) => (" + handler(el, "click") + ")($$e)" });
    if (handler(el, "click") && /format json/i.test(el.text)) { acc.push({ key: "format", code: "($$e: any) => (" + handler(el, "click") + ")($$e)" }); need.format = 1; }
    const each = el.blocks.find((b) => b.k === "each");
    if (el.tag === "a" && each && handler(el, "click")) {
      acc.push({ key: "examples", code: "() => (" + each.list + ")" });
      acc.push({ key: "example", code: "(" + each.v + ": any, $$e: any) => (" + handler(el, "click") + ")($$e)" });
      need.example = 1;
    }
    if (el.tag === "HighlightedCode") { acc.push({ key: "display", code: "() => (" + el.attrs.code.e + ")" }); need.display = 1;
      acc.push({ key: "props:display", code: "() => ({ " + props(el) + " })" }); parts.display = { tag: el.tag }; }
    if (el.tag === "Spinner") { acc.push({ key: "spinner", code: "() => !!(" + cond(el) + ")" }); need.spinner = 1; }
    if (el.attrs.download && el.attrs.href) { acc.push({ key: "download", code: "() => ({ href: (" + el.attrs.href.e + "), name: (" + el.attrs.download.e + ") })" }); }
  }
  for (const k of ["pick", "clear", "format", "example", "display", "spinner"]) if (!need[k]) throw new Error("page not understood: no " + k);
  for (const k of ["input", "typename", "outputmode", "inputmode"]) if (!controls[k]) throw new Error("page not understood: no control " + k);
  for (const k of Object.keys(parts)) {
    const m = new RegExp("import\\s+" + parts[k].tag + "\\s+from\\s+[\"']([^\"']+\\.svelte)[\"']").exec(script);
    if (m) parts[k].file = path.join(SRC, m[1]); else delete parts[k];
  }
  return { code: module_ + "\n" + compileScript(script, acc), controls: Object.keys(controls), parts };
}

// A component the page is made of: what is bound to the element of the browser, or the HTML it shows. A component written in a way
// that is not understood here is taken to hand on its value as it is.
async function readPart(part, display) {
  try {
    const text = fs.readFileSync(part.file, "utf8");
    const scripts = [...text.matchAll(/<script([^>]*)>([\s\S]*?)<\/script>/g)];
    if (scripts.length > 1 || scripts.some((m) => /context=|module/.test(m[1]))) return null;
    let script = scripts.length ? scripts[0][2] : "";
    let markup = text;
    for (const m of scripts) markup = markup.replace(m[0], "");
    markup = markup.replace(/<style[\s\S]*?<\/style>/g, "");
    // properties: exported variables
    const sf = ts.createSourceFile("part.ts", script, ts.ScriptTarget.ES2022, true);
    const names = [];
    for (const st of sf.statements.slice().reverse()) {
      if (!ts.isVariableStatement(st) || !(st.modifiers || []).some((m) => m.kind === ts.SyntaxKind.ExportKeyword)) continue;
      const ds = st.declarationList.declarations;
      let code = "";
      for (const d of ds) {
        names.push(d.name.text);
        code += "let " + d.name.text + ": any = ($$env.props." + d.name.text + " !== undefined ? $$env.props." + d.name.text + " : (" + (d.initializer ? d.initializer.getText() : "undefined") + "));\n";
      }
      script = script.slice(0, st.getStart()) + code + script.slice(st.end);
    }
    const acc = names.map((n) => ({ key: "prop:" + n, code: "($$v: any) => { " + n + " = $$v; }" }));
    if (display) {
      if (/\{#await/.test(markup) || !names.includes("code")) return null;
      const m = [...markup.matchAll(/\{@html\s+([^{}]*)\}/g)];
      if (m.length !== 1) return null;
      acc.push({ key: "html", code: "() => (" + m[0][1] + ")" });
    } else {
      const els = parseMarkup(markup).filter((el) => /^(input|select|textarea)$/.test(el.tag));
      if (els.length !== 1 || !names.includes(part.bound)) return null;
      const b = els[0].attrs["bind:value"] || els[0].attrs["bind:checked"] || (/[{]bind:value[}]/.test(markup) ? null : undefined);
      if (!b) return null;
      const v = b.e || (els[0].attrs["bind:value"] ? "value" : "checked");
      acc.push({ key: "get", code: "() => (" + v + ")" });
      acc.push({ key: "set", code: "($$v: any) => { " + v + " = $$v; }" });
      acc.push({ key: "bound", code: "() => (" + part.bound + ")" });
    }
    const js = await bundle(compileScript(script, acc), "part", path.dirname(part.file));
    return new Function(...PAGE_GLOBALS, "$$shiki", js + "\nreturn __m;");
  } catch (e) { if (process.env.VERIF_DEBUG) process.stderr.write(String(e && e.stack || e) + "\n"); return null; }
}

function bundle(contents, name, dir) {
  const r = esbuild.buildSync; // plugins need the asynchronous interface
  void r;
  return esbuild.build({
    stdin: { contents, resolveDir: dir ? dir : name === "worker" ? path.join(SRC, "lib") : SRC, loader: "ts", sourcefile: name + ".ts" },
    bundle: true, write: false, format: "iife", globalName: "__m", platform: "browser", target: "es2022", logLevel: "silent",
    define: { "import.meta.url": '"http://page/"' },
    tsconfigRaw: { compilerOptions: { verbatimModuleSyntax: false } },
    plugins: [{
      name: "stubs", setup(b) {
        b.onResolve({ filter: /\.svelte$/ }, (a) => ({ path: a.path, namespace: "svelte" }));
        b.onLoad({ filter: /.*/, namespace: "svelte" }, () => ({ contents: "export default {};", loader: "js" }));
        b.onResolve({ filter: /^json_typegen_wasm/ }, (a) => ({ path: a.path, namespace: "wasm" }));
        b.onLoad({ filter: /.*/, namespace: "wasm" }, () => ({ contents: "export default $$wasm.init; export const run = $$wasm.run; export const initSync = () => {};", loader: "js" }));
        b.onResolve({ filter: /^shiki(\/.*)?$/ }, (a) => ({ path: a.path, namespace: "shiki" }));
        b.onLoad({ filter: /.*/, namespace: "shiki" }, () => ({ contents: "export const createHighlighter = $$shiki.createHighlighter; export const getHighlighter = $$shiki.createHighlighter; export const codeToHtml = $$shiki.codeToHtml;", loader: "js" }));
        b.onResolve({ filter: /^svelte$/ }, (a) => ({ path: a.path, namespace: "life" }));
        b.onLoad({ filter: /.*/, namespace: "life" }, () => ({ contents: "export const onMount = (f) => { Promise.resolve().then(f); }; export const onDestroy = () => {}; export const afterUpdate = () => {}; " +
          "export const beforeUpdate = () => {}; export const tick = () => Promise.resolve(); export const createEventDispatcher = () => () => true;", loader: "js" }));
        b.onResolve({ filter: /\.css$/ }, (a) => ({ path: a.path, namespace: "svelte" }));
        b.onLoad({ filter: /\.json$/ }, (a) => ({ contents: process.env.VERIF_EXAMPLES ? fs.readFileSync(a.path, "utf8") : JSON.stringify({ example: path.basename(a.path) }), loader: "json" }));
      },
    }],
  }).then((x) => x.outputFiles[0].text);
}

// ------------------------------------------------------------------ one run
const PAGE_GLOBALS = ["Worker", "localStorage", "FileReader", "navigator", "URL", "Blob", "console", "window", "document", "location", "setTimeout", "clearTimeout", "alert", "self", "globalThis"];
const WORKER_GLOBALS = ["$$wasm", "postMessage", "FileReader", "console", "setTimeout", "clearTimeout", "self", "globalThis", "addEventListener"];
const tick = () => new Promise((r) => setImmediate(r));

// escapes of the options that JSON does not have
const asJson = (t) => typeof t !== "string" ? t : t.replace(/\\(?:u\{([0-9a-fA-F_]+)\}|x([0-9a-fA-F]{2})|[^])/g, (m, u, x) => (u || x ? JSON.stringify(String.fromCodePoint(parseInt((u || x).replace(/_/g, ""), 16))).slice(1, -1) : m === "\\0" ? "\\u0000" : m === "\\'" ? "'" : m));

let PARTS = {};
const HL = "<pre class=\"shiki\">";

function makeWorld(pageFn, workerFn, job, store) {
  const W = { toW: [], toP: [], preads: [], wreads: [], thrown: [], gens: 0, answers: 0, wasm: null, timers: [], copied: [] };
  const quiet = { log() {}, warn() {}, error() {}, info() {}, debug() {} };
  const guard = (what, fn) => { try { return fn(); } catch (e) { W.thrown.push(what + ": " + (e && e.message || e)); return undefined; } };
  const readerFor = (queue, who) => class {
    constructor() { this.onload = null; this.onerror = null; this.onloadend = null; this.onabort = null; this.result = null; this.error = null; this.listeners = {}; }
    addEventListener(t, f) { (this.listeners[t] = this.listeners[t] || []).push(f); }
    fire(t) {
      const ev = { target: this, type: t };
      if (this["on" + t]) guard(who + " reader", () => this["on" + t](ev));
      for (const f of this.listeners[t] || []) guard(who + " reader", () => f(ev));
    }
    readAsText(file) {
      queue.push({ file, done: (ok) => {
        if (ok) { this.result = file.content; this.fire("load"); } else { this.error = new Error("NotReadableError"); this.fire("error"); }
        this.fire("loadend");
      } });
    }
    readAsArrayBuffer(file) {
      queue.push({ file, done: (ok) => {
        if (ok) { this.result = new TextEncoder().encode(file.content).buffer; this.fire("load"); } else { this.error = new Error("NotReadableError"); this.fire("error"); }
        this.fire("loadend");
      } });
    }
    abort() {}
  };
  const fileFor = (f, queue) => ({
    name: f.name, size: f.size, type: "application/json", content: f.content, unreadable: f.content === null, id: f.id,
    text() { return new Promise((res, rej) => queue.push({ file: this, done: (ok) => (ok ? res(f.content) : rej(new Error("NotReadableError"))) })); },
    arrayBuffer() { return new Promise((res, rej) => queue.push({ file: this, done: (ok) => (ok ? res(new TextEncoder().encode(f.content).buffer) : rej(new Error("NotReadableError"))) })); },
  });
  const clone = (m, toWorker) => {
    const go = (v) => {
      if (v && typeof v === "object" && "unreadable" in v) return fileFor({ name: v.name, size: v.size, content: v.content, id: v.id }, toWorker ? W.wreads : W.preads);
      if (Array.isArray(v)) return v.map(go);
      if (typeof v === "function") throw new Error("DataCloneError");
      if (v && typeof v === "object") return Object.fromEntries(Object.entries(v).map(([k, x]) => [k, go(x)]));
      return v;
    };
    return go(m);
  };
  const timer = (fn) => { W.timers.push(fn); return W.timers.length; };
  // worker
  const winit = {};
  winit.promise = new Promise((res, rej) => { winit.res = res; winit.rej = rej; });
  winit.promise.catch(() => {});
  const wglobal = {
    $$wasm: {
      init: () => winit.promise,
      run: (name, input, options) => {
        if (W.wasm !== "ok") throw new Error("wasm is not ready");
        W.gens++;
        if (input.includes("boom")) throw new Error("unreachable");
        return "\n" + JSON.stringify({ name, input, options: JSON.parse(asJson(options)), raw: options }) + "\n\n";
      },
    },
    postMessage: (m) => { W.toP.push(clone(m, false)); },
    FileReader: readerFor(W.wreads, "worker"),
    console: quiet, setTimeout: timer, clearTimeout() {},
    onmessage: null, listeners: [],
    addEventListener: (t, f) => { if (t === "message") wglobal.listeners.push(f); },
  };
  wglobal.self = wglobal;
  wglobal.globalThis = wglobal;
  // page
  const blobs = {};
  let blobId = 0;
  let theWorker = null;
  class PageWorker {
    constructor() { this.onmessage = null; this.onerror = null; this.listeners = []; theWorker = this; }
    postMessage(m) { W.toW.push(clone(m, true)); }
    addEventListener(t, f) { if (t === "message") this.listeners.push(f); }
  }
  class PageURL { constructor(a) { this.href = String(a); } static createObjectURL(b) { const u = "blob:" + ++blobId; blobs[u] = b; return u; } static revokeObjectURL(u) { delete blobs[u]; } }
  const pglobal = {
    Worker: PageWorker,
    localStorage: {
      setItem(k, v) { if (job.storage === "full") throw new Error("QuotaExceededError"); store[k] = String(v); },
      getItem(k) { if (job.storage === "blocked") throw new Error("SecurityError"); return k in store ? store[k] : null; },
      removeItem(k) { delete store[k]; },
    },
    FileReader: readerFor(W.preads, "page"), navigator: { clipboard: { writeText(t) { W.copied.push(String(t)); return Promise.resolve(); } } },
    URL: PageURL, Blob: class { constructor(parts) { this.text_ = parts.join(""); } }, console: quiet, setTimeout: timer, clearTimeout() {}, alert() {},
    document: { getElementById: () => null, addEventListener() {} }, location: { hash: "", search: "", href: "http://page/" }, addEventListener() {},
  };
  pglobal.window = pglobal; pglobal.self = pglobal; pglobal.globalThis = pglobal;
  guard("worker start", () => workerFn(wglobal));
  const page = guard("page start", () => pageFn(...PAGE_GLOBALS.map((g) => pglobal[g])).create({}));
  Object.assign(W, { page, winit, wglobal, blobs, fileFor });
  // the components of the page: each is handed the values of the page, and hands on what is entered
  const hl = (code, o, langs) => {
    const lang = o && o.lang;
    if (typeof code !== "string") throw new Error("code is not a string");
    if (![...langs, "plaintext", "text", "txt", "plain", "ansi"].includes(lang)) throw new Error("Language `" + lang + "` not found, you may need to load it first");
    return HL + code;
  };
  const shiki = {
    createHighlighter: (o) => new Promise((res) => W.timers.push(() => res({ codeToHtml: (code, x) => hl(code, x, (o && o.langs) || []) }))),
    codeToHtml: (code, o) => new Promise((res) => W.timers.push(() => res(hl(code, o, ["rust", "typescript", "kotlin", "python", "json"])))),
  };
  const live = {};
  const same = (a, b) => a === b || (a && typeof a === "object" && JSON.stringify(a) === JSON.stringify(b));
  const push = (id) => { const c = live[id]; const v = c.acc.bound(); if (page && !Object.is(v, page.acc["get:" + id]())) page.acc["set:" + id](v); };
  const pull = () => {
    let moved = false;
    for (const id of Object.keys(PARTS)) {
      const part = PARTS[id];
      if (part.lost) continue;
      try {
        if (id !== "display" && !page.acc["if:" + id]()) { delete live[id]; continue; }
        const props = page.acc["props:" + id]();
        if (id !== "display") props[part.bound] = page.acc["get:" + id]();
        if (!live[id]) {
          live[id] = { acc: part.fn(...PAGE_GLOBALS.map((g) => pglobal[g]), shiki).create({ props }).acc, props };
          moved = true;
        } else for (const k of Object.keys(props)) {
          if (live[id].acc["prop:" + k] && !same(props[k], live[id].props[k])) { live[id].acc["prop:" + k](props[k]); moved = true; }
        }
        live[id].props = props;
        if (id !== "display") { const before = page.acc["get:" + id](); push(id); const after = page.acc["get:" + id](); if (!Object.is(before, after)) { live[id].props[part.bound] = after; moved = true; } }
      } catch (e) { part.lost = true; delete live[id]; }
    }
    return moved;
  };
  W.sync = async () => { if (!page) return; for (let n = 0; n < 10 && pull(); n++) await tick(); };
  W.get = (id) => (live[id] ? live[id].acc.get() : page.acc["get:" + id]());
  W.set = (id, v) => { if (live[id]) { live[id].acc.set(v); push(id); live[id].props[PARTS[id].bound] = page.acc["get:" + id](); } else page.acc["set:" + id](v); };
  W.display = () => {
    const text = page.acc.display();
    if (!live.display) return text;
    const html = live.display.acc.html();
    return html === "" && text === "" ? "" : typeof html === "string" && html.startsWith(HL) ? html.slice(HL.length) : "not highlighted: " + html;
  };
  W.deliverToWorker = () => {
    const m = W.toW.shift();
    const ev = { data: m };
    if (wglobal.onmessage) guard("worker message", () => wglobal.onmessage(ev));
    for (const f of wglobal.listeners) guard("worker message", () => f(ev));
  };
  W.deliverToPage = () => {
    const m = W.toP.shift();
    const ev = { data: m };
    if (theWorker && theWorker.onmessage) guard("page message", () => theWorker.onmessage(ev));
    for (const f of (theWorker ? theWorker.listeners : [])) guard("page message", () => f(ev));
  };
  return W;
}

function rnd(seed) {
  let x = (seed * 2654435761 + 12345) >>> 0;
  return (n) => { x ^= x << 13; x >>>= 0; x ^= x >>> 17; x ^= x << 5; x >>>= 0; return x % n; };
}

class Broken extends Error { constructor(thrown) { super("page does not start"); this.thrown = thrown; } }

async function play(pageFn, workerFn, controls, job) {
  const store = {};
  // what an earlier visit has left, under the name the page uses for it
  if (job.stored) store.json_typegen_params = JSON.stringify(job.stored);
  if (job.junk !== undefined) store.json_typegen_params = job.junk;
  let W = makeWorld(pageFn, workerFn, job, store);
  if (!W.page) return { broken: W.thrown };
  let acc = W.page.acc;
  const done = [];
  await tick();
  await W.sync();
  const enabled = () => {
    const e = [];
    if (W.toW.length) e.push(["w"]);
    if (W.toP.length) e.push(["p"]);
    W.preads.forEach((_, i) => e.push(["pr", i + 1]));
    W.wreads.forEach((_, i) => e.push(["wr", i + 1]));
    if (W.wasm === null) e.push(["init", job.wasm || "ok"]);
    W.timers.forEach((_, i) => e.push(["timer", i]));
    return e;
  };
  let steps = 0;
  const controlsNow = () => { const s = {}; for (const c of controls) if (c !== "input") s[c] = W.get(c); return s; };
  const step = async (s) => {
    const guard = (fn) => { try { return fn(); } catch (e) { W.thrown.push(s[0] + ": " + (e && e.message || e)); } };
    switch (s[0]) {
      case "w": if (W.toW.length) W.deliverToWorker(); break;
      case "p": if (W.toP.length) W.deliverToPage(); break;
      case "pr": case "wr": {
        const q = s[0] === "pr" ? W.preads : W.wreads;
        const k = Number(s[1]) - 1;
        if (q[k]) { const r = q.splice(k, 1)[0]; r.done(!r.file.unreadable); }
        break;
      }
      case "init":
        if (W.wasm === null) { W.wasm = s[1] === "fail" ? "failed" : "ok"; if (W.wasm === "ok") W.winit.res({}); else W.winit.rej(new Error("no wasm")); }
        break;
      case "timer": { const f = W.timers.splice(s[1], 1)[0]; if (f) guard(f); break; }
      case "type":
        // the text is hidden while a large file is shown
        if (acc.overlay() || !acc["if:input"]() || W.get("input") === s[1]) break;
        guard(() => W.set("input", s[1]));
        done.push({ a: "type", v: s[1] });
        break;
      case "format": {
        // formats the text; not judged while a file is being read or shown
        if (acc.overlay() || W.preads.length) break;
        const before = acc["get:input"]();
        guard(() => acc.format({}));
        const after = acc["get:input"]();
        if (after !== before) done.push({ a: "type", v: after });
        break;
      }
      case "example": {
        const list = acc.examples();
        const ex = list[s[1] ? s[1] % list.length : 0];
        guard(() => acc.example(ex, { preventDefault() {} }));
        done.push({ a: "example", v: ex.json, s: { typename: ex.typeName, propertynameformat: ex.propertyNameFormat || "" } });
        break;
      }
      case "pick": {
        const f = job.files[s[1]];
        const file = W.fileFor(f, W.preads);
        guard(() => acc.pick({ target: { files: [file] }, currentTarget: { files: [file] }, preventDefault() {} }));
        done.push({ a: "pick", v: f.content === null ? "" : f.content, ok: f.content !== null, small: f.size <= 500000 });
        break;
      }
      case "reload": case "forget": {
        // the page is left and opened again; not while a file is being read into it
        if (W.preads.length || job.storage) break;
        while (W.timers.length) { guard(W.timers.shift()); await tick(); }
        if (s[0] === "forget") for (const k of Object.keys(store)) { if (s[1] === null) delete store[k]; else store[k] = s[1]; }
        W = makeWorld(pageFn, workerFn, job, store);
        if (!W.page) throw new Broken(W.thrown);
        acc = W.page.acc;
        await tick();
        await W.sync();
        done.push({ a: s[0], s: controlsNow(), text: W.get("input") });
        break;
      }
      case "nopick": guard(() => acc.pick({ target: { files: [] }, currentTarget: { files: [] }, preventDefault() {} })); break;
      case "clear":
        if (!acc.overlay()) break;
        guard(() => acc.clear({}));
        done.push({ a: "clear" });
        break;
      case "set":
        if (!acc["set:" + s[1]] || !acc["if:" + s[1]]()) break;
        guard(() => W.set(s[1], s[2]));
        done.push({ a: "set", s: { [s[1]]: s[2] } });
        break;
    }
    await tick();
    await W.sync();
    steps++;
  };
  const settings0 = controlsNow();
  const input0 = W.get("input");
  const settle = async (r) => {
    for (let n = 0; n < 3000; n++) {
      const e = enabled();
      if (!e.length) return true;
      await step(r ? e[r(e.length)] : e[0]);
    }
    return false;
  };
  const look = () => {
    const shown = String(W.display() ?? "");
    let o;
    try { o = JSON.parse(shown); } catch (e) { o = null; }
    let down = true;
    if (acc.download) {
      const d = acc.download();
      const b = W.blobs[d.href];
      down = !!b && b.text_ === shown;
    }
    let copied = null;
    if (job.copy && acc.copy) { W.copied.length = 0; try { acc.copy({}); } catch (e) { W.thrown.push("copy: " + e); } copied = W.copied.length === 1 && W.copied[0] === shown; }
    return {
      copied, obs: o && typeof o === "object" && "input" in o ? { a: "types", v: o.input, name: o.name, options: o.options, raw: o.raw } : { a: shown.trim() === "" ? "nothing" : "error", text: shown.slice(0, 200) },
      spinner: acc.spinner(), overlay: acc.overlay(), download: down, wasm: W.wasm,
      download_name: acc.download ? acc.download().name : "",
    };
  };
  const r = rnd(job.seed || 1);
  for (const s of job.steps) await step(s);
  const looks = [];
  let settled = await settle(job.seed ? r : null);
  looks.push(Object.assign(look(), { acts: done.length, settled }));
  // the page goes on taking requests
  for (const s of job.probe || []) {
    await step(s);
    settled = await settle(r);
    looks.push(Object.assign(look(), { acts: done.length, settled }));
  }
  const offers = {};
  if (job.offers) for (const k of Object.keys(acc)) if (k.startsWith("options:")) offers[k.slice(8)] = acc[k]().map((x) => (Array.isArray(x) ? x[0] : x && typeof x === "object" ? x.value : x));
  const shownNow = {};
  for (const c of controls) shownNow[c] = !!acc["if:" + c]();
  return { shown: shownNow, now: controlsNow(), examples: job.offers ? acc.examples().length : 0, offers, acts: done, looks, settings0, input0, wasm: W.wasm, thrown: W.thrown.slice(0, 5), steps };
}

async function main() {
  const page = readPage();
  const pageJs = await bundle(page.code, "page");
  const workerJs = await bundle(fs.readFileSync(path.join(SRC, "lib/worker.ts"), "utf8"), "worker");
  const pageFn = new Function(...PAGE_GLOBALS, pageJs + "\nreturn __m;");
  // assignments to onmessage are assignments to the global object
  const workerFn = new Function("$$g", "with ($$g) {\n" + workerJs.replace(/^"use strict";/, "") + "\n}");
  for (const k of Object.keys(page.parts)) {
    const fn = await readPart(page.parts[k], k === "display");
    if (fn) PARTS[k] = Object.assign({ fn }, page.parts[k]);
  }
  if (process.env.VERIF_DEBUG) process.stderr.write("components: " + Object.keys(PARTS).join(" ") + "\n");
  process.on("unhandledRejection", () => {});
  const rl = readline.createInterface({ input: process.stdin });
  for await (const line of rl) {
    if (!line.trim()) continue;
    const job = JSON.parse(line);
    let out;
    try { out = await play(pageFn, workerFn, page.controls, job); } catch (e) { out = e instanceof Broken ? { broken: e.thrown } : { tool: String(e && e.stack || e) }; }
    process.stdout.write(JSON.stringify(out) + "\n");
  }
}
main().catch((e) => { process.stderr.write(String(e && e.stack || e) + "\n"); process.exit(3); });
