// A small compiler for the Svelte 3 components of GravityR's client: there is no
// svelte package in this sandbox. A component becomes a module exporting
// {name, create(rt, props, slots)}; create returns {props, render()}. The
// template is evaluated anew after every event (see runtime.mjs), so the
// compiler does not have to track which part of it depends on what.
import { createRequire } from "module";
const req = createRequire("/opt/veriftools/node/node_modules/");
const acorn = req("acorn");
const ms0 = req("magic-string"); const MagicString = ms0.default || ms0.MagicString || ms0;
const esbuild = req("esbuild");
const OPT = { ecmaVersion: "latest", sourceType: "module", allowAwaitOutsideFunction: true };
const VOID = new Set(["area", "base", "br", "col", "embed", "hr", "img", "input", "link", "meta", "param", "source", "track", "wbr"]);

/* ------------------------------------------------------------ template parser */
function parseTemplate(src) {
  let i = 0;
  const fail = (m) => { throw new Error(`${m} at ${i}: ${src.slice(i, i + 60)}`); };
  const ws = () => { while (i < src.length && /\s/.test(src[i])) i++; };
  const eat = (s) => (src.startsWith(s, i) ? ((i += s.length), true) : false);
  const need = (s) => { if (!eat(s)) fail(`expected ${s}`); };
  const exprTo = () => { // an expression that may be wrapped in parentheses: take all up to the closing brace
    ws(); const s = i; let e = acorn.parseExpressionAt(src, i, OPT).end; i = e; ws();
    while (src[i] === ")") { i++; ws(); }
    return src.slice(s, i).trim(); };
  const pattern = (stops) => { // a binding pattern up to one of the stop characters at depth 0
    ws(); let d = 0; const s = i;
    for (; i < src.length; i++) {
      const c = src[i];
      if (d === 0 && (stops.includes(c) || c === "}")) break;
      if ("([{".includes(c)) d++; else if (")]}".includes(c)) d--;
    }
    return src.slice(s, i).trim(); };

  function block(ends) { // nodes until one of the end markers
    const out = [];
    while (i < src.length) {
      if (ends.some((e) => (e instanceof RegExp ? e.test(src.slice(i, i + 40)) : src.startsWith(e, i)))) return out;
      if (src.startsWith("<!--", i)) { const e = src.indexOf("-->", i); i = e < 0 ? src.length : e + 3; continue; }
      if (src[i] === "<" && /[a-zA-Z]/.test(src[i + 1] || "")) { out.push(element()); continue; }
      if (src[i] === "{") { const n = mustache(); if (n) out.push(n); continue; }
      const s = i; i++;
      while (i < src.length && src[i] !== "<" && src[i] !== "{") i++;
      out.push({ t: "text", v: src.slice(s, i) });
    }
    if (ends.length) fail(`unclosed, expected ${ends}`);
    return out;
  }
  const MID = [/^\{\s*[:/]/];
  function mustache() {
    need("{"); ws();
    if (eat("#if")) {
      const br = []; let c = exprTo(); need("}"); br.push([c, block(MID)]);
      for (;;) {
        need("{"); ws();
        if (eat("/if")) { ws(); need("}"); return { t: "if", br }; }
        need(":else"); ws();
        if (eat("if")) { c = exprTo(); need("}"); br.push([c, block(MID)]); }
        else { need("}"); br.push([null, block(MID)]); }
      }
    }
    if (eat("#each")) {
      const list = exprTo(); need("as"); const item = pattern([",", "("]); let idx = null, key = null, els = null;
      if (eat(",")) { idx = pattern(["("]); }
      ws(); if (eat("(")) { key = exprToParen(); }
      ws(); need("}"); const body = block(MID);
      need("{"); ws();
      if (eat(":else")) { ws(); need("}"); els = block(MID); need("{"); ws(); }
      need("/each"); ws(); need("}");
      return { t: "each", list, item, idx, key, body, els };
    }
    if (eat("#key")) { const e = exprTo(); need("}"); const body = block(MID); need("{"); ws(); need("/key"); ws(); need("}"); return { t: "if", br: [["((" + e + "), true)", body]] }; }
    if (eat("#await")) fail("await is not supported");
    if (eat("@html")) { const e = exprTo(); need("}"); return { t: "html", e }; }
    if (eat("@const")) { const l = pattern(["="]); need("="); const e = exprTo(); need("}"); return { t: "const", l, e }; }
    if (eat("@debug")) { while (src[i] !== "}") i++; i++; return null; }
    if (src[i] === "/" && src[i + 1] === "*") { i = src.indexOf("*/", i) + 2; ws(); if (eat("}")) return null; }
    const e = exprTo(); need("}");
    return { t: "expr", e };
  }
  function exprToParen() { ws(); const n = acorn.parseExpressionAt(src, i, OPT); i = n.end; ws(); need(")"); return src.slice(n.start, n.end); }
  function attrValue() { // after "=": parts of text and expressions
    const q = src[i] === '"' || src[i] === "'" ? src[i++] : null; const parts = []; let s = "";
    for (;;) {
      if (i >= src.length) fail("attribute");
      const c = src[i];
      if (q ? c === q : /[\s>]/.test(c) || (c === "/" && src[i + 1] === ">")) break;
      if (c === "{") { if (s) parts.push({ s }); s = ""; i++; const e = exprTo(); need("}"); parts.push({ e }); continue; }
      s += c; i++;
    }
    if (q) i++;
    if (s) parts.push({ s });
    return parts;
  }
  function element() {
    need("<"); const m = /^[a-zA-Z][\w:.-]*/.exec(src.slice(i)); const tag = m[0]; i += tag.length;
    const attrs = [];
    for (;;) {
      ws();
      if (eat("/>")) return { t: "el", tag, attrs, kids: [] };
      if (eat(">")) break;
      if (src[i] === "{") {
        i++; ws();
        if (eat("...")) { const e = exprTo(); need("}"); attrs.push({ n: "...", parts: [{ e }] }); }
        else if (src.startsWith("/*", i)) { i = src.indexOf("*/", i) + 2; ws(); need("}"); }
        else { const e = exprTo(); need("}"); attrs.push({ n: e, parts: [{ e }] }); }
        continue;
      }
      const nm = /^[^\s=>/"'{}]+/.exec(src.slice(i)); if (!nm) fail("attribute name");
      i += nm[0].length; let parts = null; const save = i; ws();
      if (eat("=")) { ws(); parts = attrValue(); } else i = save;
      attrs.push({ n: nm[0], parts });
    }
    if (VOID.has(tag)) return { t: "el", tag, attrs, kids: [] };
    if (tag === "textarea" || tag === "pre") { /* same grammar */ }
    const kids = block([new RegExp("^</" + tag.replace(/[.]/g, "\\.") + "\\s*>")]);
    need("</" + tag); ws(); need(">");
    return { t: "el", tag, attrs, kids };
  }
  return block([]);
}

/* --------------------------------------------------- stores: $name in any code */
function walk(n, f, parent = null, key = null) {
  if (!n || typeof n.type !== "string") return;
  if (f(n, parent, key) === false) return;
  for (const k of Object.keys(n)) {
    const v = n[k];
    if (Array.isArray(v)) v.forEach((x) => x && typeof x.type === "string" && walk(x, f, n, k));
    else if (v && typeof v.type === "string") walk(v, f, n, k);
  }
}
const isStore = (name) => /^\$[a-zA-Z_][\w$]*$/.test(name) && !name.startsWith("$$");
function rewriteStores(code, isExpr) {
  if (!code.includes("$")) return code;
  const src = isExpr ? "(" + code + "\n)" : code;
  const ast = isExpr ? acorn.parseExpressionAt(src, 0, OPT) : acorn.parse(src, { ...OPT, allowReturnOutsideFunction: true });
  const ms = new MagicString(src);
  const cb = (n, p, k) => {
    if (n.type === "AssignmentExpression" && n.left.type === "Identifier" && isStore(n.left.name)) {
      const nm = n.left.name.slice(1);
      ms.overwrite(n.left.start, n.right.start, "$$rt.set(" + nm + ", " + (n.operator === "=" ? "" : "$$rt.get(" + nm + ") " + n.operator.slice(0, -1) + " "));
      ms.appendLeft(n.end, ")");
      walk(n.right, cb, n, "right");
      return false;
    }
    if (n.type === "UpdateExpression" && n.argument.type === "Identifier" && isStore(n.argument.name)) {
      const nm = n.argument.name.slice(1);
      ms.overwrite(n.start, n.end, "$$rt.set(" + nm + ", $$rt.get(" + nm + ") " + n.operator[0] + " 1)");
      return false;
    }
    if (n.type === "Property" && n.shorthand && n.value.type === "Identifier" && isStore(n.value.name)) {
      ms.overwrite(n.start, n.end, n.value.name + ": $$rt.get(" + n.value.name.slice(1) + ")");
      return false;
    }
    if (n.type === "Identifier" && isStore(n.name)) {
      if (p && p.type === "MemberExpression" && k === "property" && !p.computed) return;
      if (p && p.type === "Property" && k === "key" && !p.computed) return;
      ms.overwrite(n.start, n.end, "$$rt.get(" + n.name.slice(1) + ")");
    }
  };
  walk(ast, cb);
  return isExpr ? ms.toString().slice(1, -2) : ms.toString();
}

/* ----------------------------------------------------------------- names */
function patNames(p, out = []) {
  if (!p) return out;
  if (p.type === "Identifier") out.push(p.name);
  else if (p.type === "ObjectPattern") p.properties.forEach((x) => patNames(x.type === "RestElement" ? x.argument : x.value, out));
  else if (p.type === "ArrayPattern") p.elements.forEach((x) => patNames(x, out));
  else if (p.type === "AssignmentPattern") patNames(p.left, out);
  else if (p.type === "RestElement") patNames(p.argument, out);
  return out;
}
function freeNames(node) { const s = new Set(); walk(node, (n, p, k) => { if (n.type === "Identifier" && !(p && p.type === "MemberExpression" && k === "property" && !p.computed) && !(p && p.type === "Property" && k === "key" && !p.computed && !p.shorthand)) s.add(n.name); }); return s; }

function stripTs(code) {
  return esbuild.transformSync(code, { loader: "ts", target: "esnext", tsconfigRaw: { compilerOptions: { verbatimModuleSyntax: true, experimentalDecorators: true, target: "esnext", useDefineForClassFields: true } } }).code;
}

/* -------------------------------------------------------------- the compiler */
export function compile(source, filename) {
  let module = "", script = "";
  let tpl = source.replace(/<!--[\s\S]*?-->/g, "").replace(/<script\b([^>]*)>([\s\S]*?)<\/script>/g, (_, a, c) => { if (/context\s*=\s*["']module["']/.test(a)) module += c; else script += c; return ""; })
    .replace(/<style\b[^>]*>[\s\S]*?<\/style>/g, "");
  const code = stripTs(script);
  const ast = acorn.parse(code, OPT);
  const imports = [], body = [], exported = [], reactive = [], declared = new Set(), hoisted = new Set();
  for (const n of ast.body) {
    const text = code.slice(n.start, n.end);
    if (n.type === "ImportDeclaration") { imports.push(text); n.specifiers.forEach((s) => hoisted.add(s.local.name)); continue; }
    if (n.type === "ExportNamedDeclaration") {
      if (n.declaration && n.declaration.type === "VariableDeclaration") {
        for (const d of n.declaration.declarations) {
          const nm = d.id.name; declared.add(nm);
          const init = d.init ? code.slice(d.init.start, d.init.end) : "undefined";
          if (n.declaration.kind === "const") { body.push(`const ${nm} = ${init};`); exported.push([nm, nm, true]); }
          else { body.push(`let ${nm} = $$rt.prop($$props, ${JSON.stringify(nm)}, () => (${init}));`); exported.push([nm, nm, false]); }
        }
      } else if (n.declaration) { declared.add(n.declaration.id.name); body.push(code.slice(n.declaration.start, n.declaration.end)); exported.push([n.declaration.id.name, n.declaration.id.name, true]); }
      else for (const s of n.specifiers) { exported.push([s.exported.name, s.local.name, false]); body.push(`${s.local.name} = $$rt.prop($$props, ${JSON.stringify(s.exported.name)}, () => ${s.local.name});`); }
      continue;
    }
    if (n.type === "LabeledStatement" && n.label.name === "$") { reactive.push(n); continue; }
    if (n.type === "VariableDeclaration") n.declarations.forEach((d) => patNames(d.id).forEach((x) => declared.add(x)));
    if ((n.type === "FunctionDeclaration" || n.type === "ClassDeclaration")) declared.add(n.id.name);
    body.push(text);
  }
  // $: x = e declares x
  const rx = reactive.map((n) => {
    const b = n.body; let assigned = [];
    if (b.type === "ExpressionStatement" && b.expression.type === "AssignmentExpression") {
      assigned = patNames(b.expression.left);
      assigned.filter((x) => !declared.has(x) && !hoisted.has(x) && !isStore(x)).forEach((x) => { declared.add(x); body.unshift(`let ${x};`); });
    } else walk(b, (m) => { if (m.type === "AssignmentExpression") assigned.push(...patNames(m.left)); });
    return { n, assigned: new Set(assigned), uses: null, text: code.slice(b.start, b.end) };
  });
  for (const r of rx) {
    const names = freeNames(r.n.body.type === "ExpressionStatement" && r.n.body.expression.type === "AssignmentExpression" ? r.n.body.expression.right : r.n.body);
    r.uses = [...names].filter((x) => (declared.has(x) && !(r.assigned.has(x) && r.n.body.type === "ExpressionStatement")) || isStore(x));
  }
  // in order of dependency
  const sorted = [], seen = new Set();
  const visit = (r) => { if (seen.has(r)) return; seen.add(r); rx.filter((o) => o !== r && r.uses.some((u) => o.assigned.has(u))).forEach(visit); sorted.push(r); };
  rx.forEach(visit);
  const esc = (s) => JSON.stringify(s);
  let uid = 0;
  const E = (e) => "(" + rewriteStores(e, true) + ")";
  const partsToValue = (parts) => parts === null ? "true" : parts.length === 0 ? '""' : parts.length === 1 && parts[0].e !== undefined ? E(parts[0].e)
    : "$$rt.cat(" + parts.map((p) => (p.e !== undefined ? E(p.e) : esc(decode(p.s)))).join(", ") + ")";
  const single = (parts, n) => (parts === null ? n : parts[0].e);
  function setter(e) { // assignable expression -> setter
    return `($$v) => { ${isStore(e.trim()) ? `$$rt.set(${e.trim().slice(1)}, $$v)` : `${rewriteStores(e, true)} = $$v`}; }`;
  }
  function nodes(ns, path) { return "[" + ns.map((n) => gen(n, path)).filter(Boolean).join(", ") + "]"; }
  // {@const}s and the nodes after them, as a function body
  function bodyFn(ns, path) {
    const consts = ns.filter((n) => n.t === "const").map((c) => `const ${c.l} = ${E(c.e)};`).join(" ");
    return `{ ${consts} return ${nodes(ns.filter((n) => n.t !== "const"), path)}; }`;
  }
  function gen(n, path) {
    const id = uid++;
    switch (n.t) {
      case "text": return `$$rt.text(${esc(decode(n.v))})`;
      case "expr": return `$$rt.dyn(${E(n.e)})`;
      case "html": return `$$rt.html(${E(n.e)})`;
      case "if": return `...$$rt.block(${n.br.map(([c, b]) => `${c === null ? "true" : E(c)} ? (() => ${bodyFn(b, path)})()`).join(" : ")} : [])`;
      case "each": {
        const k = `$$k${id}`;
        return `...$$rt.each(${E(n.list)}, (${n.item}, ${n.idx || `$$i${id}`}, ${k}) => { const $$p = $$P; { const $$P = $$p + "/" + ${id} + ":" + ${k}; ${bodyFn(n.body, path).slice(1, -1)} } }, ${n.key ? `(${n.item}, ${n.idx || "_"}) => ${E(n.key)}` : "null"}, () => ${n.els ? `(() => ${bodyFn(n.els, path)})()` : "[]"})`;
      }
      case "el": return element(n, id);
    }
    throw new Error("unknown node " + n.t);
  }
  function element(n, id) {
    const P = `$$P + "/${id}"`;
    if (n.tag === "slot") {
      const nm = n.attrs.find((a) => a.n === "name"); const props = n.attrs.filter((a) => a.n !== "name");
      return `...$$rt.slot($$slots, ${nm ? esc(nm.parts[0].s) : '"default"'}, {${props.map((a) => (a.n === "..." ? "..." + partsToValue(a.parts) : `${esc(a.n)}: ${partsToValue(a.parts)}`)).join(", ")}}, () => (() => ${bodyFn(n.kids, "")})(), ${P})`;
    }
    if (n.tag === "svelte:fragment") return `...((() => ${bodyFn(n.kids, "")})())`;
    if (n.tag === "svelte:head" || n.tag === "svelte:window" || n.tag === "svelte:body" || n.tag === "svelte:options") return "";
    const comp = /^[A-Z]/.test(n.tag) || n.tag.includes(".") || n.tag === "svelte:component" || n.tag === "svelte:self";
    const props = [], binds = [], on = [], cls = [], sty = [], lets = []; let slotName = null, ctor = n.tag, bindThis = null;
    for (const a of n.attrs) {
      const [head, ...mods] = a.n.split("|");
      if (a.n === "...") props.push("..." + partsToValue(a.parts));
      else if (head.startsWith("bind:")) { const t = head.slice(5); const e = single(a.parts, t); if (t === "this") bindThis = setter(e); else { props.push(`${esc(t)}: ${E(e)}`); binds.push(`${esc(t)}: ${setter(e)}`); } }
      else if (head.startsWith("on:")) on.push(`[${esc(head.slice(3))}, ${a.parts === null ? "null" : E(a.parts[0].e)}, ${esc(mods)}]`);
      else if (head.startsWith("class:")) cls.push(`[${esc(head.slice(6))}, ${a.parts === null ? head.slice(6) : partsToValue(a.parts)}]`);
      else if (head.startsWith("style:")) sty.push(`[${esc(head.slice(6))}, ${a.parts === null ? head.slice(6) : partsToValue(a.parts)}]`);
      else if (head.startsWith("let:")) lets.push(a.parts === null ? head.slice(4) : `${head.slice(4)}: ${a.parts[0].e}`);
      else if (/^(use|transition|in|out|animate):/.test(head)) continue;
      else if (head === "slot") slotName = a.parts[0].s;
      else if (head === "this" && n.tag === "svelte:component") ctor = partsToValue(a.parts);
      else props.push(`${esc(a.n)}: ${partsToValue(a.parts)}`);
    }
    n.slotName = slotName; n.lets = lets;
    if (!comp) {
      return `$$rt.el(${P}, ${esc(n.tag)}, {${props.join(", ")}}, {${binds.join(", ")}}, [${on.join(", ")}], [${cls.join(", ")}], [${sty.join(", ")}], ${bindThis || "null"}, (($$P) => ${bodyFn(n.kids, "")})(${P}), $$emit)`;
    }
    if (n.tag === "svelte:self") ctor = "$$component";
    // slots: children with slot= go to the named ones
    const groups = { default: [] };
    const lt = { default: lets };
    for (const k of n.kids) {
      const sa = k.t === "el" && k.attrs.find((a) => a.n === "slot");
      if (sa) { const nm = sa.parts[0].s; (groups[nm] ||= []).push(k); lt[nm] = [...lets, ...k.attrs.filter((a) => a.n.startsWith("let:")).map((a) => (a.parts === null ? a.n.slice(4) : `${a.n.slice(4)}: ${a.parts[0].e}`))]; }
      else groups.default.push(k);
    }
    if (!groups.default.some((k) => k.t !== "text" || k.v.trim())) delete groups.default;
    const slots = Object.keys(groups).map((g) => {
      return `${esc(g)}: ({${[...new Set(lt[g])].join(", ")}}, $$P) => ${bodyFn(groups[g], "")}`;
    });
    return `...$$rt.comp(${P}, ${ctor}, {${props.join(", ")}}, {${binds.join(", ")}}, [${on.join(", ")}], {${slots.join(", ")}}, ${bindThis || "null"}, $$emit)`;
  }
  const render = bodyFn(parseTemplate(tpl), "");
  const reactiveCode = sorted.map((r) => `{ deps: () => [${r.uses.map((u) => (isStore(u) ? `$$rt.get(${u.slice(1)})` : u)).join(", ")}], run: () => { $$block: { ${rewriteStores(r.text, false)} } } }`);
  const out = `
${imports.join("\n")}
${stripTs(module)}
const $$component = { name: ${esc(filename)}, create($$rt, $$props, $$slots, $$emit) {
${rewriteStores(body.join("\n"), false)}
return {
  get: { ${exported.map(([x, l]) => `${esc(x)}: () => ${l}`).join(", ")} },
  set: { ${exported.filter((x) => !x[2]).map(([x, l]) => `${esc(x)}: ($$v) => { ${l} = $$v; }`).join(", ")} },
  reactive: [${reactiveCode.join(",\n")}],
  render: ($$P, $$S) => { $$slots = $$S; const $$restProps = $$rt.rest(${JSON.stringify(exported.map((x) => x[0]))}); ${render.slice(1, -1)} },
};
} };
export default class { static $$c = $$component; constructor(o) { globalThis.$$mount($$component, o); } }
`;
  return out;
}
function decode(s) {
  return s.replace(/&(#x?[0-9a-fA-F]+|\w+);/g, (m, e) => {
    if (e[0] === "#") return String.fromCodePoint(e[1] === "x" ? parseInt(e.slice(2), 16) : parseInt(e.slice(1), 10));
    return { amp: "&", lt: "<", gt: ">", quot: '"', apos: "'", nbsp: "\u00a0", hellip: "…", middot: "·", bull: "•", times: "×", copy: "©" }[e] ?? m;
  });
}
