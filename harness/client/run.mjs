// node run.mjs REPO < scenarios.ndjson > observations.ndjson
// A scenario: {id, entry: "main"|"mermaid", param, steps: [...]}; answer: {id, obs: [after load, after each step ...]}
import { createRequire } from "module";
import { compile } from "./minisvelte.mjs";
import fs from "fs"; import path from "path"; import vm from "vm"; import readline from "readline";
const req = createRequire("/opt/veriftools/node/node_modules/");
const esbuild = req("esbuild");
const here = path.dirname(new URL(import.meta.url).pathname);
const repo = process.argv[2], src = path.join(repo, "client/src");
const stub = (f) => path.join(here, "stubs", f);
const STUB = { svelte: "svelte.js", "svelte/store": "store.js", "class-transformer": "class-transformer.js", apexcharts: "apexcharts.js", mermaid: "mermaid.js", "svelte-chota": "chota/index.js", "sql-formatter": "sql-formatter.js", "reflect-metadata": "empty.js", chota: "empty.js" };
const plugin = { name: "gr", setup(b) {
  b.onResolve({ filter: /.*/ }, (a) => {
    if (STUB[a.path]) return { path: stub(STUB[a.path]) };
    if (a.path.endsWith(".css")) return { path: stub("empty.js") };
    let p = null;
    if (a.path.startsWith("@/")) p = path.join(src, a.path.slice(2));
    else if (a.path.startsWith("/src/")) p = path.join(src, a.path.slice(5));
    else if (a.path.startsWith(".")) p = path.join(a.resolveDir, a.path);
    if (p) for (const e of ["", ".ts", ".js", ".svelte", "/index.ts"]) { if (fs.existsSync(p + e) && fs.statSync(p + e).isFile()) return { path: p + e }; if (p.endsWith(".js") && fs.existsSync(p.slice(0, -3) + ".ts")) return { path: p.slice(0, -3) + ".ts" }; }
  });
  b.onLoad({ filter: /\.svelte$/ }, (a) => ({ contents: compile(fs.readFileSync(a.path, "utf8"), path.basename(a.path, ".svelte")), loader: "ts", resolveDir: path.dirname(a.path) }));
} };
const bundles = {};
for (const [k, f] of [["main", "main.ts"], ["mermaid", "mermaid.ts"]]) {
  const r = await esbuild.build({ entryPoints: [path.join(src, f)], bundle: true, write: false, format: "iife", platform: "browser", logLevel: "error", plugins: [plugin],
    tsconfigRaw: { compilerOptions: { experimentalDecorators: true, target: "esnext", useDefineForClassFields: true, verbatimModuleSyntax: true } }, target: "esnext", nodePaths: [] });
  bundles[k] = new vm.Script(r.outputFiles[0].text, { filename: k + ".js" });
}
const runtime = new vm.Script(fs.readFileSync(path.join(here, "runtime.js"), "utf8"), { filename: "runtime.js" });
function page(sc) {
  const clip = [];
  const sb = { console: { log() {}, warn() {}, error() {}, info() {}, debug() {} }, URL, setTimeout: () => 0, clearTimeout() {}, queueMicrotask };
  sb.globalThis = sb; sb.window = sb; sb.location = { href: "http://localhost/report.html" };
  sb.navigator = { clipboard: { writeText: (t) => { clip.push(t); return Promise.resolve(); } } };
  sb.document = { getElementById: () => ({}), createElement: () => ({ style: {} }), body: {} };
  vm.createContext(sb);
  sb.__param = JSON.stringify(sc.param);
  vm.runInContext("window.grParam = JSON.parse(__param)", sb);
  runtime.runInContext(sb);
  const obs = []; let tip = null;
  const look = () => { sb.$$gr.flush(); sb.$$gr.clip = clip; const o = JSON.parse(vm.runInContext("JSON.stringify($$observe())", sb)); o.ret = tip; obs.push(o); };
  const fail = (e) => obs.push({ crash: String(e) });
  try { bundles[sc.entry].runInContext(sb); look(); } catch (e) { fail(e); return obs; }
  for (const s of sc.steps || []) {
    try { sb.__step = JSON.stringify(s); const r = vm.runInContext("(() => { const v = $$act(JSON.parse(__step)); return v === undefined ? null : v; })()", sb); tip = r; look(); tip = null; } catch (e) { fail(e); break; }
  }
  return obs;
}
for await (const line of readline.createInterface({ input: process.stdin })) {
  if (!line.trim()) continue;
  const sc = JSON.parse(line);
  process.stdout.write(JSON.stringify({ id: sc.id, obs: page(sc) }) + "\n");
}
