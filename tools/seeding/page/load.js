// Loads the page's TypeScript from the current directory's tree. What the compiled Rust side would give is put in its place.
"use strict";
const fs = require("fs"), path = require("path");
const ts = require("/opt/veriftools/node/node_modules/typescript");
const { make } = require("./dom.js");
const env = { box: () => ({ x: 0, y: 0, width: 0, height: 0 }), fontSize: () => 16, connected: () => true, plus: (a, b) => a + b, px: (a) => a + "px", html: () => null, pkg: {}, timers: [] };
const dom = make(env);
class Anything { constructor() { return new Proxy(this, { get: (t, k) => t[k] ?? (() => new Anything()) }); } }
const pkg = new Proxy({}, { get: (t, k) => (k in env.pkg ? env.pkg[k] : k === "__esModule" ? true : k === "default" ? () => undefined : (t[k] ??= new Proxy(Anything, { get: (c, n) => c[n] ?? (() => new Anything()) }))),
  ownKeys: () => Object.keys(env.pkg), getOwnPropertyDescriptor: (t, k) => (k in env.pkg ? { value: env.pkg[k], enumerable: true, configurable: true } : undefined) });
const globals = { ...dom, console: { log() {}, warn() {}, error() {} }, setTimeout: (f) => { env.timers.push(f); return 0; } };
globals.globalThis = globals.window = Object.assign(Object.create(globalThis), globals);
const cache = new Map();
function load(file) {
  file = path.resolve(file);
  if (cache.has(file)) return cache.get(file);
  const exports = {};
  cache.set(file, exports);
  const out = ts.transpileModule(fs.readFileSync(file, "utf8"), { fileName: file, compilerOptions: { module: ts.ModuleKind.CommonJS, target: ts.ScriptTarget.ES2022 } }).outputText;
  const js = out.replace(/^await /m, "void ").replace(/import\.meta/g, "({ env: { DEV: false } })");
  const need = (spec) => {
    if (/(^|\/)aftermath-core\/pkg$/.test(spec)) return pkg;
    if (/\.css(\?inline)?$/.test(spec)) return { default: "" };
    const p = path.resolve(path.dirname(file), spec);
    return load([p + ".ts", path.join(p, "index.ts"), p].find((c) => fs.existsSync(c) && fs.statSync(c).isFile()));
  };
  new Function("exports", "require", ...Object.keys(globals), js)(exports, need, ...Object.values(globals));
  return exports;
}
const el = (tag, ...kids) => { const e = dom.document.createElementNS("http://www.w3.org/1998/Math/MathML", tag); e.append(...kids); return e; };
function expect(got, want, what) {
  const [a, b] = [JSON.stringify(got), JSON.stringify(want)];
  if (a !== b) { console.error(what + ": got " + a + ", expected " + b); process.exit(1); }
}
/** A rendered element: what it stands for, its box, and its parts. */
const shown = (start, end, b, kids = [], rowIndex = null) => ({
  syntaxTree: { name: 0, range: { start, end }, children: kids.length && kids.every((k) => k.rowIndex) ? { NewRows: { values: kids.map((k) => k.syntaxTree), width: 1 } } : kids.length ? { Children: kids.map((k) => k.syntaxTree) } : { Leaf: { symbols: [] } } },
  rowIndex, getChildren: () => kids, getBounds: () => b, getElements: () => [], getCaretSize: () => 16,
  getCaretPosition: (o) => ({ x: b.x + (end === start ? 0 : ((o - start) / (end - start)) * b.width), y: b.y + b.height }),
});
module.exports = { env, dom, load, el, expect, shown, timers: () => { while (env.timers.length) env.timers.shift()(); } };
