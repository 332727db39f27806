// node main.js list | explore <entry> <out> <seconds> <samples> | run   (cases "entry v,v,v" on standard input, on the plain code)
"use strict";
const { spawnSync } = require("child_process");
const fs = require("fs"), path = require("path");
const { loader } = require("./instrument.js");
const eng = require("./engine.js");
const { make } = require("./dom.js");

function world(plain, api, $) {
  const env = { box: () => { throw new Error("no layout"); }, fontSize: () => 16, connected: null,
    plus: (a, b) => (plain ? a + b : $.b("+", a, b)), px: (a) => (plain ? a + "px" : $.str(a, "px")) };
  env.trees = trees; if (process.env.DEBUG) env.debug = (x) => process.stderr.write(x + "\n");
  const dom = make(env);
  const quiet = { log() {}, warn() {}, error() {} };
  const g = Object.assign({}, dom, { Math: plain ? Math : eng.$Math, Array: plain ? Array : eng.$Array, Number: plain ? Number : eng.$Number, ...(plain ? {} : eng.$globals), isNaN: plain ? isNaN : (x) => !eng.isSym(x) && isNaN(x),
    console: quiet, setTimeout: (f) => { env.timers.push(f); return 0; }, $env: env, ...api });
  env.timers = [];
  g.globalThis = Object.assign(Object.create(globalThis), g);
  g.window = g.globalThis;
  Object.assign(env, rust());
  g.$pkg = stubPkg(env);
  g.plain = plain;
  return g;
}
/** [names with their ids, syntax trees of the rows], by the parser of /repo */
const known = new Map();
function trees(...rows) {
  const todo = rows.map((r) => JSON.stringify(r)).filter((r) => !known.has(r));
  if (todo.length || !known.has("")) {
    const r = spawnSync(process.env.TREES || "no-parser", [], { input: todo.map((x) => x + "\n").join(""), encoding: "utf8", maxBuffer: 1 << 28 });
    if (r.status !== 0) throw new eng.Abort("NOANSWER", "the parser failed: " + r.stderr);
    const out = r.stdout.split("\n");
    known.set("", out[0]);
    todo.forEach((x, i) => known.set(x, out[i + 1]));
  }
  return [JSON.parse(known.get("")), ...rows.map((r) => JSON.parse(known.get(JSON.stringify(r))))];
}
/** The compiled Rust side: objects that remember the calls that led to them, and a program that makes them (harness/page). */
function rust() {
  const base = [], done = new Map(), KEEP = 200000;
  const READS = ["get_caret", "get_input_tree", "get_syntax_tree"];
  const put = (calls, result, seen) => { if (done.size > KEEP) done.clear(); const x = { result, seen }; done.set(calls, x); return x; };
  /** The result of the last call, and what the editor says afterwards. */
  function run(calls, me) {
    const key = JSON.stringify(calls);
    if (done.has(key)) return done.get(key);
    const reads = me === undefined ? [] : [...READS.map((f) => [f, me]), ["copy", me, "JsonInputTree"]];
    const r = spawnSync(process.env.PAGE || "no-editor", [], { input: JSON.stringify(calls.concat(reads)) + "\n", encoding: "utf8", maxBuffer: 1 << 26 });
    if (r.status !== 0) throw new eng.Abort("NOANSWER", "the editor failed: " + (r.error || r.stderr));
    const out = JSON.parse(r.stdout), seen = new Map();
    reads.forEach((c, i) => seen.set(JSON.stringify(c), out[calls.length + i] ?? [null, "unreachable", true]));
    return put(key, out[calls.length - 1] ?? [null, "unreachable", true], seen);
  }
  const value = ([v, e, trap]) => { if (e !== undefined) { const x = trap ? new Error(e) : e; throw x; } return v ?? undefined; };
  class Handle { constructor(...call) { base.push(call); this.$id = base.length - 1; } }
  const id = (x) => { if (!(x instanceof Handle)) throw new TypeError("expected instance of another class"); return x.$id; };
  class ParseModulesBindings extends Handle {
    constructor() { super("ParseModulesBindings"); }
    get_built_in() { return new Handle("get_built_in", this.$id); }
    get_syntax_node_name_map() { const { result } = run([...base, ["get_syntax_node_name_map", this.$id]]); return value(result); }
  }
  class ParseModuleCollectionBindings extends Handle {
    constructor(m) { super("ParseModuleCollectionBindings", id(m)); }
    add_module(m) { base.push(["add_module", this.$id, id(m)]); }
  }
  class MathParserBindings extends Handle { constructor(c) { super("MathParserBindings", id(c)); } }
  const ParseModulesCreator = new Proxy({}, { get: (_, f) => (m) => new Handle(f, id(m)) });
  /** An editor; its calls do not become part of those of others. */
  class MathEditorBindings {
    constructor(p, from) { this.$me = from ? from.$me : base.length; this.$calls = from ? from.$calls.slice() : [...base, ["MathEditorBindings", id(p)]]; env.editors.push(this); }
    $call(f, a) {
      while (a.length && a[a.length - 1] === undefined) a.pop();
      const call = JSON.parse(JSON.stringify([f, this.$me, ...a])), k = JSON.stringify(call);
      if (f.startsWith("get_") || f === "copy") {
        const now = run(this.$calls, this.$me);
        if (now.seen.has(k)) { // reading is part of the history as well
          const out = now.seen.get(k);
          if (f === "get_syntax_tree") { this.$calls = [...this.$calls, call]; put(JSON.stringify(this.$calls), out, now.seen); }
          return value(out);
        }
      }
      this.$calls = [...this.$calls, call];
      return value(run(this.$calls, this.$me).result);
    }
    get $trapped() { const r = run(this.$calls, this.$me).result; return r[2] === true; }
  }
  for (const f of ["focus", "unfocus", "move_caret", "select_with_caret", "remove_at_caret", "insert_at_caret", "select_all", "undo", "redo", "start_selection", "extend_selection", "finish_selection", "copy", "paste", "open_autocomplete",
    "finish_autocomplete", "move_in_autocomplete", "get_autocomplete", "get_caret", "get_input_tree", "get_syntax_tree", "splice_at_range"]) MathEditorBindings.prototype[f] = function (...a) { return this.$call(f, a); };
  const env = { editors: [], pkg: { ParseModulesBindings, ParseModuleCollectionBindings, MathParserBindings, ParseModulesCreator, MathEditorBindings, BoxedParseModule: Handle } };
  return env;
}
function stubPkg(env) { // the compiled Rust side: what the harness puts in its place
  class Opaque {}
  const p = { __esModule: true, default: () => undefined, ...env.pkg };
  return new Proxy(p, { get(t, k) {
    if (k in t) return t[k];
    if (typeof k !== "string" || k === "then") return undefined;
    return (t[k] = new Proxy(class extends Opaque {}, { construct: () => new Proxy({}, { get: (o, n) => (n in o ? o[n] : () => new Opaque()), set: (o, n, v) => ((o[n] = v), true) }), get: (c, n) => (n in c ? c[n] : () => new Opaque()) }));
  } });
}
function harnesses(plain, api, $) {
  const w = world(plain, api, $);
  const l = loader($, w, plain);
  const all = {};
  const dir = path.join(__dirname, "harness");
  for (const f of fs.readdirSync(dir).sort()) if (f.endsWith(".ts") && !f.startsWith("_")) Object.assign(all, l.load(path.join(dir, f)));
  return { all, l, w };
}
function plainApi(next) {
  class Fail extends Error {}
  const log = [];
  const api = {
    log,
    int: (lo, hi) => Math.min(hi, Math.max(lo, next(lo))),
    choose: (n) => (n <= 1 ? 0 : Math.min(n - 1, Math.max(0, next(0)))),
    assume(c) { if (!c) throw new Fail("ASSUME"); },
    check(c, label) { log.push(label); if (!c) throw new Fail("FAIL: " + label); },
    reach(l) { log.push(l); },
    numberIn: (s) => parseFloat(s), rest: (s) => String(s).replace(/^-?[0-9.e-]+/, ""),
  };
  return { api, Fail };
}
async function main() {
  const [mode, ...a] = process.argv.slice(2);
  if (mode === "explore") {
    const [entry, out, seconds, samples] = a;
    const { all, w } = harnesses(false, eng.api, eng.$);
    eng.patch();
    const h = all[entry];
    if (!h) throw new Error("no harness " + entry);
    const r = await eng.explore(() => { w.$env.timers = []; w.$env.editors.length = 0; return h(); }, { time: +seconds, samples: +samples, verbose: process.env.VERBOSE, z3: process.env.Z3 || "z3" });
    r.entry = entry; r.expected = h.expected || [];
    fs.writeFileSync(out, JSON.stringify(r));
  } else if (mode === "run") {
    let vals = [], i = 0;
    const { api, Fail } = plainApi((d) => (i < vals.length ? vals[i++] : d));
    const { all, w } = harnesses(true, api, { fn() {}, meta: { env: { DEV: true } } });
    for (const line of fs.readFileSync(0, "utf8").split("\n").filter(Boolean)) {
      const [entry, v] = line.split(" ");
      vals = v ? v.split(",").map(Number) : []; i = 0; w.$env.timers = []; w.$env.editors.length = 0; api.log.length = 0;
      let r = null;
      try { await all[entry](); } catch (e) { r = e instanceof Fail || e instanceof eng.Abort ? e.message : "THROWN " + (e && e.message); }
      r ??= "OK " + eng.digest(api.log) + " " + api.log.length;
      console.log(r.replace(/\n/g, " "));
    }
  } else if (mode === "list") {
    const { all } = harnesses(true, plainApi((d) => d).api, { fn() {}, meta: { env: { DEV: true } } });
    console.log(Object.keys(all).filter((k) => typeof all[k] === "function").join("\n"));
  }
}
main().then(() => process.exit(0), (e) => { console.error(e && e.stack || e); process.exit(3); });
