id = "paste-plain-lost"
kind = "page"
property = "C35"
needs = "pasting a formula that is on the clipboard as plain text only"
what = "The plain text on the clipboard is only used if asking for JSON gives nothing at all; browsers give an empty text, so it never is."
edits = [("src/component/math-editor.ts", "      if (json) {", "      if (json !== undefined) {")]
demo = r'''
const { load, expect, dom, env, timers, el } = require("./load.js");
const calls = [];
const doc = { name: 0, range: { start: 0, end: 0 }, children: { Children: [] }, value: [] };
env.html = () => el("math");
env.pkg = { MathEditorBindings: class { constructor() { return new Proxy(this, { get: (t, f) => t[f] ?? ((...a) => { if (!String(f).startsWith("get_")) calls.push([f, ...a]);
  return f === "get_caret" ? [{ Row: { row_indices: [], start: 0, end: 0 } }] : f === "get_syntax_tree" ? doc : f === "get_input_tree" ? { values: [] } : undefined; }) }); } },
  ParseModulesBindings: class { get_syntax_node_name_map() { return { values: [[["BuiltIn", "Nothing"], 0]] }; } get_built_in() {} },
  ParseModulesCreator: new Proxy({}, { get: () => () => undefined }), ParseModuleCollectionBindings: class { add_module() {} }, MathParserBindings: class {} };
const { MathEditor } = load("src/component/math-editor.ts");
const editor = new MathEditor();
const find = (n, f, out = []) => { if (f(n)) out.push(n); n.childNodes.forEach((k) => find(k, f, out)); return out; };
const fire = (type, ev) => find(editor.shadowRoot, (n) => n.listeners.has(type))[0].dispatch(type, { type, preventDefault() {}, ...ev });

calls.length = 0;
fire("paste", { clipboardData: { getData: (t) => (t === "text/plain" ? "{}" : "") } });
expect(calls.filter((c) => c[0] === "paste").map((c) => c[1]), ["{}"], "pasting plain text");
'''
