id = "typed-in-reverse"
kind = "page"
property = "C35"
needs = "two characters typed before the page comes to insert the first one"
what = "What was typed last is inserted first when several inputs are waiting."
edits = [("src/component/math-editor.ts", "const task = this.tasks.shift()!;", "const task = this.tasks.pop()!;")]
demo = r'''
const { load, expect, dom, env, timers, el } = require("./load.js");
const calls = [];
const doc = { name: 0, range: { start: 0, end: 0 }, children: { Children: [] }, value: [] };
env.html = () => el("math");
env.pkg = { MathEditorBindings: class { constructor() { return new Proxy(this, { get: (t, f) => t[f] ?? ((...a) => { if (!String(f).startsWith("get_")) calls.push([f, ...a]);
  return f === "get_caret" ? [{ Row: { row_indices: [], start: 0, end: 0 } }] : f === "get_syntax_tree" ? doc : f === "get_input_tree" ? { values: [] } : undefined; }) }); } },
  ParseModulesBindings: class { get_syntax_node_name_map() { return { values: [[["BuiltIn", "Nothing"], 0]] }; } get_built_in() {} },
  ParseModulesCreator: new Proxy({}, { get: () => () => undefined }), ParseModuleCollectionBindings: class { add_module() {} }, MathParserBindings: class {} };
const { MathEditor } = load("src/component/math-editor.ts");
const editor = new MathEditor();
const find = (n, f, out = []) => { if (f(n)) out.push(n); n.childNodes.forEach((k) => find(k, f, out)); return out; };
const fire = (type, ev) => find(editor.shadowRoot, (n) => n.listeners.has(type))[0].dispatch(type, { type, preventDefault() {}, ...ev });

calls.length = 0;
for (const data of ["a", "b"]) fire("beforeinput", { inputType: "insertText", data });
timers();
expect(calls.filter((c) => c[0] === "insert_at_caret"), [["insert_at_caret", ["a"]], ["insert_at_caret", ["b"]]], "two characters typed quickly");
'''
