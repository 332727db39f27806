id = "second-finger-moves"
kind = "page"
property = "C35"
needs = "a second finger that moves while the first one selects"
what = "Movements of every pointer extend the selection once one is pressed, so that a second finger makes it jump."
edits = [("src/component/math-editor.ts", '''    container.addEventListener("pointermove", (e) => {
      if (!e.isPrimary) return;
''', '''    container.addEventListener("pointermove", (e) => {
''')]
demo = r'''
const { load, expect, dom, env, timers, el } = require("./load.js");
const calls = [];
const doc = { name: 0, range: { start: 0, end: 0 }, children: { Children: [] }, value: [] };
env.html = () => el("math");
env.pkg = { MathEditorBindings: class { constructor() { return new Proxy(this, { get: (t, f) => t[f] ?? ((...a) => { if (!String(f).startsWith("get_")) calls.push([f, ...a]);
  return f === "get_caret" ? [{ Row: { row_indices: [], start: 0, end: 0 } }] : f === "get_syntax_tree" ? doc : f === "get_input_tree" ? { values: [] } : undefined; }) }); } },
  ParseModulesBindings: class { get_syntax_node_name_map() { return { values: [[["BuiltIn", "Nothing"], 0]] }; } get_built_in() {} },
  ParseModulesCreator: new Proxy({}, { get: () => () => undefined }), ParseModuleCollectionBindings: class { add_module() {} }, MathParserBindings: class {} };
const { MathEditor } = load("src/component/math-editor.ts");
const editor = new MathEditor();
const find = (n, f, out = []) => { if (f(n)) out.push(n); n.childNodes.forEach((k) => find(k, f, out)); return out; };
const fire = (type, ev) => find(editor.shadowRoot, (n) => n.listeners.has(type))[0].dispatch(type, { type, preventDefault() {}, ...ev });

fire("pointerdown", { isPrimary: true, pointerId: 1, clientX: 0, clientY: 0 });
calls.length = 0;
fire("pointermove", { isPrimary: false, pointerId: 2, clientX: 5, clientY: 5 });
expect(calls, [], "a second finger");
fire("pointermove", { isPrimary: true, pointerId: 1, clientX: 5, clientY: 5 });
expect(calls.map((c) => c[0]), ["extend_selection"], "the first finger");
'''
