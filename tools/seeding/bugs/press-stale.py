id = "press-stale"
kind = "page"
property = "C35"
needs = "pressing elsewhere behind a word that is corrected when the caret leaves it"
what = "After a press only the carets are drawn again, so that the page goes on showing the word although it was replaced."
edits = [("src/component/math-editor.ts", '''      this.mathEditor.start_selection(newPosition, "Char");
      this.updateInput();''', '''      this.mathEditor.start_selection(newPosition, "Char");
      this.renderCarets();''')]
demo = r'''
const { load, expect, dom, env, timers, el } = require("./load.js");
const calls = [];
const doc = { name: 0, range: { start: 0, end: 0 }, children: { Children: [] }, value: [] };
env.html = () => el("math");
env.pkg = { MathEditorBindings: class { constructor() { return new Proxy(this, { get: (t, f) => t[f] ?? ((...a) => { if (!String(f).startsWith("get_")) calls.push([f, ...a]);
  return f === "get_caret" ? [{ Row: { row_indices: [], start: 0, end: 0 } }] : f === "get_syntax_tree" ? doc : f === "get_input_tree" ? { values: [] } : undefined; }) }); } },
  ParseModulesBindings: class { get_syntax_node_name_map() { return { values: [[["BuiltIn", "Nothing"], 0]] }; } get_built_in() {} },
  ParseModulesCreator: new Proxy({}, { get: () => () => undefined }), ParseModuleCollectionBindings: class { add_module() {} }, MathParserBindings: class {} };
const { MathEditor } = load("src/component/math-editor.ts");
const editor = new MathEditor();
const find = (n, f, out = []) => { if (f(n)) out.push(n); n.childNodes.forEach((k) => find(k, f, out)); return out; };
const fire = (type, ev) => find(editor.shadowRoot, (n) => n.listeners.has(type))[0].dispatch(type, { type, preventDefault() {}, ...ev });

doc.range = { start: 0, end: 0 };
const shown = () => find(editor.shadowRoot, (n) => n.localName === "math")[0].childNodes[0];
const before = shown();
fire("pointerdown", { isPrimary: true, pointerId: 1, clientX: 0, clientY: 0 });
expect(shown() !== before, true, "the formula is shown anew after a press");
'''
