// The page's editor: what the user does reaches the editor below, and what is shown is what the editor says.
import { MathEditor } from "/repo/src/component/math-editor";
import { MathMLRenderer } from "/repo/src/mathml/renderer";
import { RowIndices } from "/repo/src/input-tree/row-indices";
import { ModulesCreator, DefaultParser, MathEditorBindings } from "/repo/src/core";
import { text, row, frac, root, sup, sub, table, container, allRows } from "./_docs";

const pick = (list) => list[choose(list.length)];
/** Where things are drawn: from left to right, the parts of fractions and the rows of tables below each other. */
function layout(top) {
  const boxes = new Map();
  const place = (n, x, y) => {
    let w = 0, h = 10;
    if (n instanceof Text) w = 8 * n.data.length;
    else if (n.localName === "mfrac" || n.localName === "mtable") {
      h = 0;
      for (const k of n.childNodes) { const b = place(k, x, y + h); w = Math.max(w, b.width); h += b.height; }
    } else n.childNodes.forEach((k, i) => {
      const b = place(k, x + w, y + (i > 0 && n.localName === "msub" ? 6 : 0));
      w += b.width; h = Math.max(h, b.height);
    });
    const b = { x, y, width: Math.max(w, 4), height: h };
    boxes.set(n, b);
    return b;
  };
  place(top, 0, 0);
  return boxes;
}
const topOf = (n) => { while (n.parentNode && n.localName !== "math") n = n.parentNode; return n; };
let known = null;
const names = () => (known ??= new Map(ModulesCreator.get_syntax_node_name_map().values.map(([path, id]) => [path.join("::"), id])));
const find = (n, f, out = []) => { if (f(n)) out.push(n); n.childNodes.forEach((k) => find(k, f, out)); return out; };
const drawn = (n) => (n instanceof Text ? n.data : [n.localName, [...n.attributes].sort(), ...n.childNodes.map(drawn)]);
const same = (a, b) => JSON.stringify(a) === JSON.stringify(b);

/** A page with an editor, and what the editor below should have been told. */
function open(doc) {
  let connected = false;
  $env.connected = () => connected;
  $env.html = (t) => (t === "<math></math>" ? document.createElementNS("http://www.w3.org/1998/Math/MathML", "math") : mathml(doc));
  $env.box = (n) => { const t = topOf(n); return (t.localName === "math" && layout(t).get(n)) || { x: 0, y: 0, width: 0, height: 0 }; };
  document.activeElement = null;
  const editor = new MathEditor();
  const told = new MathEditorBindings(DefaultParser), page = { editor, told, clipboard: new Map() };
  page.real = $env.editors.filter((e) => e !== told)[0];
  editor.setAttribute("mathml", "doc");
  connected = true;
  editor.connectedCallback();
  told.splice_at_range({ row_indices: [], start: 0, end: 0 }, doc.values);
  page.math = () => find(editor.shadowRoot, (n) => n.localName === "math")[0];
  page.input = () => find(editor.shadowRoot, (n) => n.localName === "textarea")[0];
  agree(page);
  return page;
}
/** The editor, the page and what the user did agree. */
function agree(page) {
  const { real, told, editor } = page;
  if ($env.debug) $env.debug(JSON.stringify([real.get_input_tree(), told.get_input_tree(), real.$calls.slice(21), told.$calls.slice(21)]));
  check(same(real.get_input_tree(), told.get_input_tree()), "the document is what the user made it");
  const [caret, ...more] = told.get_caret();
  check(same(real.get_caret(), told.get_caret()), "the caret is where the user put it");
  const tree = told.get_syntax_tree();
  const result = new MathMLRenderer(names()).renderAll({ value: tree, errors: null });
  const own = document.createElement("math");
  own.replaceChildren(...result.getElement(new RowIndices([])).getElements());
  check(same(page.math().childNodes.map(drawn), own.childNodes.map(drawn)), "the formula that is shown is the document");
  page.at = (x, y) => { const p = result.getLayoutPosition({ x, y }); return p && { row_indices: p.indices.indices.slice(), offset: p.offset }; };
  page.size = layout(own).get(own);
  // carets
  const carets = find(editor.shadowRoot, (n) => n instanceof Element && n.classList.contains("caret"));
  check(carets.length === 1 && more.length === 0, "one caret is shown");
  const boxes = find(editor.shadowRoot, (n) => n instanceof Element && n.classList.contains("caret-selection"));
  if (caret.Row) {
    const { row_indices, start, end } = caret.Row;
    const r = result.getElement(new RowIndices(row_indices));
    check(numberIn(carets[0].style.left) === r.getCaretPosition(end).x, "the caret is drawn where it is");
    check(boxes.length === (start === end ? 0 : 1), "the selection is shown");
    if (start !== end) check(numberIn(boxes[0].style.left) === r.getCaretPosition(Math.min(start, end)).x && numberIn(boxes[0].style.width) === Math.abs(r.getCaretPosition(end).x - r.getCaretPosition(start).x), "the selection is shown where it is");
    reach(start === end ? "caret" : "selection");
  } else {
    check(boxes.length === 1, "the selected cells are shown");
    reach("cells");
  }
}
function fire(target, type, ev) {
  const e = { type, target, defaultPrevented: false, preventDefault() { this.defaultPrevented = true; }, stopPropagation() { this.stopped = true; }, ...ev };
  for (let n = target; n && !e.stopped; n = n.parentNode ?? n.host ?? null) { e.currentTarget = n; n.dispatch(type, e); }
  return e;
}
/** Does to the editor what the user means; a part of it that is not written yet is outside. */
function tell(page, f) {
  let r;
  try { r = f(page.told); } catch (e) { assume(!page.told.$trapped); r = null; }
  return r;
}
const timers = () => { while ($env.timers.length) $env.timers.shift()(); };

const KEYS = { ArrowUp: "Up", ArrowDown: "Down", ArrowLeft: "Left", ArrowRight: "Right" };
function key(page, k) {
  const ctrl = k in KEYS ? false : int(0, 1) === 1;
  const code = k.length === 1 ? "Key" + k.toUpperCase() : k;
  if (k in KEYS) tell(page, (e) => e.move_caret(KEYS[k], "Char"));
  else if (ctrl && k === "z") tell(page, (e) => e.undo());
  else if (ctrl && k === "y") tell(page, (e) => e.redo());
  fire(page.input(), "keydown", { key: k, code, ctrlKey: ctrl, shiftKey: false, altKey: false, metaKey: false });
  if (k.length === 1 && !ctrl) { type(page, "insertText", k); return; }
  timers();
}
const REMOVE = { deleteContentBackward: "Left", deleteWordBackward: "Left", deleteContentForward: "Right", deleteWordForward: "Right" };
/** Typing: more may be typed before the page comes to it. */
function type(page, inputType, data, more) {
  const one = (t, d) => {
    if (t in REMOVE) tell(page, (e) => e.remove_at_caret(REMOVE[t], "Char"));
    else if (t === "insertText" && d !== null) tell(page, (e) => e.insert_at_caret(d === "\u00e9x" ? ["e\u0301", "x"] : [...d]));
    fire(page.input(), "beforeinput", { inputType: t, data: d });
  };
  one(inputType, data);
  if (more) one(...more);
  timers();
}
const board = (page) => ({ setData: (t, d) => page.clipboard.set(t, d), getData: (t) => page.clipboard.get(t) ?? "" });
function copy(page, cut) {
  const data = tell(page, (e) => e.copy("JsonInputTree"));
  page.clipboard = new Map();
  if (cut) tell(page, (e) => e.remove_at_caret("Range", "Char"));
  const ev = fire(page.input(), cut ? "cut" : "copy", { clipboardData: board(page) });
  check(page.clipboard.get("application/json") === data && page.clipboard.size === 1, "what is selected is on the clipboard");
  check(ev.defaultPrevented, "the browser leaves the clipboard alone");
}
function paste(page, what) {
  if (what !== null) page.clipboard = new Map(what);
  const data = page.clipboard.get("application/json") || page.clipboard.get("text/plain") || "";
  let wrong = false;
  try { page.told.paste(data, "JsonInputTree"); } catch (e) { assume(!page.told.$trapped); wrong = true; }
  try { fire(page.input(), "paste", { clipboardData: board(page) }); } catch (e) { if (!wrong) throw e; }
}
function pointer(page, state, kind, p, detail = 0, primary = true) {
  const at = page.at(p.x, p.y);
  const ev = { clientX: p.x, clientY: p.y, isPrimary: primary, pointerId: 1, detail: 0, button: 0, buttons: 1 };
  if (primary) {
    if (kind === "pointerdown") { tell(page, (e) => e.start_selection(at, "Char")); state.down = true; }
    else if (state.down) tell(page, (e) => e.extend_selection(at));
    if (kind === "pointerup" || kind === "pointercancel") { if (state.down) tell(page, (e) => e.finish_selection()); state.down = false; }
  }
  const target = page.math();
  fire(target, kind, ev);
  if (primary && kind === "pointerdown") {
    check(document.activeElement === page.input(), "the editor that is pressed gets the focus");
    check(find(page.editor.shadowRoot, (n) => n.captured?.has(1)).length === 1, "dragging goes on outside of the editor");
  }
  if (kind === "pointerdown" && detail) {
    if (state.down && detail > 1) tell(page, (e) => e.start_selection(at, detail === 2 ? "Word" : "Line"));
    fire(target, "mousedown", { ...ev, isPrimary: undefined, detail });
  }
}
function mathml(doc) { // the documents used here
  const NS = "http://www.w3.org/1998/Math/MathML";
  const el = (t, ...k) => { const e = document.createElementNS(NS, t); e.append(...k); return e; };
  const of = (r) => el("mrow", ...r.values.flatMap((n) => {
    if (n.Symbol !== undefined) return [el("mi", n.Symbol)];
    const [kind, g] = n.Container, c = g.values.map(of);
    if (kind === "Fraction") return [el("mfrac", ...c)];
    if (kind === "Root") return [el("mroot", c[1], c[0])];
    if (kind === "Sup") return [el("msup", el("mrow"), ...c)];
    if (kind === "Sub") return [el("msub", el("mrow"), ...c)];
    throw new Error(kind);
  }));
  return el("math", ...of(doc).childNodes.slice());
}
const DOCS = [row(frac(row("sum"), row("b")), "x"), row("a", sup(row("2")), "+sum"), row()];
const XS = [0, 8, 16, 24, 40, 48];
const any = (page) => ({ x: int(-2, page.size.width + 2), y: pick([2, 15].filter((y) => y < page.size.height + 4)) });
/** A place in the document. */
const spot = (page) => ({ x: pick(XS.filter((x) => x <= page.size.width + 4)), y: pick([2, 15].filter((y) => y < page.size.height + 4)) });
const end = (page) => ({ x: page.size.width, y: 2 });
const fresh = () => ({ down: false });
function press(page, p) {
  const state = fresh();
  pointer(page, state, "pointerdown", p);
  agree(page);
  pointer(page, state, "pointerup", p);
  agree(page);
}
function drag(page, p, q) {
  const state = fresh();
  pointer(page, state, "pointerdown", p);
  agree(page);
  pointer(page, state, "pointermove", q);
  agree(page);
  pointer(page, state, "pointerup", q);
  agree(page);
}
/** Presses anywhere, once, twice and three times. */
function pressing(docs, more) {
  const page = open(pick(docs)), state = fresh();
  if (more) press(page, end(page));
  pointer(page, state, "pointerdown", any(page), pick([1, 2, 3]));
  agree(page);
  pointer(page, state, pick(["pointerup", "pointercancel"]), more ? spot(page) : end(page));
  agree(page);
}
/** Drags from some places to anywhere. */
function dragging(docs, moves, more) {
  const page = open(pick(docs)), state = fresh();
  pointer(page, state, "pointerdown", more ? spot(page) : pick([{ x: 0, y: 2 }, { x: 24, y: 2 }, { x: 8, y: 15 }, { x: 99, y: 2 }]), more ? pick([1, 2]) : 1);
  agree(page);
  for (let i = 0; i < moves; i++) { pointer(page, state, "pointermove", any(page)); agree(page); }
  pointer(page, state, "pointerup", moves ? (more ? spot(page) : end(page)) : any(page));
  agree(page);
  pointer(page, state, "pointermove", { x: 0, y: 2 });
  agree(page);
}
/** Some pointers are second fingers; some events have no beginning. */
function fingers(docs, n) {
  const page = open(pick(docs)), state = fresh();
  for (let i = 0; i < n; i++) {
    pointer(page, state, pick(["pointerdown", "pointermove", "pointerup", "pointercancel"]), i % 2 ? { x: 8, y: 2 } : end(page), pick([0, 2]), int(0, 1) === 1);
    agree(page);
  }
}
const keyEvents = (page) => () => key(page, pick(["ArrowUp", "ArrowDown", "ArrowLeft", "ArrowRight", "z", "y"]));
const typing = (page) => () => type(page, ...pick([["insertText", "a"], ["insertText", "\u00e9x"], ["insertText", "^+"], ["insertText", null], ["insertLineBreak", null], ...Object.keys(REMOVE).map((k) => [k, null])]));
const TWICE = [["insertText", "b", ["insertText", "c"]], ["insertText", "b", ["deleteContentBackward", null]], ["deleteContentForward", null, ["insertText", "d"]]];
const JSON_X = JSON.stringify({ version: 1, data: [{ Symbol: "x" }, { Container: ["Sup", { values: [{ values: [{ Symbol: "2" }] }], width: 1 }] }] });
const BOARDS = [null, [["application/json", JSON_X], ["text/plain", "no"]], [["text/plain", JSON_X]], [["text/plain", "a+b"]], [], [["application/json", JSON_X.replace("1", "9")]]];
const clipping = (page) => () => pick([() => copy(page, false), () => copy(page, true), () => paste(page, pick(BOARDS))])();
const attribute = (page) => () => {
  const doc = pick([DOCS[1], row()]);
  $env.html = () => mathml(doc);
  page.told.splice_at_range({ row_indices: [], start: 0, end: page.told.get_input_tree().values.length }, doc.values);
  page.editor.attributeChangedCallback("mathml", "x", "doc");
};
const steps = (page, ...fs) => { for (const f of fs) { f(); agree(page); } };
function keys(docs, n) {
  const page = open(pick(docs));
  press(page, spot(page));
  for (let i = 0; i < n; i++) steps(page, pick([keyEvents(page), typing(page)]));
}
function words(docs, more) {
  const page = open(pick(docs));
  press(page, end(page));
  steps(page, () => type(page, ...pick(TWICE)), keyEvents(page), more ? typing(page) : () => type(page, ...pick([["insertText", "a"], ["deleteContentBackward", null]])), () => key(page, "z"));
}
function clips(docs, more) {
  const page = open(pick(docs));
  drag(page, more ? spot(page) : pick([{ x: 0, y: 2 }, { x: 8, y: 2 }]), more ? spot(page) : pick([{ x: 0, y: 2 }, { x: 24, y: 2 }, end(page)]));
  steps(page, clipping(page), clipping(page));
}
/** Typing and keys while something is being selected, and formulas that are set from outside. */
function mixed(docs, more) {
  const page = open(pick(docs)), state = fresh();
  if (more && choose(2)) { press(page, { x: 4, y: 2 }); steps(page, typing(page)); }
  pointer(page, state, "pointerdown", pick([end(page), { x: 24, y: 2 }]));
  steps(page, pick([keyEvents(page), typing(page), clipping(page), attribute(page)]));
  pointer(page, state, "pointermove", { x: 0, y: 2 });
  agree(page);
  steps(page, more ? pick([typing(page), attribute(page), () => key(page, "z")]) : pick([() => type(page, "insertText", "a"), attribute(page), () => key(page, "z"), () => copy(page, true)]));
  pointer(page, state, "pointerup", end(page));
  agree(page);
}
export const sync_press_q = () => pressing(DOCS, false);
export const sync_drag_q = () => dragging(DOCS.slice(0, 2), 1);
export const sync_release_q = () => dragging(DOCS.slice(0, 2), 0);
export const sync_fingers_q = () => fingers([DOCS[1]], 2);
export const sync_keys_q = () => keys(DOCS, 1);
export const sync_typing_q = () => words(DOCS);
export const sync_clipboard_q = () => clips([DOCS[1]]);
export const sync_mixed_q = () => mixed([DOCS[0]]);
export const sync_press_t = () => pressing(DOCS, true);
export const sync_drag_t = () => dragging(DOCS, 1, true);
export const sync_drags_t = () => dragging(DOCS.slice(0, 2), 2);
export const sync_fingers_t = () => fingers([DOCS[1]], 4);
export const sync_keys_t = () => keys(DOCS, 2);
export const sync_typing_t = () => words(DOCS, true);
export const sync_clipboard_t = () => clips(DOCS, true);
export const sync_mixed_t = () => mixed(DOCS, true);
for (const h of [sync_press_t, sync_drag_t, sync_drags_t, sync_clipboard_t, sync_mixed_t]) h.expected = ["caret", "selection"];
for (const h of [sync_fingers_t, sync_keys_t, sync_typing_t]) h.expected = ["caret"];
for (const h of [sync_press_q, sync_fingers_q, sync_keys_q, sync_typing_q]) h.expected = ["caret"];
for (const h of [sync_drag_q, sync_release_q, sync_clipboard_q, sync_mixed_q]) h.expected = ["caret", "selection"];
