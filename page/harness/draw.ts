// What a caret and a selection look like.
import { MathMLRenderResult } from "/repo/src/mathml/render-result";
import { RowIndices } from "/repo/src/input-tree/row-indices";
import { MathEditor } from "/repo/src/component/math-editor";
import { ModulesCreator, MathEditorBindings } from "/repo/src/core";
import { render, makeRow, sym, box, group } from "./_boxes";

const R = makeRow;
/** The rows of a tree, with the elements that stand for them. */
export function rowsOf(e, isRow, out) {
  if (isRow) out.push(e);
  for (const k of e.kids) rowsOf(k, k.rowIndex !== null, out);
  return out;
}
/** Calls f with every element of a row that shows a part of l..r, and the condition under which it does: the outermost that
 * are selected completely, and innermost ones (leaves) that are selected in part. */
function shown(e, l, r, reached, f) {
  const { start, end } = e.syntaxTree.range;
  const touched = !((r <= start) | (end <= l)), whole = (l <= start) & (end <= r);
  const here = reached & touched;
  const sameRow = e.kids.filter((k) => k.rowIndex === null);
  if (sameRow.length === 0) f(e, here);
  else {
    f(e, here & whole);
    for (const k of sameRow) shown(k, l, r, here & !whole, f);
  }
}
function checkBox(rect, row, start, end) {
  const l = Math.min(start, end), r = Math.max(start, end);
  // the boxes that are selected
  let isTop = false, isBottom = false, above = true, below = true, any = false;
  shown(row, l, r, true, (e, when) => {
    const t = e.bounds.y, b = e.bounds.y + e.bounds.height;
    any = any | when;
    above = above & (!when | (rect.y <= t)); below = below & (!when | (b <= rect.y + rect.height));
    isTop = isTop | (when & (rect.y === t)); isBottom = isBottom | (when & (rect.y + rect.height === b));
  });
  check((start === end) | (above & below), "what is selected is inside of the drawn box");
  check((start === end) | !any | (isTop & isBottom), "the drawn box is no higher than what is selected");
}
function checkWidth(rect, row, start, end) {
  let ok = true;
  row.carets.forEach((a, i) => row.carets.forEach((b, j) => {
    const it = (start === i) & (end === j);
    ok = ok & (!it | ((rect.x === Math.min(a.x, b.x)) & (rect.x + rect.width === Math.max(a.x, b.x))));
  }));
  check(ok, "the drawn box reaches from one end to the other");
}
function range(row) {
  const n = row.carets.length - 1;
  return [int(0, n), int(0, n)];
}
function draw(trees, max) {
  const root = render(trees[choose(trees.length)], null, null, max, [], true);
  const rows = rowsOf(root, true, []);
  const row = rows[choose(rows.length)];
  const [start, end] = range(row);
  const result = new MathMLRenderResult(root);
  const s = result.getViewportSelection({ indices: new RowIndices(row.way), start, end });
  check(s.baseline === row.carets[0].y, "the baseline is that of the row");
  checkWidth(s.rect, row, start, end);
  checkBox(s.rect, row, start, end);
  check((start !== end) | (s.rect.height === 0), "a caret alone has no box");
  check(s.isCollapsed === (s.rect.width === 0), "collapsed means without width");
  const t = result.getViewportSelection({ indices: new RowIndices(row.way), start: end, end: start });
  check((t.rect.x === s.rect.x) & (t.rect.y === s.rect.y) & (t.rect.width === s.rect.width) & (t.rect.height === s.rect.height), "the direction makes no difference");
  const b = result.getViewportRowBounds(new RowIndices(row.way));
  check((b.x === row.bounds.x) & (b.y === row.bounds.y) & (b.width === row.bounds.width) & (b.height === row.bounds.height), "the box of a row is that of its element");
  check(result.getElement(new RowIndices(row.way)) === row, "a row is found by its way");
  const j = s.join(t);
  check((j.rect.x === s.rect.x) & (j.rect.width === s.rect.width) & (j.rect.y === s.rect.y) & (j.rect.height === s.rect.height), "joining a box with itself changes nothing");
  reach("drawn");
}
const TREES = [R([sym(3)]), R([sym(1), sym(0), sym(1)]), R([sym(2), box(R([sym(2)])), sym(1)]), R([]), R([box(R([]), R([sym(1), sym(1)]))])];
const MORE = [R([sym(1), sym(2), sym(1), sym(1)]), R([sym(1), box(R([box(R([sym(2), sym(1)]), R([]))])), sym(2)]), R([box(R([sym(1)]), R([sym(1)]), R([sym(2)]), R([]))])];
export const draw_ranges_q = () => draw(TREES, 63);
export const draw_ranges_deep_q = () => draw(MORE, 63);
const GROUPS = [R([sym(1), group(sym(1), group(sym(1), sym(1)))]), R([group(sym(1), box(R([sym(1)]))), sym(1)])];
const MORE_GROUPS = [...GROUPS, R([group(group(sym(1), box(R([group(sym(1), sym(1)), sym(1)]))), group(sym(1), sym(1)))])];
export const draw_groups_q = () => draw(GROUPS, 63);
export const draw_groups_t = () => draw(MORE_GROUPS, 63);
const find = (n, f, out = []) => { if (f(n)) out.push(n); n.childNodes.forEach((k) => find(k, f, out)); return out; };
/** An editor of an empty document with these carets. */
function editorWith(carets) {
  const nothing = { name: 0, range: { start: 0, end: 0 }, children: { Children: [] }, value: [] };
  ModulesCreator.get_syntax_node_name_map = () => ({ values: [[["BuiltIn", "Nothing"], 0]] });
  Object.assign(MathEditorBindings.prototype, { get_caret: () => carets, get_syntax_tree: () => nothing, get_input_tree: () => ({ values: [] }) });
  $env.connected = () => false;
  const editor = new MathEditor();
  $env.connected = () => true;
  return editor;
}
/** What the page shows for carets: position and height of the caret, and the boxes of selections. */
function carets(trees, n, max) {
  const root = render(trees[choose(trees.length)], null, null, max, [], true);
  const rows = rowsOf(root, true, []), list = [], want = [];
  const k = choose(n) + 1;
  for (let i = 0; i < k; i++) {
    const containers = [];
    const walk = (e) => { if ("NewRows" in e.syntaxTree.children) containers.push(e); e.kids.forEach(walk); };
    walk(root);
    if (containers.length > 0 && choose(2) === 1) {
      const c = containers[choose(containers.length)];
      const w = [1, 2].filter((w) => c.kids.length % w === 0), width = w[choose(w.length)], height = c.kids.length / width;
      const x0 = choose(width), x1 = x0 + choose(width - x0), y0 = choose(height), y1 = y0 + choose(height - y0);
      const first = x0 + y0 * width, last = x1 + y1 * width;
      list.push({ Grid: { row_indices: c.way, index: c.syntaxTree.range.start, range: { start: first, end: last + 1, width } } });
      want.push({ a: c.kids[first].bounds, b: c.kids[last].bounds });
    } else {
      const row = rows[choose(rows.length)], [start, end] = range(row);
      list.push({ Row: { row_indices: row.way, start, end } });
      want.push({ row, start, end });
    }
  }
  const px = int(0, max), py = int(0, max), size = int(1, max);
  $env.box = () => ({ x: px, y: py, width: 0, height: 0 });
  for (const r of rows) r.getCaretSize = () => size;
  const editor = editorWith(list);
  editor.renderResult = new MathMLRenderResult(root);
  // what was drawn before goes away
  editor.renderCarets();
  editor.renderCarets();
  const shown = find(editor.shadowRoot, (n) => n instanceof Element && n.classList.contains("caret"));
  check(shown.length === k, "one element per caret, none left over");
  shown.forEach((caret, i) => {
    const boxes = { children: find(caret.parentNode, (n) => n.classList?.contains("caret-selection")) }, w = want[i], st = caret.style;
    const style = (s, name) => { check(rest(s[name]) === "px", "lengths are in pixels"); return numberIn(s[name]); };
    const at = (s) => ({ x: style(s, "left") + px, y: style(s, "top") + py, width: style(s, "width"), height: style(s, "height") });
    if (w.row) {
      const x = style(st, "left") + px;
      let ok = true;
      w.row.carets.forEach((c, j) => { ok = ok & (!(w.end === j) | (x === c.x)); });
      check(ok, "the caret is drawn where the selection ends");
      check(style(st, "height") === size, "the caret is as high as the text");
      check((st.display ?? "") === "", "the caret is visible");
      check((boxes.children.length === 0) === (w.start === w.end), "a box is drawn if something is selected");
      if (boxes.children.length > 0) { const b = at(boxes.children[0].style); checkWidth(b, w.row, w.start, w.end); checkBox(b, w.row, w.start, w.end); reach("box"); }
    } else {
      check(boxes.children.length === 1, "selected cells have one box");
      const b = at(boxes.children[0].style);
      const right = b.x + b.width, bottom = b.y + b.height, R = (c) => c.x + c.width, B = (c) => c.y + c.height;
      check((b.x === Math.min(w.a.x, w.b.x)) & (b.y === Math.min(w.a.y, w.b.y)) & (right === Math.max(R(w.a), R(w.b))) & (bottom === Math.max(B(w.a), B(w.b))), "the box reaches from the first selected cell to the last");
      check(st.display === "none", "no caret is drawn for cells");
      reach("cells");
    }
  });
}
export const draw_carets_q = () => carets([TREES[2], TREES[4], MORE[2]], 1, 63);
export const draw_carets_two_q = () => carets([R([sym(2)]), R([box(R([sym(1)]), R([]))])], 2, 63);
const MOST = [...TREES, ...MORE, R([sym(3), sym(1), sym(2), sym(2)]), R([box(R([box(R([box(R([sym(1)]))]), R([sym(1)]))])), sym(0), box(R([]), R([]), R([]), R([]), R([]), R([]))])];
export const draw_ranges_t = () => draw(MOST, 63);
export const draw_ranges_deep_t = () => draw([...TREES, ...MORE], 4095);
export const draw_carets_t = () => carets(MOST, 1, 63);
export const draw_carets_two_t = () => carets(TREES, 2, 63);
for (const h of [draw_groups_q, draw_groups_t, draw_ranges_q, draw_ranges_deep_q, draw_ranges_t, draw_ranges_deep_t]) h.expected = ["drawn"];
for (const h of [draw_carets_q, draw_carets_two_q, draw_carets_t, draw_carets_two_t]) h.expected = ["box", "cells"];
