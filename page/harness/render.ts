// What the page shows for a document, and where its carets are.
import { MathMLRenderer } from "/repo/src/mathml/renderer";
import { RowIndices } from "/repo/src/input-tree/row-indices";
import { getNodeWithRowIndices } from "/repo/src/core";
import { row, frac, root, sup, sub, table, allRows, nameMap, shownIn, isContainer } from "./_docs";

const GAP = "⬚", MISSING = "\xA0\xA0";
const within = (b, o) => (o.x <= b.x) & (b.x + b.width <= o.x + o.width) & (o.y <= b.y) & (b.y + b.height <= o.y + o.height);
/** A browser's layout: boxes lie within those around them; rows and scripts go from left to right. */
function layout(node, outer, max) {
  const b = { x: int(0, max), y: int(0, max), width: int(0, max), height: int(0, max) };
  if (outer) assume(within(b, outer));
  node.box = b;
  if (node instanceof Text) return;
  const tag = node.localName.toLowerCase(), sideBySide = !["mfrac", "mtable", "mroot"].includes(tag);
  let last = null;
  for (const k of node.childNodes) {
    layout(k, b, max);
    if (sideBySide && last) assume(last.x + last.width <= k.box.x);
    last = k.box;
  }
}
/** What is seen of something shown: its text, its own element, or for a script what is in it. */
const seen = (s) => (s.kind === "Sup" || s.kind === "Sub" ? texts(s.node, []) : [s.node]);
const texts = (n, out) => { if (n instanceof Text) out.push(n); else n.childNodes.forEach((k) => texts(k, out)); return out; };
const isJoined = (s) => s.text !== undefined && s.node.data.length > 1;
function compare(doc, way, r, rowOf) {
  const elements = r.getElement(new RowIndices(way)).getElements();
  const shown = shownIn(elements, rowOf, JSON.stringify(way)).filter((s) => s.text !== GAP && s.text !== MISSING), flat = [];
  // a text may stand for several symbols
  for (const s of shown) if (s.text !== undefined) for (const c of s.text) flat.push({ text: c, node: s.node }); else flat.push(s);
  check(flat.length === doc.values.length, "everything in a row is shown once");
  doc.values.forEach((n, i) => {
    const s = flat[i];
    if (isContainer(n)) {
      const [kind, g] = n.Container;
      check(s.kind === kind && s.rows.length === g.values.length && s.width === g.width, "a container is shown as one of its kind with all its cells");
      g.values.forEach((q, j) => check(s.rows[j] === JSON.stringify(way.concat([[i, j]])), "the cells of a container are in order"));
    } else check(s.text === n.Symbol, "symbols are shown in order");
  });
  return flat;
}
function known(e, isRow, way, out) {
  if (isRow) out.push({ e, way });
  for (const k of e.getChildren()) known(k, k.rowIndex !== null, k.rowIndex ? way.concat([k.rowIndex]) : way, out);
  return out;
}
function render(docs, max) {
  const doc = docs[choose(docs.length)]();
  const [names, tree] = $env.trees(doc);
  const r = new MathMLRenderer(nameMap(names)).renderAll({ value: tree, errors: null });
  const top = r.getElement(RowIndices.default());
  const math = document.createElement("math");
  math.replaceChildren(...top.getElements());
  const rowOf = new Map(), shownAt = new Map();
  allRows(doc, [], (q, way) => { if (way.length) for (const n of r.getElement(new RowIndices(way)).getElements()) { check(!rowOf.has(n), "rows are shown apart"); rowOf.set(n, JSON.stringify(way)); } });
  allRows(doc, [], (q, way) => shownAt.set(JSON.stringify(way), compare(q, way, r, rowOf)));
  // every row is known by its way
  const rows = known(top, true, [], []);
  let count = 0;
  allRows(doc, [], () => { count++; });
  check(rows.length === count, "every row has one element, and nothing else has a row's number");
  layout(math, null, max);
  $env.box = (n) => { if (!n.box) throw new Error("box of something that is not shown"); return n.box; };
  const size = int(1, max);
  $env.fontSize = () => size;
  const sums = new Map(), all = (label, c) => sums.set(label, (sums.get(label) ?? true) & c);
  const visit = (doc, way) => {
    const shown = shownAt.get(JSON.stringify(way));
    const indices = new RowIndices(way), e = r.getElement(indices), n = doc.values.length;
    check(rows.some((x) => x.e === e && JSON.stringify(x.way) === JSON.stringify(way)), "the element found for a row is the one that has its numbers");
    check(e.syntaxTree.range.start === 0 && e.syntaxTree.range.end === n, "the element of a row stands for all of it");
    check(getNodeWithRowIndices(tree, indices) === e.syntaxTree, "the part of the syntax tree found for a row is the one that is shown for it");
    check(r.getViewportCaretSize(indices) === size, "the caret is as high as the text");
    let last = null;
    for (let i = 0; i <= n; i++) {
      const p = e.getCaretPosition(i);
      if (i > 0) for (const q of seen(shown[i - 1])) all("the caret is behind what is before it", (q.box.x + q.box.width <= p.x) | isJoined(shown[i - 1]));
      if (i < n) for (const q of seen(shown[i])) all("the caret is before what is behind it", (p.x <= q.box.x) | isJoined(shown[i]));
      if (last !== null) all("carets are in order", last.x <= p.x);
      all("carets are within the formula", (math.box.y <= p.y) & (p.y <= math.box.y + math.box.height));
      const v = r.getViewportSelection({ indices, start: i, end: i });
      all("a caret is drawn at its place", (v.rect.x === p.x) & (v.rect.width === 0));
      last = p;
    }
    doc.values.forEach((x, i) => { if (isContainer(x)) x.Container[1].values.forEach((q, j) => visit(q, way.concat([[i, j]]))); });
    reach(n === 0 ? "empty row" : "row");
  };
  visit(doc, []);
  sums.forEach((c, label) => check(c, label));
}
const pick = (list) => list[choose(list.length)];
const TOKENS = ["a", "1", "+", "(", ")", " ", "!", ",", "|"];
const nest = (inner) => [() => frac(inner(), inner()), () => root(inner(), inner()), () => sup(inner()), () => sub(inner()), () => table(2, inner(), inner()), () => table(1, inner(), inner())];
const inner = () => row(pick(["", "a", "1 "])), inners = () => row(pick(["", "a", "1 ", "+", "(a"]));
const sequence = (n, tokens) => { const p = [], k = choose(n + 1); for (let i = 0; i < k; i++) p.push(pick(tokens)); return row(...p); };
const WORDS = ["lim", "limsup", "∑", "∫", "\"a b\"", "true", "=", "<=", "->", "^", "∞", "1.5", "x1", "*", "/", "¬", "∧", "-", "f(x)", "f(a,b)", "(a,b)"];
export const render_text_q = () => render([() => sequence(3, TOKENS)], 63);
export const render_words_q = () => render([() => row(pick(["", "a", "("]), pick(WORDS), pick(["", "1", " b ", ")"]))], 63);
export const render_containers_q = () => render([() => row(pick(["", "a", " ", "("]), pick(nest(inner))(), pick(["", "b", " ", "+"]))], 63);
const DEEPLY = [() => sup(row("a", sup(inner()))), () => frac(row(sup(inner()), " "), row("b", sub(inner()))), () => table(2, row(frac(row("a"), row())), row(), row(root(row(), row("1"))), row("(", sup(row("2")), ")")),
  () => root(row(table(1, inner())), row(sub(row("i")), " + a")), () => frac(row("a", sup(row("2"))), row(table(2, row("b"), inner(), row(), row("c"))))];
export const render_deep_q = () => render([() => row(pick(["", "a"]), pick(DEEPLY)(), pick(["", " "]))], 63);
const scripted = (bases, n, parts) => () => { const p = [pick(bases)]; const k = choose(n) + 1; for (let i = 0; i < k; i++) p.push(pick(parts)()); return row(...p); };
const PARTS = [() => sup(row("2")), () => sub(row("i")), () => " ", () => "b"];
export const render_scripts_q = () => render([scripted(["", "a", "(a)", "∑"], 3, PARTS)], 63);
export const render_text_t = () => render([() => sequence(4, TOKENS)], 63);
export const render_words_t = () => render([() => row(pick(["", "a", "(", "1+", "-"]), pick(WORDS), pick(["", "a", " "]), pick(WORDS), pick(["", "1", " b ", ")"]))], 63);
export const render_containers_t = () => render([() => row(pick(["", "a", " ", "(", "+", "∑"]), pick(nest(inners))(), pick(["", "b", " ", "+", ")", "!", "|"]))], 63);
export const render_pairs_t = () => render([() => row(pick(nest(inner))(), pick(["", "+", " "]), pick(nest(inner))())], 63);
export const render_deep_t = () => render([() => row(pick(["", "a", "+"]), pick(nest(() => row(pick(["", "a"]), pick(nest(() => row(pick(["", "b"]))))())))(), pick(["", " "]))], 63);
export const render_scripts_t = () => render([scripted(["", "a", "(a)", "∑", "a ", "-", "lim"], 4, [...PARTS, () => "+"])], 63);
for (const h of [render_text_q, render_words_q, render_containers_q, render_deep_q, render_scripts_q, render_text_t, render_words_t, render_containers_t, render_pairs_t, render_deep_t, render_scripts_t]) h.expected = ["row"];
