// What becomes of a formula given as MathML.
import { fromElement } from "/repo/src/mathml/parsing";
import { MathMLRenderer } from "/repo/src/mathml/renderer";
import { text, row, frac, root, sup, sub, table, container, allRows, nameMap } from "./_docs";

const el = (tag, ...kids) => { const e = document.createElementNS("http://www.w3.org/1998/Math/MathML", tag); e.append(...kids); return e; };
const pick = (list) => list[choose(list.length)];
/** MathML, the elements it stands for, and whether something is wrong in it. */
const make = (dom, want, wrong = false) => ({ dom, want, wrong });
const ERROR = { Symbol: "Error" };
const asRow = (x) => ({ values: x.want });
const any = (...xs) => xs.some((x) => x.wrong);
const TOKENS = [["mi", "x"], ["mn", "12"], ["mo", "+"], ["mi", ""], ["mi", " sin "], ["mo", "\u2264"], ["mi", "e\u0301a"], ["mi", "\u00e9"], ["mn", "a\u00e9"], ["mo", "\u1eb9\u0301"], ["mi", "\u{1D465}y"], ["mi", "\u{1F468}\u200D\u{1F469}"]];
const token = () => { const [tag, s] = pick(TOKENS); return make(el(tag, s), graphemes(s)); };
const WHOLE = ["e\u0301", "\u0065\u0323\u0301", "\u{1F468}\u200D\u{1F469}"];
/** What the editor takes for one character each, normalized. */
function graphemes(s) {
  const out = [];
  for (let t = s.trim().normalize("NFD"); t.length > 0; ) { const c = WHOLE.find((w) => t.startsWith(w.normalize("NFD")))?.normalize("NFD") ?? [...t][0]; out.push({ Symbol: c }); t = t.slice(c.length); }
  return out;
}
const TEXTS = [" a b ", "", "e\u0301a", "a\u00e9", "\u1eb9\u0301", "\u{1D465}y", "\u{1F468}\u200D\u{1F469}", "x\n y"];
const quoted = () => { const tag = pick(["mtext", "ms"]), s = pick(TEXTS); return make(el(tag, s), [...text('"'), ...graphemes(s), ...text('"')]); };
const list = (tag, kids) => make(el(tag, ...kids.map((k) => k.dom)), kids.flatMap((k) => k.want), any(...kids));
/** An element that has to have a number of parts. */
const fixed = (tag, n, f) => (part) => {
  const k = pick([n, n - 1, n + 1, 0]), kids = [];
  for (let i = 0; i < k; i++) kids.push(part());
  return k === n ? make(el(tag, ...kids.map((x) => x.dom)), f(...kids.map(asRow)), any(...kids)) : make(el(tag, ...kids.map((x) => x.dom)), [ERROR], true);
};
const SCRIPTS = [
  fixed("mfrac", 2, (a, b) => [frac(a, b)]), fixed("mroot", 2, (a, b) => [root(b, a)]), fixed("msub", 2, (a, b) => [...a.values, sub(b)]), fixed("msup", 2, (a, b) => [...a.values, sup(b)]),
  fixed("munder", 2, (a, b) => [...a.values, sub(b)]), fixed("mover", 2, (a, b) => [...a.values, sup(b)]),
];
const TWO = [fixed("msubsup", 3, (a, b, c) => [...a.values, sub(b), sup(c)]), fixed("munderover", 3, (a, b, c) => [...a.values, sub(b), sup(c)])];
const LISTS = [
  (part) => list("mrow", many(part, 2)), (part) => list("mstyle", many(part, 1)),
  (part) => { const k = list("msqrt", many(part, 2)); return make(k.dom, [root(row("2"), asRow(k))], k.wrong); },
  (part) => { const k = many(part, 2); return k.length ? make(el("semantics", ...k.map((x) => x.dom)), k[0].want, k[0].wrong) : make(el("semantics"), [ERROR], true); },
  () => make(el("mfenced"), [ERROR], true), () => make(el("annotation", "x"), [ERROR], true),
];
const many = (part, n) => { const k = choose(n + 1), out = []; for (let i = 0; i < k; i++) out.push(part()); return out; };
const tables = (part, rows, columns) => {
  const h = choose(rows + 1), kids = [], cells = [];
  for (let i = 0; i < h; i++) { const w = choose(columns + 1), c = []; for (let j = 0; j < w; j++) c.push(part()); cells.push(c); kids.push(el("mtr", ...c.map((x) => el("mtd", x.dom)))); }
  const width = Math.max(0, ...cells.map((c) => c.length));
  if (width === 0) return make(el("mtable", ...kids), [ERROR], true);
  return make(el("mtable", ...kids), [table(width, ...cells.flatMap((c) => { const out = c.map(asRow); while (out.length < width) out.push(row()); return out; }))], any(...cells.flat()));
};
const badTable = (part) => { const p = part(); return make(pick([() => el("mtable", p.dom), () => el("mtable", el("mtr", p.dom)), () => el("mtable", el("mtr", el("mtd", p.dom)), el("mtd"))])(), [ERROR], true); };
const same = (a, b) => JSON.stringify(a) === JSON.stringify(b);
function convert(g) {
  const m = list("math", [].concat(g()));
  const r = fromElement(m.dom);
  check(same(r.root, { values: m.want }), "a formula given as MathML becomes the document it stands for");
  check(m.wrong === r.errors.length > 0, "exactly what is wrong is reported");
  check(r.errors.every((e) => e instanceof Error), "what is wrong is reported as errors");
  // and the editor takes it, and it can be shown
  const [names, tree] = $env.trees(r.root);
  const shown = new MathMLRenderer(nameMap(names)).renderAll({ value: tree, errors: null });
  allRows(r.root, [], (x, way) => check(shown.getElement({ *[Symbol.iterator]() { yield* way; } }).syntaxTree.range.end === x.values.length, "every row of the document can be shown"));
  reach(m.wrong ? "wrong" : "right");
}
const simple = () => make(el("mi", "x"), [{ Symbol: "x" }]);
const small = () => pick([simple, () => list("mrow", many(simple, 2)), () => make(el("mfoo"), [ERROR], true)])();
export const import_tokens_q = () => convert(() => many(() => pick([token, quoted])(), 2));
export const import_scripts_q = () => convert(() => [pick(SCRIPTS)(small)]);
export const import_lists_q = () => convert(() => [pick([...TWO.map((f) => () => f(simple)), ...LISTS.map((f) => () => f(small))])()]);
export const import_tables_q = () => convert(() => [pick([() => tables(simple, 3, 2), () => tables(small, 1, 2), () => badTable(small)])()]);
/** With the right number of parts. */
const right = (f) => (part) => { const i = SCRIPTS.indexOf(f); const x = part(), y = part(); return i === 0 ? make(el("mfrac", x.dom, y.dom), [frac(asRow(x), asRow(y))], any(x, y)) : i === 1 ? make(el("mroot", x.dom, y.dom), [root(asRow(y), asRow(x))], any(x, y))
  : i === 2 ? make(el("msub", x.dom, y.dom), [...x.want, sub(asRow(y))], any(x, y)) : make(el("msup", x.dom, y.dom), [...x.want, sup(asRow(y))], any(x, y)); };
const RIGHT = SCRIPTS.slice(0, 4).map(right);
const pair = () => list("mrow", [simple(), simple()]);
const flat = () => pick([simple, pair, () => list("mrow", [])])();
const inside = () => pick([simple, () => pick(RIGHT)(simple), pair, () => tables(simple, 1, 1)])();
const nested = () => pick([...RIGHT.map((f) => () => f(flat)), ...LISTS.map((f) => () => f(flat)), () => tables(flat, 1, 2), simple])();
export const import_nested_q = () => convert(() => [pick(RIGHT)(inside)]);
export const import_nested_t = () => convert(() => [pick(SCRIPTS)(nested)]);
export const import_pairs_t = () => convert(() => [nested(), nested()]);
export const import_tables_t = () => convert(() => [tables(small, 2, 2)]);
for (const h of [import_scripts_q, import_lists_q, import_tables_q, import_nested_q, import_nested_t, import_pairs_t, import_tables_t]) h.expected = ["right", "wrong"];
import_tokens_q.expected = ["right"];
