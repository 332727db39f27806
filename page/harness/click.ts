// Where a click leads.
import { MathMLRenderResult } from "/repo/src/mathml/render-result";
import { render, makeRow, sym, box, group } from "./_boxes";

const contains = (b, p) => (b.x <= p.x) & (p.x <= b.x + b.width) & (b.y <= p.y) & (p.y <= b.y + b.height);
const sq = (a, b) => (a.x - b.x) * (a.x - b.x) + (a.y - b.y) * (a.y - b.y);
/** Every innermost element under the pointer, with the condition under which it is one. */
function innermost(e, p, above, out) {
  const here = above & contains(e.bounds, p);
  let below = false;
  for (const k of e.kids) below = below | contains(k.bounds, p);
  out.push({ e, when: here & !below });
  for (const k of e.kids) innermost(k, p, here, out);
}
/** The places of an element: those of its part of the row, and those of all rows below. */
function places(e, out) {
  for (let i = e.syntaxTree.range.start; i <= e.syntaxTree.range.end; i++) out.push({ way: e.way, offset: i, at: e.carets[i] });
  below(e, out);
  return out;
}
function below(e, out) {
  for (const k of e.kids) if (k.rowIndex) places(k, out); else below(k, out);
}
const sameWay = (a, b) => {
  if (a.length !== b.length) return false;
  let ok = true;
  for (let i = 0; i < a.length; i++) ok = ok & (a[i][0] === b[i][0]) & (a[i][1] === b[i][1]);
  return ok;
};
function click(rows, max) {
  const root = render(rows[choose(rows.length)], null, null, max, [], false);
  const p = { x: int(0, max), y: int(0, max) };
  const r = new MathMLRenderResult(root).getLayoutPosition(p);
  const got = [...r.indices];
  const cands = [];
  innermost(root, p, true, cands);
  cands.push({ e: root, when: !contains(root.bounds, p) });
  let ok = false, exists = false;
  for (const c of cands) {
    const all = places(c.e, []);
    for (const q of all) {
      const it = sameWay(q.way, got) & (q.offset === r.offset);
      if (it === false) continue;
      exists = exists | it;
      let best = true;
      for (const o of all) best = best & (sq(q.at, p) <= sq(o.at, p));
      ok = ok | (c.when & it & best);
    }
  }
  check(exists, "the click leads to a place of the document");
  check(ok, "the click leads to the nearest place of the element under the pointer");
  reach("clicked");
}
const R = makeRow;
const FLAT = [R([sym(3)]), R([sym(1), sym(1)]), R([])];
const BOXES = [R([box(R([sym(1)]))]), R([sym(1), box(R([sym(1)]))]), R([box(R([sym(1)]), R([]))])];
const DEEP = [R([box(R([box(R([sym(1)]))]))]), R([sym(1), box(R([sym(1), sym(1)]))])];
const GROUPS = [R([group(sym(1), box(R([])))]), R([sym(1), group(group(box(R([sym(1)]))))])];
const WIDER = [R([sym(2), box(R([sym(1)])), sym(1)]), R([box(R([sym(1)]), R([]), R([sym(1)]))]), R([box(R([])), box(R([]))])];
const DEEPER = [...DEEP, R([box(R([box(R([box(R([]))]))]))]), R([box(R([sym(1), box(R([]))]))])];
export const click_flat_q = () => click(FLAT, 7);
export const click_boxes_q = () => click(BOXES, 7);
export const click_deep_q = () => click(DEEP, 7);
export const click_groups_q = () => click(GROUPS, 7);
export const click_flat_t = () => click([...FLAT, R([sym(2), sym(0), sym(2)])], 15);
export const click_boxes_t = () => click([...BOXES, ...WIDER], 7);
export const click_groups_t = () => click([...GROUPS, R([group(box(R([sym(1)])), group(sym(1), box(R([]))))]), R([box(R([group(group(box(R([]))), sym(1))]))])], 7);
export const click_deep_t = () => click(DEEPER, 7);
for (const h of [click_flat_q, click_boxes_q, click_deep_q, click_groups_q, click_groups_t, click_flat_t, click_boxes_t, click_deep_t]) h.expected = ["clicked"];
