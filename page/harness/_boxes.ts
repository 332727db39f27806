// Rendered elements with any boxes, in place of those of a browser.
/** A way of rendering: rows of leaves and of containers with rows. */
export function leaf(from, n) { return { kind: "leaf", from, to: from + n, rows: [], parts: [] }; }
export function makeRow(parts) { return { parts, to: parts.reduce((a, p) => a + p.n, 0) }; }
export const sym = (n) => ({ n, rows: [] });
export const box = (...rows) => ({ n: 1, rows });
/** An operator with its operands: an element of the same row, with elements below it. */
export const group = (...parts) => ({ n: parts.reduce((a, p) => a + p.n, 0), rows: [], group: parts });

export function boxIn(outer, max) {
  const x = int(0, max), y = int(0, max), width = int(0, max), height = int(0, max);
  if (outer) {
    assume((outer.x <= x) & (x + width <= outer.x + outer.width));
    assume((outer.y <= y) & (y + height <= outer.y + outer.height));
  }
  return { x, y, width, height };
}
/** flat: a row that is one leaf is rendered as that leaf, without an element around it (as the renderer does). */
export function render(row, rowIndex, outer, max, way, monotone) {
  const b = boxIn(outer, max);
  const y = int(0, max);
  assume((b.y <= y) & (y <= b.y + b.height));
  const carets = [];
  for (let i = 0; i <= row.to; i++) {
    const x = int(0, max);
    assume((b.x <= x) & (x <= b.x + b.width));
    if (monotone && i > 0) assume(carets[i - 1].x <= x);
    carets.push({ x, y });
  }
  const e = element(0, row.to, rowIndex, b, carets, way);
  const single = row.parts.length <= 1;
  fill(e, row.parts, 0, single, max, monotone);
  return e;
}
/** Puts what is rendered for some parts of a row into the element. */
function fill(e, parts, at, single, max, monotone) {
  for (const p of parts) {
    const to = at + p.n;
    const c = single ? e : element(at, to, null, boxIn(e.bounds, max), e.carets, e.way);
    if (!single) e.kids.push(c);
    if (p.rows.length) {
      c.syntaxTree.children = { NewRows: { values: [], width: 1 } };
      p.rows.forEach((r, i) => {
        const k = render(r, [at, i], c.bounds, max, e.way.concat([[at, i]]), monotone);
        c.kids.push(k);
        c.syntaxTree.children.NewRows.values.push(k.syntaxTree);
      });
    } else if (p.group) fill(c, p.group, at, false, max, monotone);
    else c.syntaxTree.children = { Leaf: { symbols: [] } };
    at = to;
  }
  if (!single || parts.length === 0) e.syntaxTree.children = { Children: e.kids.map((k) => k.syntaxTree) };
}
function element(start, end, rowIndex, bounds, carets, way) {
  return {
    kids: [], bounds, way, carets,
    syntaxTree: { name: 0, range: { start, end }, children: null }, rowIndex,
    getChildren() { return this.kids; },
    getBounds() { return bounds; },
    getElements() { return []; },
    getCaretSize() { return 16; },
    getCaretPosition(offset) {
      for (let i = start; i <= end; i++) if (offset === i) return carets[i];
      throw new Error("asked for the caret at an offset outside of the element");
    },
  };
}
