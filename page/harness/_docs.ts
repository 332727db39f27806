// Documents, their syntax trees (by the real parser), and what the page shows of them.
export const text = (s) => [...s].map((c) => ({ Symbol: c }));
export const row = (...parts) => ({ values: parts.flatMap((p) => (typeof p === "string" ? text(p) : [p])) });
export const grid = (rows, width) => ({ values: rows, width });
export const container = (kind, rows, width) => ({ Container: [kind, grid(rows, width)] });
export const frac = (a, b) => container("Fraction", [a, b], 1);
export const root = (a, b) => container("Root", [a, b], 2);
export const sup = (a) => container("Sup", [a], 1);
export const sub = (a) => container("Sub", [a], 1);
export const table = (width, ...rows) => container("Table", rows, width);
export const isContainer = (n) => n.Container !== undefined;
/** Every row of a document with the way down to it. */
export function allRows(doc, way, f) {
  f(doc, way);
  doc.values.forEach((n, i) => { if (isContainer(n)) n.Container[1].values.forEach((r, j) => allRows(r, way.concat([[i, j]]), f)); });
}
export const nameMap = (names) => new Map(names.map(([path, id]) => [path.join("::"), id]));

/** What a list of DOM nodes shows, from left to right: texts, and containers with their cells. rowOf: DOM node -> the row it
 * belongs to as (one of) the outermost of its nodes. */
export function shownIn(nodes, rowOf, own) {
  const out = [];
  const put = (x) => { if (!(x.row !== undefined && out.length > 0 && out[out.length - 1].row === x.row)) out.push(x); };
  const cell = (n) => { // the one row that is shown in a node
    const all = shownIn([n], rowOf, null);
    check(all.length === 1 && all[0].row !== undefined, "a cell shows its row and nothing else");
    return all[0].row;
  };
  for (const n of nodes) {
    if (rowOf.has(n) && rowOf.get(n) !== own) { put({ row: rowOf.get(n), node: n }); continue; }
    if (n instanceof Text) { if (n.data !== "") out.push({ text: n.data, node: n }); continue; }
    const kids = n.childNodes, tag = n.localName.toLowerCase();
    if (tag === "mfrac") { check(kids.length === 2, "a fraction has two parts"); out.push({ kind: "Fraction", node: n, rows: kids.map(cell), width: 1 }); }
    else if (tag === "mroot") { check(kids.length === 2, "a root has two parts"); out.push({ kind: "Root", node: n, rows: [cell(kids[1]), cell(kids[0])], width: 2 }); }
    else if (tag === "msup" || tag === "msub") {
      check(kids.length === 2, "a script has a base and a script");
      const kind = tag === "msup" ? "Sup" : "Sub", script = shownIn([kids[1]], rowOf, own);
      out.push(...shownIn([kids[0]], rowOf, own));
      check(script.filter((s) => s.row !== undefined).length === 1, "a script shows one row");
      // spaces around a script are in its place
      out.push(...script.map((s) => (s.row !== undefined ? { kind, node: s.node, rows: [s.row], width: 1 } : s)));
    } else if (tag === "mtable") {
      const all = [];
      let width = null;
      for (const r of kids) {
        check(r.localName === "mtr", "a table consists of rows");
        for (const c of r.childNodes) check(c.localName === "mtd", "the row of a table consists of cells");
        check(width === null || width === r.childNodes.length, "the rows of a table have the same length");
        width = r.childNodes.length;
        for (const c of r.childNodes) all.push(...shownIn(c.childNodes, rowOf, null).map((s) => { check(s.row !== undefined, "a cell shows its row and nothing else"); return s.row; }));
      }
      out.push({ kind: "Table", node: n, rows: all, width });
    } else shownIn(kids, rowOf, own).forEach(put);
  }
  return out;
}
