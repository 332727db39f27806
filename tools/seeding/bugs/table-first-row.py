id = "table-first-row"
kind = "page"
property = "C34"
needs = "a table whose first row is not the longest one"
what = "Tables are as wide as their first row, so that cells of longer rows are lost."
edits = [("src/mathml/parsing.ts", "const tableWidth = children.map((c) => c.children.length).reduce((a, b) => Math.max(a, b), 0);", "const tableWidth = children[0]?.children.length ?? 0;")]
demo = '''
const { load, expect, el } = require("./load.js");
const { fromElement } = load("src/mathml/parsing.ts");
const cell = (s) => el("mtd", el("mi", s)), row = (s) => ({ values: s.map((c) => ({ Symbol: c })) });
const r = fromElement(el("math", el("mtable", el("mtr", cell("a")), el("mtr", cell("b"), cell("c")))));
expect(r.root, { values: [{ Container: ["Table", { values: [row(["a"]), row([]), row(["b"]), row(["c"])], width: 2 }] }] }, "a table with a short first row");
'''
