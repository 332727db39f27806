id = "cells-first-top"
kind = "page"
property = "C32"
needs = "cells selected in a table where the last cell begins above the first one (a row of a table with cells of different heights)"
what = "The box of selected cells begins at the top of the first one even if another cell of the row is higher."
edits = [("src/component/math-editor.ts", "y: Math.min(renderedStart.y, renderedEnd.y),", "y: renderedStart.y,")]
demo = '''
const { load, expect, shown, dom, env } = require("./load.js");
const { MathMLRenderResult } = load("src/mathml/render-result.ts");
const { MathEditor } = load("src/component/math-editor.ts");
const box = (x, y, width, height) => ({ x, y, width, height });
const table = shown(0, 1, box(0, 0, 20, 40), [shown(0, 1, box(0, 15, 10, 10), [], [0, 0]), shown(0, 1, box(10, 0, 10, 40), [], [0, 1])]);
const row = shown(0, 1, box(0, 0, 20, 40), [table]);
const caretsContainer = dom.document.createElement("div");
Object.assign(Object.create(MathEditor.prototype), { caretsContainer, renderResult: new MathMLRenderResult(row),
  mathEditor: { get_caret: () => [{ Grid: { row_indices: [], index: 0, range: { start: 0, end: 2, width: 2 } } }] } }).renderCarets();
const { top, height } = caretsContainer.children[0].children[1].children[0].style;
expect([top, height], ["0px", "40px"], "the box of two cells");
'''
