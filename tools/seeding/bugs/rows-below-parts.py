id = "rows-below-parts"
kind = "page"
property = "C31"
needs = "a container that is inside of two elements of its row (as a fraction in a sum in brackets), and a click that is nearest to a place inside of it while none of these elements is under the pointer"
what = "Only rows of the parts of an element and of their parts are looked at, so that clicks beside a formula miss places in containers further down."
edits = [("src/mathml/render-result.ts", "return element.getChildren().flatMap((c) => (c.rowIndex ? c : getNewRowsChildren(c)));", "return element.getChildren().flatMap((c) => (c.rowIndex ? c : c.getChildren().filter((v) => v.rowIndex)));")]
demo = '''
const { load, expect, shown } = require("./load.js");
const { MathMLRenderResult } = load("src/mathml/render-result.ts");
const box = (x, y, width, height) => ({ x, y, width, height });
const above = shown(0, 1, box(110, 0, 10, 10), [], [2, 0]), below = shown(0, 1, box(110, 20, 10, 10), [], [2, 1]);
const fraction = shown(2, 3, box(110, 0, 10, 30), [above, below]);
const sum = shown(1, 3, box(100, 0, 20, 30), [shown(1, 2, box(100, 10, 10, 10)), fraction]);
const all = shown(0, 3, box(90, 0, 30, 30), [shown(0, 1, box(90, 10, 10, 10)), sum]);
// the brackets are one element of the row
const row = shown(0, 3, box(90, 0, 30, 30), [all]);
const p = new MathMLRenderResult(row).getLayoutPosition({ x: 121, y: 9 });
expect([p.indices.indices, p.offset], [[[2, 0]], 1], "a click right of the numerator");
'''
