id = "far-below-narrow"
kind = "page"
property = "C31"
needs = "a row that is higher than it is wide, and a click beside it at a height that is below the row's top by more than its width"
what = "The distance to a box takes its width for its height below, so that narrow high rows are taken to be farther away than they are and left out."
edits = [("src/rendering/viewport-coordinate.ts", "position.y - (bounds.y + bounds.height));", "position.y - (bounds.y + bounds.width));")]
demo = '''
const { load, expect, shown } = require("./load.js");
const { MathMLRenderResult } = load("src/mathml/render-result.ts");
const box = (x, y, width, height) => ({ x, y, width, height });
const high = shown(0, 1, box(20, 0, 4, 60), [], [1, 0]);
const container = shown(1, 2, box(10, 0, 24, 60), [high]);
const row = shown(0, 2, box(0, 0, 34, 60), [shown(0, 1, box(0, 20, 10, 10)), container]);
const p = new MathMLRenderResult(row).getLayoutPosition({ x: 23, y: 58 });
expect([p.indices.indices, p.offset], [[[1, 0]], 1], "a click at the bottom of a high cell");
'''
