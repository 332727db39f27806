id = "beside-selection"
kind = "page"
property = "C32"
needs = "a selection in a part of an operation, next to an element that is higher"
what = "Elements that only touch a selection count as selected when the box of the selection is computed, so that it is as high as its neighbours."
edits = [("src/mathml/render-result.ts", "const isDisjoint = selectionRight <= element.syntaxTree.range.start || element.syntaxTree.range.end <= selectionLeft;", "const isDisjoint = selectionRight < element.syntaxTree.range.start || element.syntaxTree.range.end <= selectionLeft;")]
demo = '''
const { load, expect, shown } = require("./load.js");
const { MathMLRenderResult } = load("src/mathml/render-result.ts");
const { RowIndices } = load("src/input-tree/row-indices.ts");
const box = (x, y, width, height) => ({ x, y, width, height });
const row = shown(0, 3, box(0, 0, 30, 40), [shown(0, 1, box(0, 15, 10, 10)), shown(1, 2, box(10, 15, 10, 10)), shown(2, 3, box(20, 0, 10, 40))]);
const at = (start, end) => { const { y, height } = new MathMLRenderResult(row).getViewportSelection({ indices: new RowIndices([]), start, end }).rect; return [y, height]; };
expect(at(0, 2), [15, 10], "what is left of a high element");
expect(at(2, 3), [0, 40], "a high element");
'''
