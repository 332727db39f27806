id = "last-digit-end"
kind = "page"
property = "C33"
needs = "a number (or a word shown as one element) of several symbols, with the caret before its last symbol"
what = "The place of the caret before the last symbol of a text is taken to be behind that symbol, so that two offsets have the same place."
edits = [("src/mathml/renderer/rendered-leaf.ts", "const atEnd = graphemeOffset >= this.textElements.length;", "const atEnd = graphemeOffset >= this.textElements.length - 1;")]
demo = '''
const { load, expect, dom, env } = require("./load.js");
const { MathMLRenderer } = load("src/mathml/renderer.ts");
const digit = { "1": 0, "2": 10, "3": 20 };
env.box = (n) => (n instanceof dom.Text ? { x: digit[n.data], y: 0, width: 10, height: 10 } : { x: 0, y: 0, width: 30, height: 10 });
const number = { name: 1, range: { start: 0, end: 3 }, children: { Leaf: { node_type: "Symbol", symbols: ["1", "2", "3"] } }, value: [] };
const e = new MathMLRenderer(new Map([["Arithmetic::Number", 1]])).render(number, null);
expect([0, 1, 2, 3].map((i) => e.getCaretPosition(i).x), [0, 10, 20, 30], "the places of carets in a number");
'''
