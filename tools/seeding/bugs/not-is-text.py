id = "not-is-text"
kind = "page"
property = "C33"
needs = "a negation, as in a formula of logic"
what = "Negation is rendered with the constants of logic, although it has an operand: a formula with a negation cannot be shown."
edits = [("src/mathml/renderer.ts", '''      logic.add(["True", "False"], (''', '''      logic.add(["True", "False", "Not"], ('''), ("src/mathml/renderer.ts", '''logic.add(["And", "Or", "Not", "Equivalent", "Implies"],''', '''logic.add(["And", "Or", "Equivalent", "Implies"],''')]
demo = '''
const { load, expect, dom } = require("./load.js");
const { MathMLRenderer } = load("src/mathml/renderer.ts");
const leaf = (name, node_type, s, start) => ({ name, range: { start, end: start + 1 }, children: { Leaf: { node_type, symbols: [s] } }, value: [] });
const tree = { name: 2, range: { start: 0, end: 2 }, children: { Children: [leaf(0, "Operator", "\\u00ac", 0), leaf(1, "Symbol", "a", 1)] }, value: [] };
const names = new Map([["BuiltIn::Operator", 0], ["Core::Variable", 1], ["Logic::Not", 2]]);
let text;
try { text = new MathMLRenderer(names).render(tree, null).getElements().map((e) => e.textContent).join(""); } catch (e) { text = String(e); }
expect(text, "\\u00aca", "a negation");
'''
