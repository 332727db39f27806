id = "quote-code-points"
kind = "page"
property = "C34"
needs = "a text in a formula with a character of several code points (a letter with an accent)"
what = "Quoted texts are split by code points rather than by what is seen as characters, so that accents become symbols of their own."
edits = [("src/mathml/parsing.ts", '''return [symbol('"'), ...unicodeSplit(getText(element)).map((v) => symbol(v)), symbol('"')];''', '''return [symbol('"'), ...Array.from(getText(element).normalize("NFD"), (v) => symbol(v)), symbol('"')];''')]
demo = '''
const { load, expect, el } = require("./load.js");
const { fromElement } = load("src/mathml/parsing.ts");
const r = fromElement(el("math", el("mtext", "e\\u0301a")));
expect(r.root.values.map((x) => x.Symbol), ['"', "e\\u0301", "a", '"'], "a text with an accent");
'''
