//! What the shipped rules mean: a reference grammar by levels, and rules with any strengths.
use crate::{gen::*, parse::*, sym::*};
use input_tree::{grid::*, node::*, row::*};
use parser::{make_parser::*, parse_module::*, parse_modules::*, parser::MathParser, syntax_tree::*};

// ---- the shipped rules -------------------------------------------------------------------------

/// A parse according to the reference.
pub enum Ref { Leaf(SyntaxNodeNameId, usize, usize), Node(SyntaxNodeNameId, Vec<Ref>), Cells(SyntaxNodeNameId, usize) }

struct Ids {
    number: SyntaxNodeNameId, variable: SyntaxNodeNameId, string: SyntaxNodeNameId, brackets: SyntaxNodeNameId, apply: SyntaxNodeNameId, factorial: SyntaxNodeNameId, exponent: SyntaxNodeNameId,
    lim: SyntaxNodeNameId, limsup: SyntaxNodeNameId, liminf: SyntaxNodeNameId, words: Vec<(&'static str, u8, SyntaxNodeNameId)>,
}
impl Ids {
    fn new(n: &Names) -> Self {
        // symbols that stand alone: text, kind (0 operand, 1 big operator, 2 sign, 3.. infix by level), name
        let mut words = vec![];
        for (s, kind, m, name) in [("∞", 0, "Calculus", "Infinity"), ("⊤", 0, "Logic", "True"), ("⊥", 0, "Logic", "False"), ("∑", 1, "Calculus", "Sum"), ("∫", 1, "Calculus", "Integral"),
            ("+", 2, "Arithmetic", "Add"), ("-", 2, "Arithmetic", "Subtract"), ("=", 3, "Comparison", "Equals"), (",", 4, "Collections", "Tuple"), ("<", 4, "Comparison", "LessThan"), (">", 4, "Comparison", "GreaterThan"),
            ("≥", 4, "Comparison", "GreaterThanOrEquals"), ("≤", 4, "Comparison", "LessThanOrEquals"), ("+", 5, "Arithmetic", "Add"), ("-", 5, "Arithmetic", "Subtract"), ("∧", 5, "Logic", "And"), ("∨", 5, "Logic", "Or"),
            ("¬", 5, "Logic", "Not"), ("⇔", 5, "Logic", "Equivalent"), ("⟹", 5, "Logic", "Implies"), ("*", 6, "Arithmetic", "Multiply"), ("/", 6, "Arithmetic", "Divide")] {
            words.push((s, kind, n.id(m, name)));
        }
        let c = |s| n.id("Core", s);
        let a = |s| n.id("Arithmetic", s);
        let l = |s| n.id("Calculus", s);
        Ids { number: a("Number"), variable: c("Variable"), string: n.id("String", "String"), brackets: c("RoundBrackets"), apply: n.id("Function", "FunctionApplication"), factorial: a("Factorial"),
            exponent: a("Exponent"), lim: l("Lim"), limsup: l("LimSup"), liminf: l("LimInf"), words }
    }
}

/// The reference parser: one method per level of the grammar; `None` when the row is not an expression.
struct Reference<'a> { row: &'a [InputNode], at: usize, k: &'a Known, ids: &'a Ids }
impl<'a> Reference<'a> {
    fn symbol(&self, i: usize) -> Option<&'a [u8]> { match self.row.get(i) { Some(InputNode::Symbol(s)) => Some(s.as_bytes()), _ => None } }
    fn is(&self, i: usize, s: &str) -> bool { self.symbol(i).map_or(false, |b| b == s.as_bytes()) }
    fn one(&self, i: usize, f: impl Fn(u8) -> bool) -> bool { self.symbol(i).map_or(false, |b| b.len() == 1 && f(b[0])) }
    fn spaces(&mut self) { while self.is(self.at, " ") { self.at += 1; } }
    /// An element of the kind, and the spaces behind it.
    fn container(&mut self, kind: InputNodeVariant) -> Option<usize> {
        match self.row.get(self.at) { Some(InputNode::Container(v, _)) if *v == kind => { let i = self.at; self.at += 1; self.spaces(); Some(i) } _ => None }
    }
    /// An operator of `n` elements, with its subscripts and superscripts.
    fn operator(&mut self, n: usize, scripts: bool) -> Ref {
        let mut op = Ref::Leaf(self.k.operator, self.at, self.at + n);
        self.at += n;
        self.spaces();
        while scripts {
            if let Some(i) = self.container(InputNodeVariant::Sub) { op = Ref::Node(self.k.sub, vec![op, Ref::Cells(self.k.operator, i)]); }
            else if let Some(i) = self.container(InputNodeVariant::Sup) { op = Ref::Node(self.k.sup, vec![op, Ref::Cells(self.k.operator, i)]); }
            else { break; }
        }
        op
    }
    fn word(&self, kinds: &[u8]) -> Option<SyntaxNodeNameId> {
        for w in &self.ids.words { if kinds.contains(&w.1) && self.is(self.at, w.0) { return Some(w.2); } }
        None
    }
    /// equality: comparison ('=' comparison)*
    fn level(&mut self, l: u8) -> Option<Ref> {
        if l == 7 { return self.signed(); }
        let mut left = self.level(l + 1)?;
        loop {
            self.spaces();
            let name = match self.word(&[l]) { Some(n) => n, None => return Some(left) };
            let op = self.operator(1, true);
            let right = self.level(l + 1)?;
            left = Ref::Node(name, vec![left, op, right]);
        }
    }
    fn text(&self, s: &str) -> bool { for (i, c) in s.chars().enumerate() { if !self.one(self.at + i, |b| b == c as u8) { return false; } } true }
    /// signed: ('+' | '-') signed | big-operator product | operand
    fn signed(&mut self) -> Option<Ref> {
        self.spaces();
        let n = &self.ids;
        let big = if self.text("limsup") { Some((n.limsup, 6)) } else if self.text("liminf") { Some((n.liminf, 6)) } else if self.text("lim") { Some((n.lim, 3)) } else { self.word(&[1]).map(|n| (n, 1)) };
        if let Some((name, len)) = big {
            let op = self.operator(len, true);
            let right = self.level(6)?;
            return Some(Ref::Node(name, vec![op, right]));
        }
        if let Some(name) = self.word(&[2]) {
            let op = self.operator(1, true);
            let right = self.signed()?;
            return Some(Ref::Node(name, vec![op, right]));
        }
        let mut left = self.operand()?;
        loop {
            self.spaces();
            let name = if self.one(self.at, |b| b == b'!') { self.ids.factorial } else if self.one(self.at, |b| b == b'^') { self.ids.exponent } else { self.k.unknown };
            if name != self.k.unknown { let op = self.operator(1, false); left = Ref::Node(name, vec![left, op]); continue; }
            if let Some(i) = self.container(InputNodeVariant::Sup) { left = Ref::Node(self.k.sup, vec![left, Ref::Cells(self.k.operator, i)]); continue; }
            if let Some(i) = self.container(InputNodeVariant::Sub) { left = Ref::Node(self.k.sub, vec![left, Ref::Cells(self.k.operator, i)]); continue; }
            if self.one(self.at, |b| b == b'(') { let op = self.brackets(self.k.operator)?; left = Ref::Node(self.ids.apply, vec![left, op]); continue; }
            return Some(left);
        }
    }
    fn brackets(&mut self, name: SyntaxNodeNameId) -> Option<Ref> {
        let open = Ref::Leaf(self.k.operator, self.at, self.at + 1);
        self.at += 1;
        let mut v = vec![open];
        if !self.one(self.at, |b| b == b')') { v.push(self.level(3)?); self.spaces(); }
        if !self.one(self.at, |b| b == b')') { return None; }
        v.push(Ref::Leaf(self.k.operator, self.at, self.at + 1));
        self.at += 1;
        Some(Ref::Node(name, v))
    }
    fn operand(&mut self) -> Option<Ref> {
        let from = self.at;
        for (kind, name) in [(InputNodeVariant::Fraction, self.k.fraction), (InputNodeVariant::Root, self.k.root), (InputNodeVariant::Table, self.k.table)] {
            if let Some(i) = self.container(kind) { return Some(Ref::Cells(name, i)); }
        }
        if let Some(name) = self.word(&[0]) { self.at += 1; return Some(Ref::Leaf(name, from, self.at)); }
        if self.one(from, |b| b == b'(') { return self.brackets(self.ids.brackets); }
        if self.one(from, |b| b == b'"') {
            self.at += 1;
            loop {
                if self.one(self.at, |b| b == b'"') { self.at += 1; return Some(Ref::Leaf(self.ids.string, from, self.at)); }
                if self.one(self.at, |b| b == b'\\') { self.at += 1; }
                self.symbol(self.at)?;
                self.at += 1;
            }
        }
        let digit = |b: u8| b.is_ascii_digit();
        if self.one(from, digit) {
            while self.one(self.at, digit) { self.at += 1; }
            if self.one(self.at, |b| b == b'.') && self.one(self.at + 1, digit) { self.at += 1; while self.one(self.at, digit) { self.at += 1; } }
            return Some(Ref::Leaf(self.ids.number, from, self.at));
        }
        if self.one(from, |b| b.is_ascii_alphabetic()) {
            while self.one(self.at, |b| b.is_ascii_alphanumeric() || b == b'_') { self.at += 1; }
            return Some(Ref::Leaf(self.ids.variable, from, self.at));
        }
        None
    }
}

/// Without the spaces around a token.
fn bare<'a>(t: &'a SyntaxNode, k: &Known) -> &'a SyntaxNode {
    if t.name != k.whitespaces { return t; }
    match &t.children {
        SyntaxNodeChildren::Children(c) => {
            let mut inner = None;
            for n in c { if n.name != k.whitespace { check(inner.is_none(), "spaces surround one token"); inner = Some(n); } }
            bare(inner.expect("spaces surround one token"), k)
        }
        _ => panic!("spaces surround one token"),
    }
}

fn agrees(r: &Ref, t: &SyntaxNode, k: &Known) -> bool {
    let t = bare(t, k);
    match (r, &t.children) {
        (Ref::Leaf(name, a, b), SyntaxNodeChildren::Leaf(_)) => t.name == *name && t.range() == (*a..*b),
        (Ref::Cells(name, i), SyntaxNodeChildren::NewRows(_)) => t.name == *name && t.range() == (*i..*i + 1),
        (Ref::Node(name, v), SyntaxNodeChildren::Children(c)) => t.name == *name && v.len() == c.len() && v.iter().zip(c).all(|(x, y)| agrees(x, y, k)),
        _ => false,
    }
}

/// Whether something is marked as wrong in this row (not: in its cells).
pub fn has_error(t: &SyntaxNode, k: &Known) -> bool {
    if t.name == k.unknown || t.name == k.missing || t.name == k.missing_operator || t.name == k.nothing { return true; }
    match &t.children { SyntaxNodeChildren::Children(c) => c.iter().any(|n| has_error(n, k)), _ => false }
}

/// The row parses to the tree of the reference grammar, or is marked as wrong.
pub fn meaning(row: impl FnOnce() -> InputRow) {
    expect(&["expression"]);
    let (p, names) = full_parser();
    let row = row();
    let k = Known::new(&names);
    let ids = Ids::new(&names);
    let t = p.parse(&row.values);
    let mut r = Reference { row: &row.values, at: 0, k: &k, ids: &ids };
    let want = r.level(3);
    r.spaces();
    match want {
        Some(w) if r.at == row.values.len() => { check(agrees(&w, &t, &k), "the tree is that of the grammar"); check(!has_error(&t, &k), "nothing is wrong with an expression"); reach("expression"); }
        _ => { check(has_error(&t, &k), "what is not an expression is marked as wrong"); reach("no expression"); }
    }
}

/// An element for a letter of a palette: containers by special letters, else the symbol itself.
pub fn element(c: char) -> InputNode {
    let a = || InputRow::new(vec![InputNode::Symbol("a".into())]);
    let e = || InputRow::new(vec![]);
    match c {
        '⇩' => InputNode::sub(a()), '⇧' => InputNode::sup(a()), '÷' => InputNode::fraction([a(), e()]), '√' => InputNode::root([e(), a()]), '▦' => InputNode::table(vec![a(), e()], 1),
        c => InputNode::Symbol(c.to_string()),
    }
}
/// Any element of the palette: a plain character stays a solver variable.
pub fn one_of(set: &[char]) -> InputNode {
    let plain: Vec<u8> = set.iter().filter(|c| c.is_ascii()).map(|c| *c as u8).collect();
    let other: Vec<char> = set.iter().filter(|c| !c.is_ascii()).copied().collect();
    let k = if plain.is_empty() { choose(other.len()) } else { choose(other.len() + 1) };
    if k < other.len() { return element(other[k]); }
    let b = any_u8();
    let mut ok = false;
    for x in &plain { ok |= b == *x; }
    assume(ok);
    InputNode::Symbol(unsafe { String::from_utf8_unchecked(vec![b]) })
}
/// Rows of `min` to `max` elements of the palette.
pub fn palette(min: usize, max: usize, from: &str) -> InputRow {
    let set: Vec<char> = from.chars().collect();
    let mut v = vec![];
    for _ in 0..pick(min, max) { v.push(one_of(&set)); }
    InputRow::new(v)
}
/// Rows of `n` symbols of any ASCII characters.
pub fn ascii_row(n: usize) -> InputRow { let mut v = vec![]; for _ in 0..n { v.push(sym_node()); } InputRow::new(v) }
/// Well-formed rows: `n` operands joined by operators, each perhaps with a sign before and a postfix behind it.
pub fn expression(n: usize, infix: &str, prefix: &str, postfix: &str) -> InputRow {
    let (i, p, q): (Vec<char>, Vec<char>, Vec<char>) = (infix.chars().collect(), prefix.chars().collect(), postfix.chars().collect());
    let mut v = vec![];
    for k in 0..n {
        if k > 0 { v.push(one_of(&i)); }
        let c = choose(1 + !p.is_empty() as usize);
        if c > 0 { v.push(one_of(&p)); }
        v.push(element((b'a' + k as u8) as char));
        let c = choose(1 + !q.is_empty() as usize);
        if c > 0 { v.push(one_of(&q)); }
    }
    InputRow::new(v)
}

// ---- rules with any strengths ------------------------------------------------------------------

/// An operator: its name, its character, and how strongly it holds what is left and right of it (if anything is).
struct Operator { name: SyntaxNodeNameId, text: char, left: Option<usize>, right: Option<usize> }
pub struct Custom { pub rules: Vec<ParseRule> }
impl ParseModule for Custom {
    fn get_module_name(&self) -> &str { "Custom" }
    fn get_rules(&self) -> &[ParseRule] { &self.rules }
    fn get_autocomplete_rules(&self) -> &[parser::autocomplete::AutocompleteRule] { &[] }
}
pub fn parser_of(mut m: ParseModules, rules: impl FnOnce(&mut ParseModules, SyntaxNodeNameId) -> Vec<Vec<ParseRule>>) -> (MathParser, Names, Known) {
    use std::rc::Rc;
    let b = Rc::new(parser::rule_collections::built_in_rules::BuiltInRules::new(&mut m));
    let mut v: Vec<Rc<dyn ParseModule>> = vec![b.clone()];
    for r in rules(&mut m, b.operator_rule_name) { v.push(Rc::new(Custom { rules: r })); }
    let p = MathParser::new(ParseModuleCollection::new(b, v));
    p.parse(&[]);
    let n = Names(m);
    let k = Known::new(&n);
    (p, n, k)
}
fn name(m: &mut ParseModules, s: &str) -> SyntaxNodeNameId { m.with_rule_name(PathIdentifier::new(vec!["Custom".into(), s.into()])) }

/// Rows of up to `max` elements over an atom `a` and the operators named in `ops` (p prefix, l left-associative infix, r
/// right-associative infix, q postfix, m left-associative infix, and - both prefix and infix; brackets), all strengths any.
pub fn strengths(max: usize, ops: &str, well_formed: bool) {
    let mut all: Vec<Operator> = vec![];
    let (p, _, k) = parser_of(ParseModules::new(), |m, operator| {
        let mut v = vec![atom_rule(name(m, "Atom"), just_symbol_parser('a'))];
        for c in ops.chars() {
            let s = || any_u16();
            // a left-associative operator holds its right side more strongly than its left
            let (weak, strong) = (|s: u16| Some(2 * s as usize), |s: u16| Some(2 * s as usize + 1));
            match c {
                'p' => { let (n, s) = (name(m, "P"), s()); v.push(prefix_rule(n, s, just_operator_parser('p'))); all.push(Operator { name: n, text: 'p', left: None, right: strong(s) }); }
                'q' => { let (n, s) = (name(m, "Q"), s()); v.push(postfix_rule(n, s, just_operator_parser('q'))); all.push(Operator { name: n, text: 'q', left: strong(s), right: None }); }
                't' => { let (n, s) = (name(m, "T"), s()); v.push(postfix_rule(n, s, just_operator_parser('t'))); all.push(Operator { name: n, text: 't', left: strong(s), right: None }); }
                'l' => { let (n, s) = (name(m, "L"), s()); v.push(left_infix_rule(n, s, just_operator_parser('l'))); all.push(Operator { name: n, text: 'l', left: weak(s), right: strong(s) }); }
                'm' => { let (n, s) = (name(m, "M"), s()); v.push(left_infix_rule(n, s, just_operator_parser('m'))); all.push(Operator { name: n, text: 'm', left: weak(s), right: strong(s) }); }
                'r' => { let (n, s) = (name(m, "R"), s()); v.push(right_infix_rule(n, s, just_operator_parser('r'))); all.push(Operator { name: n, text: 'r', left: strong(s), right: weak(s) }); }
                's' => { let (n, s) = (name(m, "S"), s()); v.push(right_infix_rule(n, s, just_operator_parser('s'))); all.push(Operator { name: n, text: 's', left: strong(s), right: weak(s) }); }
                '-' => {
                    let (n, s, o, t) = (name(m, "Sign"), s(), name(m, "Minus"), s());
                    v.push(prefix_rule(n, s, just_operator_parser('-')));
                    v.push(left_infix_rule(o, t, just_operator_parser('-')));
                    all.push(Operator { name: n, text: '-', left: None, right: strong(s) });
                    all.push(Operator { name: o, text: '-', left: weak(t), right: strong(t) });
                }
                _ => { let n = name(m, "Brackets"); v.push(atom_rule(n, make_brackets_parser(operator, "(", ")"))); }
            }
        }
        vec![v]
    });
    all.push(Operator { name: k.missing_operator, text: ' ', left: Some(200), right: Some(201) });
    let letters: Vec<char> = "a".chars().chain(ops.chars()).chain(if ops.contains('(') { Some(')') } else { None }).collect();
    let row = if well_formed {
        // operand (infix operand)*, an operand being prefixes, the atom, postfixes
        let class = |f: fn(&Operator) -> bool| -> Vec<char> { let mut v: Vec<char> = vec![]; for o in &all { if f(o) && o.text != ' ' { v.push(o.text); } } v };
        let (pre, inf, post) = (class(|o| o.left.is_none()), class(|o| o.left.is_some() && o.right.is_some()), class(|o| o.right.is_none()));
        let mut v = vec![];
        loop {
            if !pre.is_empty() && choose(2) == 1 { v.push(one_of(&pre)); }
            v.push(element('a'));
            if !post.is_empty() && choose(2) == 1 { v.push(one_of(&post)); }
            if v.len() + 2 > max || choose(2) == 0 { break; }
            v.push(one_of(&inf));
        }
        InputRow::new(v)
    } else {
        let mut v = vec![];
        for _ in 0..pick(1, max) { v.push(one_of(&letters)); }
        InputRow::new(v)
    };
    let t = p.parse(&row.values);
    covers(&row, &t, &k);
    // what is not known attaches without regard to strength
    if any_node(&t, &|n| n.name == k.unknown) { reach("unknown"); stop(); }
    ordered(&t, &all, &k);
    // no operator and no operand is missing exactly when operators and operands alternate
    if well_formed { check(!has_error(&t, &k), "nothing is missing where operators and operands alternate"); reach("well-formed"); }
    else if !ops.contains('(') {
        let mut operand = true;
        let mut good = true;
        for n in &row.values {
            let c = match n { InputNode::Symbol(s) => s.as_bytes()[0] as char, _ => ' ' };
            let role = |f: &dyn Fn(&Operator) -> bool| { let mut r = false; for o in &all { r |= (o.text == c) & f(o); } r };
            if operand {
                if c == 'a' { operand = false; } else if !role(&|o| o.left.is_none()) { good = false; break; }
            } else if role(&|o| o.left.is_some() && o.right.is_some()) { operand = true; } else if !role(&|o| o.right.is_none()) { good = false; break; }
        }
        check(has_error(&t, &k) == (!good | operand), "something is missing exactly where operators and operands do not alternate");
    }
}
fn any_node(t: &SyntaxNode, f: &dyn Fn(&SyntaxNode) -> bool) -> bool {
    if f(t) { return true; }
    match &t.children { SyntaxNodeChildren::Children(c) => c.iter().any(|n| any_node(n, f)), _ => false }
}
fn children(t: &SyntaxNode) -> &[SyntaxNode] { match &t.children { SyntaxNodeChildren::Children(c) => c, _ => &[] } }
fn ordered(t: &SyntaxNode, all: &[Operator], k: &Known) {
    let c = children(t);
    for n in c { ordered(n, all, k); }
    let of = |t: &SyntaxNode| all.iter().find(|o| o.name == t.name);
    let o = match of(t) { Some(o) => o, None => return };
    check(c.len() == 1 + o.left.is_some() as usize + o.right.is_some() as usize, "an operator has its operands");
    let op = &c[o.left.is_some() as usize];
    if o.name != k.missing_operator {
        check(op.name == k.operator && of(op).is_none(), "the operator itself stands between or beside its operands");
        match &op.children { SyntaxNodeChildren::Leaf(l) => check(l.node_type == LeafNodeType::Operator, "an operator leaf is marked as one"), _ => check(false, "the operator itself is a leaf") }
    } else { check(op.name == k.missing, "a missing operator stands between its operands"); }
    reach("operator");
    if let Some(strength) = o.right {
        // what begins the right operand and takes its left side from there must hold that more strongly
        let mut x = &c[c.len() - 1];
        while let Some(y) = of(x) {
            match y.left { Some(l) => { check(l >= strength, "what is inside a right operand binds more strongly than the operator"); reach("inside right"); x = &children(x)[0]; } None => break }
        }
    }
    if let Some(strength) = o.left {
        let mut x = &c[0];
        while let Some(y) = of(x) {
            match y.right { Some(r) => { check(strength < r, "what is inside a left operand binds more strongly than the operator"); reach("inside left"); let d = children(x); x = &d[d.len() - 1]; } None => break }
        }
    }
}

// ---- spaces, brackets, cells -------------------------------------------------------------------

/// The same names and texts when spaces are left out; `map` says where each element of the first row is in the second.
fn same_but_spaces(a: &SyntaxNode, b: &SyntaxNode, k: &Known, map: &[usize]) -> bool {
    let (a, b) = (bare(a, k), bare(b, k));
    if a.name != b.name { return false; }
    match (&a.children, &b.children) {
        (SyntaxNodeChildren::Children(x), SyntaxNodeChildren::Children(y)) => x.len() == y.len() && x.iter().zip(y).all(|(p, q)| same_but_spaces(p, q, k, map)),
        (SyntaxNodeChildren::Leaf(x), SyntaxNodeChildren::Leaf(y)) => {
            let (r, s) = (a.range(), b.range());
            x.node_type == y.node_type && same_text(&x.symbols, &y.symbols) && s.start == map[r.start] && s.end == map[r.end - 1] + 1
        }
        (SyntaxNodeChildren::NewRows(x), SyntaxNodeChildren::NewRows(y)) => b.range().start == map[a.range().start] && x.size() == y.size() && x.values().zip(y.values()).all(|(p, q)| same_tree(p, q)),
        _ => false,
    }
}
/// Spaces between the tokens of an expression change nothing but where things are.
pub fn spaces(most: usize, row: impl FnOnce() -> InputRow) {
    let (p, names) = full_parser();
    let k = Known::new(&names);
    let row = row();
    let a = p.parse(&row.values);
    if has_error(&a, &k) { reach("not an expression"); stop(); }
    let mut v = vec![];
    let mut map = vec![];
    for (i, n) in row.values.iter().enumerate() {
        // between tokens; empty brackets are one token
        let close = i > 0 && matches!((n, &row.values[i - 1]), (InputNode::Symbol(x), InputNode::Symbol(y)) if x == ")" && y == "(");
        if find_leaf(&a, i).range().start == i && !close { for _ in 0..pick(0, most) { v.push(element(' ')); } }
        map.push(v.len());
        v.push(n.clone());
    }
    for _ in 0..pick(0, most) { v.push(element(' ')); }
    let b = p.parse(&v);
    check(same_but_spaces(&a, &b, &k, &map), "spaces between tokens change nothing but where things are");
    reach("spaced");
}

/// The same tree, moved to the right.
fn moved(a: &SyntaxNode, b: &SyntaxNode, by: usize) -> bool {
    if a.name != b.name || a.range().start + by != b.range().start || a.range().end + by != b.range().end { return false; }
    match (&a.children, &b.children) {
        (SyntaxNodeChildren::Children(x), SyntaxNodeChildren::Children(y)) => x.len() == y.len() && x.iter().zip(y).all(|(p, q)| moved(p, q, by)),
        (SyntaxNodeChildren::NewRows(x), SyntaxNodeChildren::NewRows(y)) => x.size() == y.size() && x.values().zip(y.values()).all(|(p, q)| same_tree(p, q)),
        (SyntaxNodeChildren::Leaf(x), SyntaxNodeChildren::Leaf(y)) => x.node_type == y.node_type && same_text(&x.symbols, &y.symbols),
        _ => false,
    }
}
/// What stands in brackets is parsed as on its own, whatever stands around them.
pub fn bracketed(row: impl FnOnce() -> InputRow) {
    expect(&["in brackets"]);
    let (p, names) = full_parser();
    let brackets = names.id("Core", "RoundBrackets");
    let apply = names.id("Function", "FunctionApplication");
    let row = row();
    for n in &row.values { if let InputNode::Symbol(s) = n { for b in s.as_bytes() { assume((*b != b'(') & (*b != b')') & (*b != b'"')); } } }
    let alone = p.parse(&row.values);
    // before the brackets: nothing, an operator, or a function
    let before = choose(3);
    let mut v = vec![];
    if before == 1 { v.push(element('-')); }
    if before == 2 { v.push(element('f')); }
    v.push(element('('));
    let by = v.len();
    v.extend(row.values.iter().cloned());
    v.push(element(')'));
    if choose(2) == 1 { v.push(element('!')); }
    let t = p.parse(&v);
    let inner = find(&t, by - 1..by + row.values.len() + 1);
    let inner = match inner { Some(n) => n, None => { check(false, "brackets are recognised"); return; } };
    let c = children(inner);
    check(c.len() == 3, "brackets have a content");
    if before == 2 { check(t.name == apply || children(&t)[0].name == apply, "brackets behind an operand apply it"); } else { check(inner.name == brackets, "brackets are named so"); }
    check(moved(&alone, &c[1], by), "what stands in brackets is parsed as on its own");
    reach("in brackets");
}
fn find(t: &SyntaxNode, r: std::ops::Range<usize>) -> Option<&SyntaxNode> {
    if t.range() == r { return Some(t); }
    for c in children(t) { if let Some(n) = find(c, r.clone()) { return Some(n); } }
    None
}
/// Every cell is parsed as on its own, at every level.
pub fn cells_alone(row: impl FnOnce() -> InputRow) {
    expect(&["cell"]);
    let (p, _) = full_parser();
    let row = row();
    let t = p.parse(&row.values);
    each_cell(&row, &t, &p);
}
fn each_cell(row: &InputRow, t: &SyntaxNode, p: &MathParser) {
    match &t.children {
        SyntaxNodeChildren::Children(c) => for n in c { each_cell(row, n, p); },
        SyntaxNodeChildren::NewRows(g) => {
            let cs = crate::gen::cells(&row.values[t.range().start]);
            for (a, b) in cs.iter().zip(g.values()) {
                check(same_tree(&p.parse(&a.values), b), "a cell is parsed as on its own");
                reach("cell");
                each_cell(a, b, p);
            }
        }
        SyntaxNodeChildren::Leaf(_) => {}
    }
}

// ---- modules and names -------------------------------------------------------------------------

/// A text of `n` symbols of any ASCII characters.
fn any_text(n: usize) -> Vec<u8> { let mut v = vec![]; for _ in 0..n { let b = any_u8(); assume((b < 128) & (b != b' ')); v.push(b); } v }
fn symbols(t: &[u8]) -> Vec<String> { t.iter().map(|b| unsafe { String::from_utf8_unchecked(vec![*b]) }).collect() }
/// Several rules of one role whose texts overlap, in two modules: the last one that matches is used.
pub fn priority(rules: usize, long: usize) {
    expect(&["matched", "no match"]);
    let role = choose(4);
    let split = choose(rules + 1);
    let mut texts = vec![];
    let mut ids = vec![];
    let (p, _, k) = parser_of(ParseModules::new(), |m, _| {
        let mut v = vec![vec![], vec![]];
        // the other operand; it is no text of a rule
        if role > 0 { v[0].push(atom_rule(name(m, "Other"), just_symbol_parser('0'))); }
        for i in 0..rules {
            let l = pick(1, long);
            let t = any_text(l);
            for b in &t { assume(*b != b'0'); }
            let n = name(m, ["A", "B", "C", "D"][i]);
            let s = symbols(&t);
            v[(i >= split) as usize].push(match role { 0 => atom_rule(n, just_symbol_parser(s)), 1 => prefix_rule(n, 100, just_operator_parser(s)), 2 => left_infix_rule(n, 100, just_operator_parser(s)), _ => postfix_rule(n, 100, just_operator_parser(s)) });
            texts.push(t);
            ids.push(n);
        }
        v
    });
    let count = pick(1, long);
    let text = any_text(count);
    for b in &text { assume(*b != b'0'); }
    let mut v = vec![];
    if role >= 2 { v.push(element('0')); }
    for s in symbols(&text) { v.push(InputNode::Symbol(s)); }
    if role == 1 || role == 2 { v.push(element('0')); }
    let t = p.parse(&v);
    // the last rule whose text is a beginning of what is there
    let mut want = None;
    for i in 0..rules {
        let mut d = (texts[i].len() > count) as u8;
        for j in 0..texts[i].len().min(count) { d |= texts[i][j] ^ text[j]; }
        if d == 0 { want = Some(i); }
    }
    // the first token behind the operand, if any
    match want {
        Some(i) => {
            let at = (role >= 2) as usize;
            let leaf = find_leaf(&t, at);
            check(leaf.range() == (at..at + texts[i].len()), "the last rule that matches takes its text");
            check(any_node(&t, &|n| n.name == ids[i]), "the last rule that matches is used");
            for j in 0..rules { if j < i && texts[i].len() == count { check(!any_node(&t, &|n| n.name == ids[j]), "an earlier rule is not used"); } }
            reach("matched");
        }
        None => { check(has_error(&t, &k), "what no rule matches is marked as wrong"); reach("no match"); }
    }
}
fn find_leaf(t: &SyntaxNode, at: usize) -> &SyntaxNode {
    match &t.children {
        SyntaxNodeChildren::Children(c) => { for n in c { if n.range().start <= at && at < n.range().end { return find_leaf(n, at); } } t }
        _ => t,
    }
}

/// Rule names and their ids.
pub fn names(count: usize) {
    let paths = [vec!["A", "B"], vec!["A", "C"], vec!["B", "B"], vec!["A", "B", "C"], vec!["AB", "C"], vec!["A", "BC"], vec!["a", "B"]];
    let path = |i: usize| PathIdentifier::new(paths[i].iter().map(|s| s.to_string()).collect());
    let mut m = ParseModules::new();
    let mut known: Vec<(usize, SyntaxNodeNameId)> = vec![];
    for _ in 0..count {
        let i = choose(paths.len());
        let id = m.with_rule_name(path(i));
        match known.iter().find(|k| k.0 == i) {
            Some(k) => { check(k.1 == id, "a name keeps its id"); reach("again"); }
            None => { check(known.iter().all(|k| k.1 != id), "different names have different ids"); known.push((i, id)); }
        }
        for (j, id) in &known {
            check(m.get_rule_name(path(*j)) == *id, "a name is found");
            check(m.get_rule_name_map().get(&path(*j)) == Some(*id), "a name is found in the map");
            check(m.get_rule_name_map().get_reverse(*id) == Some(&path(*j)), "an id leads back to its name");
        }
        for j in 0..paths.len() { if !known.iter().any(|k| k.0 == j) { check(m.get_rule_name_map().get(&path(j)).is_none(), "an unknown name has no id"); } }
    }
}

// ---- printing ----------------------------------------------------------------------------------

/// Reads a printed tree along the tree it should be of.
struct Reading<'a> { text: &'a [u8], at: usize, names: &'a Names }
impl<'a> Reading<'a> {
    fn take(&mut self, b: u8, what: &'static str) { check(self.at < self.text.len() && self.text[self.at] == b, what); self.at += 1; }
    fn word(&mut self) -> &'a [u8] {
        let from = self.at;
        while self.at < self.text.len() && !matches!(self.text[self.at], b' ' | b'(' | b')') { self.at += 1; }
        &self.text[from..self.at]
    }
    fn number(w: &[u8]) -> Option<usize> { let mut n = 0; if w.is_empty() { return None; } for b in w { if !b.is_ascii_digit() { return None; } n = 10 * n + (*b - b'0') as usize; } Some(n) }
    fn node(&mut self, t: &SyntaxNode) {
        self.take(b'(', "a printed node begins with a bracket");
        let name = self.word();
        let path: Vec<String> = String::from_utf8(name.to_vec()).unwrap().split("::").map(|s| s.to_string()).collect();
        check(path.len() > 1, "a printed node has a qualified name");
        check(self.names.0.get_rule_name_map().get(&PathIdentifier::new(path)) == Some(t.name), "a printed node has the name of the node");
        match &t.children {
            SyntaxNodeChildren::Children(c) => for n in c { self.take(b' ', "printed children are separated"); self.node(n); },
            SyntaxNodeChildren::NewRows(g) => if g.values().next().is_some() {
                self.take(b' ', "printed cells are separated");
                let w = self.word();
                let x = w.iter().position(|b| *b == b'x');
                let size = x.and_then(|x| Some((Self::number(&w[..x])?, Self::number(&w[x + 1..])?)));
                check(size == Some(g.size()), "a printed node with cells tells how many");
                for n in g.values() { self.take(b' ', "printed cells are separated"); self.node(n); }
                reach("cells");
            },
            SyntaxNodeChildren::Leaf(l) => {
                self.take(b' ', "a printed text is separated");
                self.take(b'"', "a printed text is in quotes");
                let mut got = vec![];
                while self.at < self.text.len() && self.text[self.at] != b'"' {
                    if self.text[self.at] == b'\\' { self.at += 1; reach("escaped"); }
                    check(self.at < self.text.len(), "a printed text ends");
                    got.push(self.text[self.at]);
                    self.at += 1;
                }
                self.take(b'"', "a printed text ends");
                let mut want = vec![];
                for s in &l.symbols { want.extend_from_slice(s.as_bytes()); }
                check(want.len() == got.len(), "a printed text is the text of the leaf");
                let mut d = 0;
                for i in 0..want.len() { d |= want[i] ^ got[i]; }
                check(d == 0, "a printed text is the text of the leaf");
                reach("text");
            }
        }
        self.take(b')', "a printed node ends with a bracket");
    }
}
/// A printed syntax tree reads back as the same tree.
pub fn printed(row: impl FnOnce() -> InputRow) {
    let (p, names) = full_parser();
    let row = row();
    let t = p.parse(&row.values);
    let s = t.with_display(names.0.get_rule_name_map()).to_string();
    let mut r = Reading { text: s.as_bytes(), at: 0, names: &names };
    r.node(&t);
    check(r.at == s.len(), "nothing else is printed");
}
/// Names of rules are paths of at least two identifiers.
pub fn identifiers(parts: usize, long: usize) {
    expect(&["a name", "no name"]);
    let mut v: Vec<String> = vec![];
    let mut good = true;
    let n = pick(0, parts);
    for _ in 0..n {
        let l = pick(0, long);
        let mut t = vec![];
        for i in 0..l {
            let b = any_u8();
            assume(b < 128);
            let letter = (b >= b'a') & (b <= b'z') | (b >= b'A') & (b <= b'Z');
            good &= letter | (i > 0) & ((b == b'_') | (b >= b'0') & (b <= b'9'));
            t.push(b);
        }
        good &= l > 0;
        v.push(unsafe { String::from_utf8_unchecked(t) });
    }
    good &= n > 1;
    if good {
        let s = PathIdentifier::new(v.clone()).to_string();
        let want = v.join("::");
        check(s.len() == want.len(), "a name is printed as its parts");
        let mut d = 0;
        for (a, b) in s.bytes().zip(want.bytes()) { d |= a ^ b; }
        check(d == 0, "a name is printed as its parts");
        reach("a name");
    } else {
        reach("no name");
        may_panic(|| PathIdentifier::new(v));
        check(false, "what is not a path of identifiers is refused");
    }
}
