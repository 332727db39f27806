//! C11: the printed form determines the tree.
use crate::{gen::*, sym::*};
use input_tree::{grid::*, node::*, row::*};

struct P<'a> { s: &'a [u8], i: usize }
impl P<'_> {
    fn lit(&mut self, t: &str) -> bool {
        let t = t.as_bytes();
        if self.s.len() - self.i < t.len() { return false; }
        let mut ok = true;
        for k in 0..t.len() { ok &= self.s[self.i + k] == t[k]; }
        if ok { self.i += t.len(); }
        ok
    }
    fn num(&mut self) -> Option<usize> {
        let mut n = 0;
        let mut any = false;
        while self.i < self.s.len() && self.s[self.i].is_ascii_digit() { n = n * 10 + (self.s[self.i] - b'0') as usize; self.i += 1; any = true; }
        if any { Some(n) } else { None }
    }
    fn row(&mut self) -> Option<InputRow> {
        if !self.lit("(row") { return None; }
        let mut v = vec![];
        loop {
            if self.lit(")") { return Some(InputRow::new(v)); }
            if !self.lit(" ") { return None; }
            v.push(self.node()?);
        }
    }
    fn node(&mut self) -> Option<InputNode> {
        if self.lit("\"") {
            let mut t = vec![];
            loop {
                if self.i >= self.s.len() { return None; }
                let mut c = self.s[self.i];
                self.i += 1;
                if c == b'"' { return Some(InputNode::Symbol(unsafe { String::from_utf8_unchecked(t) })); }
                if c == b'\\' {
                    if self.i >= self.s.len() { return None; }
                    c = self.s[self.i];
                    self.i += 1;
                    // `\"` and `\\` are the only escapes
                    if c != b'"' && c != b'\\' { return None; }
                }
                t.push(c);
            }
        }
        if !self.lit("(") { return None; }
        let v = if self.lit("frac ") { InputNodeVariant::Fraction } else if self.lit("root ") { InputNodeVariant::Root } else if self.lit("sup ") { InputNodeVariant::Sup } else if self.lit("sub ") { InputNodeVariant::Sub } else if self.lit("table ") { InputNodeVariant::Table } else { return None };
        let w = self.num()?;
        if !self.lit("x") { return None; }
        let h = self.num()?;
        let mut cells = vec![];
        for _ in 0..w * h {
            if !self.lit(" ") { return None; }
            cells.push(self.row()?);
        }
        if !self.lit(")") || w == 0 { return None; }
        Some(InputNode::Container(v, GridVec::from_one_dimensional(cells, w)))
    }
}

fn decoded(row: &InputRow) {
    let s = row.to_string();
    let mut p = P { s: s.as_bytes(), i: 0 };
    match p.row() {
        Some(r) => {
            check(p.i == p.s.len(), "nothing printed after the row");
            check(same_row(&r, row), "printed form reads back as the same row");
        }
        None => check(false, "printed form can be read back"),
    }
}

/// Any structure, any ASCII symbols.
pub fn structure(s: impl Source) {
    expect(&["container"]);
    let t = s.tree();
    for n in &t.root.values { if !cells(n).is_empty() { reach("container"); } }
    decoded(&t.root);
}

/// Any text in the symbols.
pub fn symbols(n: usize, chars: usize) {
    expect(&["done"]);
    let mut v = vec![];
    for _ in 0..n { v.push(text_node(chars)); }
    if any_bool() { v = vec![InputNode::sup(InputRow::new(v))]; }
    decoded(&InputRow::new(v));
    reach("done");
}

/// Tables of any size up to the bound.
pub fn tables(w: usize, h: usize) {
    expect(&["done"]);
    let (w, h) = (pick(1, w), pick(0, h));
    let t = InputNode::table((0..w * h).map(|i| InputRow::new(if i == 0 { vec![sym_node()] } else { vec![] })).collect(), w);
    decoded(&InputRow::new(vec![t]));
    reach("done");
}

/// Longer symbols made of the characters that matter, and one of any length.
pub fn texts(max: usize, long: usize) {
    expect(&["short", "long"]);
    let v = if any_bool() {
        reach("short");
        let n = pick(0, max);
        let t: String = (0..n).map(|_| ['"', '\\', 'n', '\u{e9}', ')'][choose(5)]).collect();
        vec![InputNode::Symbol(t), InputNode::Symbol("a".into())]
    } else {
        reach("long");
        let n = pick(1, long);
        let at = choose(2);
        let t: String = (0..n).map(|i| if i == at * (n - 1) { '"' } else if i % 9 == 5 { '\\' } else { 'x' }).collect();
        vec![InputNode::Symbol(t)]
    };
    decoded(&InputRow::new(v));
}

/// Two documents print the same, and are equal, exactly if they are the same.
pub fn two(a: impl Source, b: impl Source) {
    expect(&["same", "different"]);
    let (x, y) = (a.tree().root, b.tree().root);
    let same = same_row(&x, &y);
    if same { reach("same"); } else { reach("different"); }
    check((x.to_string() == y.to_string()) == same, "two documents print the same exactly if they are the same");
    check((x == y) == same && (x != y) != same, "two documents are equal exactly if they are the same");
}
