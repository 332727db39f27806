//! C30: how often the parser looks at the elements of a row.
use crate::{gen::*, grammar::palette, parse::*, sym::*};
use chumsky::input::LOOKS;
use input_tree::{node::*, row::*};
use std::sync::atomic::Ordering::Relaxed;

/// How often an element may be looked at.
const EACH: usize = 400;

fn elements(r: &InputRow) -> usize {
    1 + r.values.iter().map(|n| 1 + cells(n).iter().map(|c| elements(c)).sum::<usize>()).sum::<usize>()
}
fn parsed(row: &InputRow) {
    let (p, _) = full_parser();
    let before = LOOKS.load(Relaxed);
    p.parse(&row.values);
    let looks = LOOKS.load(Relaxed) - before;
    check(looks <= EACH * elements(row), "the effort of parsing is in proportion to the length");
    reach("parsed");
}
/// No opening bracket lacks its closing one.
fn closed(r: &InputRow) -> bool {
    let mut open = 0;
    for n in &r.values {
        if let InputNode::Symbol(s) = n {
            match s.as_str() { "(" => open += 1, ")" => open -= (open > 0) as usize, _ => {} }
        }
    }
    open == 0
}

/// Any row of up to `n` of these elements in which every bracket is closed.
pub fn any_row(n: usize) {
    expect(&["parsed"]);
    let row = palette(1, n, "a+-(),!⇧÷ ?");
    if !closed(&row) { kill(); }
    parsed(&row);
}

fn around(kind: usize, inner: InputRow) -> InputRow {
    let s = |c: &str| InputNode::symbol(c);
    let mut v = vec![];
    match kind {
        0..=4 | 9 => {
            v.extend(vec![vec![], vec![s("f")], vec![s("a"), s("+")], vec![s("-")], vec![s("∑"), s(" ")], vec![s("?")]].swap_remove(kind.min(5)));
            v.push(s("("));
            v.extend(inner.values);
            v.push(s(")"));
            if kind == 0 { v.push(s("!")); }
        }
        5 => v.push(InputNode::fraction([inner, InputRow::new(vec![])])),
        6 => { v.push(s("a")); v.push(InputNode::root([InputRow::new(vec![s("2")]), inner])) }
        7 => { v.push(s("a")); v.push(InputNode::sup(inner)) }
        _ => { v.push(s("+")); v.push(InputNode::sub(inner)); v.push(s("b")) }
    }
    InputRow::new(v)
}

/// `depth` levels of brackets and containers, alternating between two kinds, around any element.
pub fn nested(depth: usize) {
    expect(&["parsed"]);
    let (a, b) = (choose(9), choose(9));
    let mut row = palette(0, 1, "a?)");
    for i in 0..depth { row = around(if i % 2 == 0 { a } else { b }, row); }
    parsed(&row);
}

/// A row of up to three elements, repeated.
pub fn repeated(times: usize) {
    expect(&["parsed"]);
    let unit = palette(1, 3, "a1+-!,?⇧÷∑)=").values;
    let mut v = vec![];
    for _ in 0..times { v.extend(unit.iter().cloned()); }
    parsed(&InputRow::new(v));
}

/// Brackets that are not closed.
pub fn open(n: usize) {
    expect(&[]);
    parsed(&InputRow::new((0..n).map(|_| InputNode::symbol("(")).collect()));
}

/// Closed brackets, each directly behind a symbol that no rule knows.
pub fn unknown(depth: usize) {
    expect(&[]);
    let mut row = InputRow::new(vec![]);
    for _ in 0..depth { row = around(9, row); }
    parsed(&row);
}
