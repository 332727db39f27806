//! What is exchanged with the page comes back as it was.
use crate::{gen::*, grammar::*, parse::*, sym::*};
use caret::{caret::*, primitive::{primitive_edit::*, *}};
use input_tree::{direction::*, focus::*, grid::*, input_tree::*, node::*, row::*};
use parser::{autocomplete::*, syntax_tree::*};
use serde::{de::DeserializeOwned, Serialize};
use serialization::*;

/// As plain data (what the page gets), or as text.
fn back<T: Serialize + DeserializeOwned>(x: &T, text: bool) -> Option<T> {
    if text { serde_json::from_str(&serde_json::to_string(x).ok()?).ok() } else { serde_json::from_value(serde_json::to_value(x).ok()?).ok() }
}
fn again<T: Serialize + DeserializeOwned>(x: &T, text: bool, same: impl FnOnce(&T, &T) -> bool) {
    match back(x, text) { None => check(false, "what is sent can be read again"), Some(y) => check(same(x, &y), "what is sent comes back unchanged") }
}
fn number(text: bool) -> usize { if text { [0, 10][choose(2)] } else { any_usize() } }
fn way(n: usize, text: bool) -> RowIndices {
    let k = pick(0, n);
    let mut v = vec![];
    for _ in 0..k { v.push(RowIndex(number(text), number(text))); }
    RowIndices::new(v)
}
fn same_way(a: &RowIndices, b: &RowIndices) -> bool {
    if a.len() != b.len() { return false; }
    let mut ok = true;
    for (x, y) in a.iter().zip(b.iter()) { ok &= (x.0 == y.0) & (x.1 == y.1); }
    ok
}
fn same_range(a: &MinimalInputRowRange, b: &MinimalInputRowRange) -> bool { same_way(&a.row_indices, &b.row_indices) & (a.start.0 == b.start.0) & (a.end.0 == b.end.0) }
fn same_block(a: &MinimalInputGridRange, b: &MinimalInputGridRange) -> bool { same_way(&a.row_indices, &b.row_indices) & (a.index == b.index) & same_rectangle(&a.range, &b.range) }
fn same_rectangle(a: &GridRectangle, b: &GridRectangle) -> bool { a == b }
fn rectangle(text: bool) -> GridRectangle {
    let (a, b, w) = (number(text), number(text), number(text));
    assume((a <= b) & (w > 0));
    GridRectangle::new(a..b, w)
}
/// Ways, positions, ranges, blocks of cells and selections with any numbers.
pub fn places(n: usize, text: bool) {
    match choose(9) {
        0 => again(&way(n, text), text, same_way),
        1 => again(&Offset(number(text)), text, |a, b| a.0 == b.0),
        2 => again(&MinimalInputRowPosition { row_indices: way(n, text), offset: Offset(number(text)) }, text, |a, b| same_way(&a.row_indices, &b.row_indices) & (a.offset.0 == b.offset.0)),
        3 => again(&MinimalInputRowRange { row_indices: way(n, text), start: Offset(number(text)), end: Offset(number(text)) }, text, same_range),
        4 => again(&rectangle(text), text, same_rectangle),
        5 => again(&MinimalInputGridRange { row_indices: way(n, text), index: number(text), range: rectangle(text) }, text, same_block),
        6 => again(&MinimalCaretSelection::Row(MinimalInputRowRange { row_indices: way(n, text), start: Offset(number(text)), end: Offset(number(text)) }), text, |a, b| matches!((a, b), (MinimalCaretSelection::Row(x), MinimalCaretSelection::Row(y)) if same_range(x, y))),
        7 => again(&MinimalCaretSelection::Grid(MinimalInputGridRange { row_indices: way(n, text), index: number(text), range: rectangle(text) }), text, |a, b| matches!((a, b), (MinimalCaretSelection::Grid(x), MinimalCaretSelection::Grid(y)) if same_block(x, y))),
        _ => {
            let (w, h) = (pick(1, 3), pick(0, 2));
            let mut v = vec![];
            for _ in 0..w * h { v.push(number(text)); }
            again(&GridVec::from_one_dimensional(v, w), text, |a, b| {
                if a.size() != b.size() { return false; }
                let mut ok = true;
                for (x, y) in a.values().zip(b.values()) { ok &= x == y; }
                ok
            })
        }
    }
}
/// Everything that is one of a few.
pub fn choices() {
    let text = choose(2) == 1;
    match choose(7) {
        0 => again(&[Direction::Left, Direction::Right, Direction::Up, Direction::Down][choose(4)], text, |a, b| a == b),
        1 => again(&[HorizontalDirection::Left, HorizontalDirection::Right][choose(2)], text, |a, b| a == b),
        2 => again(&[VerticalDirection::Up, VerticalDirection::Down][choose(2)], text, |a, b| a == b),
        3 => again(&[MoveMode::Char, MoveMode::Word, MoveMode::Line][choose(3)], text, |a, b| a == b),
        4 => again(&[CaretRemoveMode::Range, CaretRemoveMode::Left, CaretRemoveMode::Right][choose(3)], text, |a, b| a == b),
        5 => again(&SerializedDataType::JsonInputTree, text, |a, b| a == b),
        _ => {
            use InputNodeVariant::*;
            again(&[Fraction, Root, Sup, Sub, Table][choose(5)], text, |a, b| *a as u8 == *b as u8)
        }
    }
}
/// Documents.
pub fn documents(s: impl Source) {
    let t: InputTree = s.tree();
    let row = t.root;
    again(&row, false, same_row);
    match serde_json::to_value(&row.values).ok().and_then(|v| serde_json::from_value::<Vec<InputNode>>(v).ok()) { Some(n) => check(same_nodes(&n, &row.values), "what is sent comes back unchanged"), None => check(false, "what is sent can be read again") }
}
/// Syntax trees.
pub fn trees(row: impl FnOnce() -> InputRow, text: bool) {
    let (p, _) = full_parser();
    let row = row();
    let t: SyntaxNode = p.parse(&row.values);
    again(&t, text, same_tree);
}
/// Rules of autocompletion.
pub fn rules(s: impl Source, long: usize) {
    let n = pick(1, long);
    let mut b = vec![];
    for _ in 0..n { let x = any_u8(); assume(x < 128); b.push(x); }
    let r = AutocompleteRule::new(unsafe { String::from_utf8_unchecked(b) }, s.tree().root.values);
    let text = choose(2) == 1;
    again(&r, text, |a, b| {
        let (x, y) = (a.parser.as_bytes(), b.parser.as_bytes());
        if x.len() != y.len() { return false; }
        let mut d = 0;
        for i in 0..x.len() { d |= x[i] ^ y[i]; }
        (d == 0) & same_nodes(&a.result, &b.result)
    });
}
