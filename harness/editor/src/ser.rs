//! Copied elements can be pasted again; damaged data is refused or harmless.
use crate::{gen::*, sym::*};
use input_tree::{grid::*, node::*, row::*};
use serialization::*;

fn write(nodes: &[InputNode]) -> Option<String> {
    match serialize_input_nodes(nodes, SerializedDataType::JsonInputTree) { Ok(t) => Some(t), Err(_) => { check(false, "serializing never fails"); None } }
}
fn read(text: String) -> Option<Vec<InputNode>> { deserialize_input_nodes(text, Some(SerializedDataType::JsonInputTree)).ok() }

fn round_of(nodes: &[InputNode]) {
    let text = match write(nodes) { Some(t) => t, None => return };
    match read(text) {
        Some(n) => check(same_nodes(&n, nodes), "what was serialized comes back unchanged"),
        None => check(false, "serialized elements can be deserialized"),
    }
}
pub fn round(s: impl Source) { let t = s.tree(); round_of(&t.root.values) }

/// Symbols of any characters, on their own or in a cell.
pub fn round_text(count: usize, max: usize) {
    let n = pick(1, count);
    let mut v = vec![];
    for _ in 0..n { v.push(text_node(max)); }
    if choose(2) == 1 { v = vec![InputNode::sup(InputRow::new(v))]; }
    round_of(&v)
}

/// Tables of any size, with empty cells.
pub fn round_table(w: usize, h: usize) {
    let (w, h) = (pick(1, w), pick(0, h));
    let mut v = vec![];
    let mut id = 0;
    for i in 0..w * h { v.push(InputRow::new(if i == w { vec![sym_node()] } else if i % 3 == 1 { vec![mark_node(&mut id)] } else { vec![] })); }
    round_of(&[InputNode::table(v, w)])
}

/// Every table is made of complete rows.
fn complete(nodes: &[InputNode]) -> bool {
    nodes.iter().all(|n| match n {
        InputNode::Symbol(_) => true,
        InputNode::Container(_, g) => {
            let (w, h) = g.size();
            let c = cells(n);
            w > 0 && c.len() == w * h && c.iter().all(|r| complete(&r.values))
        }
    })
}
fn small() -> Vec<InputNode> {
    let a = || InputRow::new(vec![InputNode::Symbol("a".into())]);
    let e = || InputRow::new(vec![]);
    match choose(3) {
        0 => vec![InputNode::table(vec![a(), e(), e(), a()], 2)],
        1 => vec![InputNode::Symbol("\"é".into()), InputNode::sup(a())],
        _ => vec![InputNode::fraction([InputRow::new(vec![InputNode::root([e(), e()])]), e()])],
    }
}

/// Tables that claim any width: refused unless all rows are complete.
pub fn any_width(count: usize) {
    expect(&["refused", "accepted"]);
    let n = pick(0, count);
    let mut text = String::from("{\"version\":1,\"data\":[{\"Container\":[\"Table\",{\"values\":[");
    for i in 0..n { if i > 0 { text.push(','); } text.push_str("{\"values\":[]}"); }
    text.push_str("],\"width\":");
    let d = pick(1, 2);
    let mut w = 0;
    for k in 0..d {
        let x = range(0, 9);
        // a number does not start with a zero
        if d == 2 && k == 0 { assume(x > 0); }
        w = w * 10 + x;
        let mut b = text.into_bytes();
        b.push(b'0' + x as u8);
        text = unsafe { String::from_utf8_unchecked(b) };
    }
    text.push_str("}]}]}");
    match read(text) {
        None => { reach("refused"); check(w == 0 || n % w != 0, "a table of complete rows is accepted"); }
        Some(v) => {
            reach("accepted");
            check(w != 0 && n % w == 0, "a table with an incomplete row or without columns is refused");
            check(v.len() == 1 && complete(&v), "what is accepted is made of complete rows");
        }
    }
}

/// Any one byte of the data changed to anything, or the data cut short.
pub fn damaged() {
    expect(&["refused", "accepted"]);
    let nodes = small();
    let text = match write(&nodes) { Some(t) => t, None => return };
    let mut b = text.into_bytes();
    let i = choose(b.len());
    if choose(2) == 1 {
        b.truncate(i);
        check(read(unsafe { String::from_utf8_unchecked(b) }).is_none(), "data that was cut short is refused");
        return;
    }
    // stays UTF-8
    if b[i] >= 128 { stop(); }
    let x = any_u8();
    assume(x < 128);
    b[i] = x;
    match read(unsafe { String::from_utf8_unchecked(b) }) {
        None => { reach("refused"); check(true, "damaged data is refused"); }
        Some(v) => { reach("accepted"); check(complete(&v), "what is accepted is made of complete rows"); }
    }
}
