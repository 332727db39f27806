//! Symbolic input trees and the reference model they are compared with.
#![allow(dead_code)]
use crate::sym::*;
use input_tree::{grid::*, input_tree::InputTree, node::*, row::*};

/// A one-character symbol whose character is a solver variable.
pub fn sym_node() -> InputNode {
    let b = any_u8();
    assume(b < 128);
    InputNode::Symbol(unsafe { String::from_utf8_unchecked(vec![b]) })
}

/// A symbol with a fixed, distinct character: used where identity matters and the character does not.
pub fn mark_node(id: &mut u8) -> InputNode {
    *id += 1;
    InputNode::Symbol(unsafe { String::from_utf8_unchecked(vec![b'A' + *id - 1]) })
}

#[derive(Clone, Copy)]
pub struct Shape {
    /// how many nodes may still be created
    pub nodes: usize,
    /// longest row
    pub row: usize,
    /// how many container levels
    pub depth: usize,
    /// symbols carry symbolic characters (else distinct fixed ones)
    pub symbolic: bool,
    pub kinds: usize,
    pub id: u8,
}

impl Shape {
    pub fn new(nodes: usize, row: usize, depth: usize) -> Self { Shape { nodes, row, depth, symbolic: true, kinds: 5, id: 0 } }
    pub fn marks(nodes: usize, row: usize, depth: usize) -> Self { Shape { nodes, row, depth, symbolic: false, kinds: 5, id: 0 } }
    pub fn kinds(mut self, k: usize) -> Self { self.kinds = k; self }
}

pub fn leaf(s: &mut Shape) -> InputNode { if s.symbolic { sym_node() } else { mark_node(&mut s.id) } }

/// Every node kind: 0 symbol, 1 superscript (1x1), 2 fraction (1x2), 3 root (2x1), 4 table (2x2), 5 subscript, 6 table (3x1), 7 table (1x3)
pub fn gen_node(s: &mut Shape, depth: usize) -> InputNode {
    s.nodes -= 1;
    let k = if depth == 0 { 0 } else { choose(s.kinds) };
    match k {
        0 => leaf(s),
        1 => InputNode::sup(gen_row(s, depth - 1)),
        2 => { let a = gen_row(s, depth - 1); let b = gen_row(s, depth - 1); InputNode::fraction([a, b]) }
        3 => { let a = gen_row(s, depth - 1); let b = gen_row(s, depth - 1); InputNode::root([a, b]) }
        4 => { let mut v = vec![]; for _ in 0..4 { v.push(gen_row(s, depth - 1)); } InputNode::table(v, 2) }
        5 => InputNode::sub(gen_row(s, depth - 1)),
        6 => { let mut v = vec![]; for _ in 0..3 { v.push(gen_row(s, depth - 1)); } InputNode::table(v, 3) }
        _ => { let mut v = vec![]; for _ in 0..3 { v.push(gen_row(s, depth - 1)); } InputNode::table(v, 1) }
    }
}

/// Any row within the shape's bounds; one path per structure.
pub fn gen_row(s: &mut Shape, depth: usize) -> InputRow {
    let max = s.row.min(s.nodes);
    let n = if max == 0 { 0 } else { choose(max + 1) };
    let mut v = Vec::with_capacity(n);
    for _ in 0..n {
        if s.nodes == 0 { break; }
        v.push(gen_node(s, depth));
    }
    // the budget ran out inside an earlier element: another path already covers this row
    if v.len() != n { kill(); }
    InputRow::new(v)
}

pub fn gen_tree(mut s: Shape) -> InputTree {
    let d = s.depth;
    InputTree::new(gen_row(&mut s, d))
}

/// Structural equality, written out, independent of the derived `PartialEq`.
pub fn same_node(a: &InputNode, b: &InputNode) -> bool {
    match (a, b) {
        (InputNode::Symbol(x), InputNode::Symbol(y)) => {
            if x.len() != y.len() { return false; }
            let (x, y) = (x.as_bytes(), y.as_bytes());
            let mut d = 0u8;
            let mut i = 0;
            while i < x.len() { d |= x[i] ^ y[i]; i += 1; }
            d == 0
        }
        (InputNode::Container(v, g), InputNode::Container(w, h)) => {
            if (*v as u8) != (*w as u8) || g.size() != h.size() { return false; }
            let mut ok = true;
            let mut y = h.values();
            for r in g.values() {
                match y.next() { Some(q) => ok &= same_row(r, q), None => return false }
            }
            ok & y.next().is_none()
        }
        _ => false,
    }
}

pub fn same_row(a: &InputRow, b: &InputRow) -> bool { same_nodes(&a.values, &b.values) }
pub fn same_nodes(a: &[InputNode], b: &[InputNode]) -> bool {
    if a.len() != b.len() { return false; }
    let mut ok = true;
    let mut i = 0;
    while i < a.len() { ok &= same_node(&a[i], &b[i]); i += 1; }
    ok
}

/// The cells of an element, in reading order.
pub fn cells(n: &InputNode) -> Vec<&InputRow> {
    match n { InputNode::Container(_, g) => g.values().collect(), InputNode::Symbol(_) => vec![] }
}

/// A copy of `row` in which the row at `path` is replaced by `new`: rebuilt from scratch through the constructors.
pub fn replace_at(row: &InputRow, path: &[(usize, usize)], new: &InputRow) -> InputRow {
    if path.is_empty() { return new.clone(); }
    let mut out = vec![];
    for (i, n) in row.values.iter().enumerate() {
        if i != path[0].0 { out.push(n.clone()); continue; }
        match n {
            InputNode::Symbol(_) => unreachable!(),
            InputNode::Container(v, g) => {
                let w = g.width();
                let mut cs = vec![];
                for (k, c) in g.values().enumerate() { cs.push(if k == path[0].1 { replace_at(c, &path[1..], new) } else { c.clone() }); }
                out.push(InputNode::Container(*v, GridVec::from_one_dimensional(cs, w)));
            }
        }
    }
    InputRow::new(out)
}

/// The row at `path`, found by plain recursion over the data.
pub fn row_at<'a>(row: &'a InputRow, path: &[(usize, usize)]) -> &'a InputRow {
    let mut r = row;
    for (i, k) in path { r = cells(&r.values[*i])[*k]; }
    r
}

/// Any path to an existing row of the tree; one path of execution per row.
pub fn any_path(root: &InputRow) -> Vec<(usize, usize)> {
    let mut p = vec![];
    let mut r = root;
    loop {
        // candidates: stay, or any (element, cell)
        let mut c = vec![];
        for (i, n) in r.values.iter().enumerate() { for k in 0..cells(n).len() { c.push((i, k)); } }
        let j = choose(c.len() + 1);
        if j == c.len() { return p; }
        p.push(c[j]);
        r = cells(&r.values[c[j].0])[c[j].1];
    }
}

pub fn indices(path: &[(usize, usize)]) -> RowIndices { RowIndices::new(path.iter().map(|p| RowIndex(p.0, p.1)).collect()) }
pub fn path_of(r: &RowIndices) -> Vec<(usize, usize)> { r.iter().map(|i| (i.0, i.1)).collect() }

/// Where a harness gets its document from.
pub trait Source { fn tree(self) -> InputTree; }
impl Source for Shape { fn tree(self) -> InputTree { gen_tree(self) } }
/// Few structures, but deep: `0` containers nested in each other, of alternating kinds.
pub struct Deep(pub usize);
impl Source for Deep { fn tree(self) -> InputTree { let k = choose(5); InputTree::new(chain(self.0, &mut vec![], Some(k), &mut Some(0))) } }
/// Few structures, but wide: a row of up to `0` elements, one of which is a container (any kind, up to 3x2) whose
/// cells hold up to `1` elements, one of which may be a fraction.
pub struct Wide(pub usize, pub usize);
impl Source for Wide {
    fn tree(self) -> InputTree {
        let mut id = 0;
        let n = pick(1, self.0);
        let at = choose(n);
        let k = choose(5);
        let count = [1, 1, 2, 2, 6][k];
        let m = pick(0, self.1);
        let mut v = vec![];
        for i in 0..n {
            if i != at { v.push(mark_node(&mut id)); continue; }
            let mut cells = vec![];
            for c in 0..count {
                let mut cell = vec![];
                for j in 0..if c + 1 == count { m } else { c % 2 } {
                    if j == 1 {
                        let a = InputRow::new(vec![mark_node(&mut id)]);
                        cell.push(InputNode::fraction([a, InputRow::new(vec![mark_node(&mut id)])]));
                    } else { cell.push(mark_node(&mut id)); }
                }
                cells.push(InputRow::new(cell));
            }
            v.push(match k {
                0 => InputNode::sup(cells.pop().unwrap()),
                1 => InputNode::sub(cells.pop().unwrap()),
                2 => { let b = cells.pop().unwrap(); let a = cells.pop().unwrap(); InputNode::fraction([a, b]) }
                3 => { let b = cells.pop().unwrap(); let a = cells.pop().unwrap(); InputNode::root([a, b]) }
                _ => InputNode::table(cells, 3),
            });
        }
        InputTree::new(InputRow::new(v))
    }
}

/// A chain of `levels` nested containers of any kinds; `path` receives the way down to the innermost row.
pub fn gen_chain(levels: usize, path: &mut Vec<(usize, usize)>) -> InputRow { chain(levels, path, None, &mut None) }
/// A chain whose kinds alternate, from any kind on: few structures, so it can be deep.
pub fn gen_deep(levels: usize, path: &mut Vec<(usize, usize)>) -> InputRow { let k = choose(5); chain(levels, path, Some(k), &mut None) }
fn chain(levels: usize, path: &mut Vec<(usize, usize)>, fixed: Option<usize>, id: &mut Option<u8>) -> InputRow {
    let leaf = |id: &mut Option<u8>| match id { Some(i) => mark_node(i), None => sym_node() };
    let before = (levels + 1) % 2;
    let mut v = vec![];
    for _ in 0..before { v.push(leaf(id)); }
    if levels > 0 {
        // (kind, number of cells, cell the chain continues in)
        let (k, n, cell) = [(0, 1, 0), (1, 2, 0), (1, 2, 1), (2, 2, 1), (3, 4, 2)][match fixed { None => choose(5), Some(k) => (k + levels) % 5 }];
        path.push((before, cell));
        let inner = chain(levels - 1, path, fixed, id);
        let mut cells: Vec<InputRow> = (0..n).map(|_| InputRow::new(vec![])).collect();
        cells[cell] = inner;
        v.push(match k {
            0 => InputNode::sub(cells.pop().unwrap()),
            1 => { let b = cells.pop().unwrap(); let a = cells.pop().unwrap(); InputNode::fraction([a, b]) }
            2 => { let b = cells.pop().unwrap(); let a = cells.pop().unwrap(); InputNode::root([a, b]) }
            _ => InputNode::table(cells, 2),
        });
        v.push(leaf(id));
    }
    InputRow::new(v)
}

/// A symbol of 0..=max characters, each any character of one to four bytes.
pub fn text_node(max: usize) -> InputNode { InputNode::Symbol(text(0, max)) }
pub fn text(min: usize, max: usize) -> String {
    let n = pick(min, max);
    let mut v = vec![];
    for _ in 0..n { push_char(&mut v); }
    unsafe { String::from_utf8_unchecked(v) }
}
/// Appends the UTF-8 bytes of any character.
pub fn push_char(v: &mut Vec<u8>) {
    let c = |v: &mut Vec<u8>| { let b = range(0, 63) as u8; v.push(0x80 | b); };
    match choose(4) {
        0 => v.push(range(0, 127) as u8),
        1 => { v.push(range(0xc2, 0xdf) as u8); c(v); }
        2 => {
            let a = range(0xe0, 0xef) as u8;
            let b = 0x80 | range(0, 63) as u8;
            assume((a != 0xe0 || b >= 0xa0) & (a != 0xed || b < 0xa0));
            v.push(a); v.push(b); c(v);
        }
        _ => {
            let a = range(0xf0, 0xf4) as u8;
            let b = 0x80 | range(0, 63) as u8;
            assume((a != 0xf0 || b >= 0x90) & (a != 0xf4 || b < 0x90));
            v.push(a); v.push(b); c(v); c(v);
        }
    }
}

/// Document order, written out: -1 / 0 / 1 for two positions given as (way down, offset).
pub fn doc_cmp(a: &[(usize, usize)], ao: usize, b: &[(usize, usize)], bo: usize) -> i32 {
    match (a.first(), b.first()) {
        (None, None) => if ao < bo { -1 } else if ao > bo { 1 } else { 0 },
        // an offset `o` lies before the elements o, o+1, ... and behind the others
        (None, Some(y)) => if ao <= y.0 { -1 } else { 1 },
        (Some(x), None) => if bo <= x.0 { 1 } else { -1 },
        (Some(x), Some(y)) => {
            if x.0 != y.0 { return if x.0 < y.0 { -1 } else { 1 }; }
            if x.1 != y.1 { return if x.1 < y.1 { -1 } else { 1 }; }
            doc_cmp(&a[1..], ao, &b[1..], bo)
        }
    }
}

/// Every position of the tree in document order, by plain traversal.
pub fn all_positions(row: &InputRow, path: &mut Vec<(usize, usize)>, out: &mut Vec<(Vec<(usize, usize)>, usize)>) {
    out.push((path.clone(), 0));
    for (i, n) in row.values.iter().enumerate() {
        for (k, c) in cells(n).into_iter().enumerate() { path.push((i, k)); all_positions(c, path, out); path.pop(); }
        out.push((path.clone(), i + 1));
    }
}

/// Where each symbol is: (its text, way down, index), in document order.
pub fn all_symbols(row: &InputRow, path: &mut Vec<(usize, usize)>, out: &mut Vec<(u8, Vec<(usize, usize)>, usize)>) {
    for (i, n) in row.values.iter().enumerate() {
        if let InputNode::Symbol(s) = n { if !s.is_empty() { out.push((s.as_bytes()[0], path.clone(), i)); } }
        for (k, c) in cells(n).into_iter().enumerate() { path.push((i, k)); all_symbols(c, path, out); path.pop(); }
    }
}
