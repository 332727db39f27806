//! C04: positions and ranges that are kept up to date while the tree is edited.
use crate::{edits::splice, gen::*, sym::*};
use input_tree::{
    editing::{editable::Editable, *},
    focus::*,
    grid::*,
    input_tree::InputTree,
    node::*,
    row::*,
};

/// Any way down of exactly `n` steps, all indices symbolic.
fn sym_path(n: usize, max: usize) -> Vec<(usize, usize)> { (0..n).map(|_| (range(0, max), range(0, max))).collect() }

/// Reference: where a range ends up when `n` elements are inserted/deleted at offset `p` of the row at `e`.
fn moved(r: &[(usize, usize)], start: usize, end: usize, e: &[(usize, usize)], p: usize, n: usize, insert: bool) -> (Vec<(usize, usize)>, usize, usize) {
    let same = (Vec::from(r), start, end);
    if r.len() < e.len() { return same; }
    let mut prefix = true;
    for i in 0..e.len() { prefix &= (r[i].0 == e[i].0) & (r[i].1 == e[i].1); }
    if !prefix { return same; }
    if r.len() == e.len() {
        // the left end only moves if it is behind the place of insertion, the right end also if it is there
        let left = |o: usize| if insert { if o > p { o + n } else { o } } else if o <= p { o } else if o >= p + n { o - n } else { p };
        let right = |o: usize| if insert { if o >= p { o + n } else { o } } else if o <= p { o } else if o >= p + n { o - n } else { p };
        return if start <= end { (same.0, left(start), right(end)) } else { (same.0, right(start), left(end)) };
    }
    let mut q = same.0;
    let i = q[e.len()].0;
    if insert {
        if p <= i { q[e.len()].0 = i + n; }
        return (q, start, end);
    }
    if i < p { (q, start, end) } else if i >= p + n { q[e.len()].0 = i - n; (q, start, end) } else { (Vec::from(e), p, p) }
}

/// All indices and offsets symbolic up to `max`; ways down of up to `depth` steps.
pub fn indices_any(depth: usize, values: usize, max: usize) {
    expect(&["insert", "delete", "same row", "row below", "elsewhere"]);
    let (rd, ed) = (pick(0, depth), pick(0, depth));
    let r = sym_path(rd, max);
    let e = sym_path(ed, max);
    let (start, end, p) = (range(0, max), range(0, max), range(0, max));
    // some are more than fit into a byte
    let n = pick(0, values + 1);
    let n = if n > values { 300 } else { n };
    let insert = any_bool();
    let edit: BasicEdit = RowEdit {
        edit_type: if insert { EditType::Insert } else { EditType::Delete },
        position: MinimalInputRowPosition { row_indices: indices(&e), offset: Offset(p) },
        values: (0..n).map(|_| InputNode::Symbol(String::new())).collect(),
    }
    .into();
    let mut m = MinimalInputRowRange { row_indices: indices(&r), start: Offset(start), end: Offset(end) };
    m.apply_edit(&edit);
    let (q, s, t) = moved(&r, start, end, &e, p, n, insert);
    reach(if insert { "insert" } else { "delete" });
    reach(if ed > rd { "elsewhere" } else if ed == rd { "same row" } else { "row below" });
    let got = path_of(&m.row_indices);
    check(got.len() == q.len(), "range is on the right level");
    let mut ok = true;
    for i in 0..q.len() { ok &= (got[i].0 == q[i].0) & (got[i].1 == q[i].1); }
    check(ok, "range is on the right row");
    check((m.start.0 == s) & (m.end.0 == t), "range has the right ends");
    // a position follows the left end of the collapsed range
    let mut c = MinimalInputRowPosition { row_indices: indices(&r), offset: Offset(start) };
    c.apply_edit(&edit);
    let (q, s, _) = moved(&r, start, start, &e, p, n, insert);
    let got = path_of(&c.row_indices);
    check(got.len() == q.len(), "position is on the right level");
    let mut ok = true;
    for i in 0..q.len() { ok &= (got[i].0 == q[i].0) & (got[i].1 == q[i].1); }
    check(ok, "position is on the right row");
    check(c.offset.0 == s, "position has the right offset");
}

fn any_row_edit(t: &InputTree, max: usize) -> (RowEdit, Vec<(usize, usize)>) {
    let path = any_path(&t.root);
    let row = row_at(&t.root, &path);
    let at = pick(0, row.values.len());
    let (edit_type, values) = if any_bool() {
        let n = pick(1, max);
        (EditType::Insert, (0..n).map(|i| if i == 1 { InputNode::sup(InputRow::new(vec![])) } else { InputNode::symbol("!") }).collect())
    } else {
        if at == row.values.len() { kill(); }
        let n = pick(1, max.min(row.values.len() - at));
        (EditType::Delete, row.values[at..at + n].to_vec())
    };
    (RowEdit { edit_type, position: MinimalInputRowPosition { row_indices: indices(&path), offset: Offset(at) }, values }, path)
}

/// On real trees: the tracked position exists afterwards and stands between the same surviving symbols.
pub fn on_tree(s: impl Source, max: usize, steps: usize) {
    expect(&["moved", "stayed"]);
    let mut t = s.tree();
    let path = any_path(&t.root);
    let len = row_at(&t.root, &path).values.len();
    let (a, b) = (pick(0, len), pick(0, len));
    let mut range = MinimalInputRowRange { row_indices: indices(&path), start: Offset(a), end: Offset(b) };
    let mut pos = MinimalInputRowPosition { row_indices: indices(&path), offset: Offset(a) };
    for step in 0..steps {
        let mut old = vec![];
        all_symbols(&t.root, &mut vec![], &mut old);
        let before = t.root.clone();
        let (rp, ra, rb) = (path_of(&range.row_indices), range.start.0, range.end.0);
        let (pp, pa) = (path_of(&pos.row_indices), pos.offset.0);
        let (edit, at_path) = any_row_edit(&t, max);
        let e: BasicEdit = edit.clone().into();
        t.apply_edit(&e);
        range.apply_edit(&e);
        pos.apply_edit(&e);
        let mut new = vec![];
        all_symbols(&t.root, &mut vec![], &mut new);
        // validity, through the public constructors (they panic otherwise)
        let r = InputRowRange::from_minimal(t.root_focus(), &range);
        let p = InputRowPosition::from_minimal(t.root_focus(), &pos);
        let (qp, qa, qb) = (path_of(r.row_indices()), r.start.0, r.end.0);
        let (sp, sa) = (path_of(p.row_indices()), p.offset.0);
        reach(if qp == rp && qa == ra && qb == rb { "stayed" } else { "moved" });
        let insert = edit.edit_type == EditType::Insert;
        let at = edit.position.offset.0;
        // nothing that survives changes sides
        let mut ok = true;
        for (id, p0, i0) in &old {
            for (jd, p1, i1) in &new {
                if id != jd || *id == b'!' { continue; }
                // position just before the symbol: it is left of us iff its far side is
                let side = |q: &[(usize, usize)], o: usize, sp: &[(usize, usize)], si: usize| doc_cmp(sp, si + 1, q, o) <= 0;
                ok &= side(&rp, ra.min(rb), p0, *i0) == side(&qp, qa.min(qb), p1, *i1);
                ok &= side(&rp, ra.max(rb), p0, *i0) == side(&qp, qa.max(qb), p1, *i1);
                ok &= side(&pp, pa, p0, *i0) == side(&sp, sa, p1, *i1);
            }
        }
        check(ok, "every surviving symbol stays on its side");
        check((qa == qb) || ((qa < qb) == (ra <= rb)), "direction is kept");
        if step == 0 {
            // a row that survives is still the row we are in
            let gone = !insert && rp.len() > at_path.len() && rp[..at_path.len()] == at_path[..] && { let i = rp[at_path.len()].0; i >= at && i < at + edit.values.len() };
            if gone {
                check(qp == at_path && qa == at && qb == at, "a range inside a deleted element goes where that was");
            } else {
                check(qp.len() == rp.len(), "a range in a surviving row stays in it");
                let mut want = row_at(&before, &rp).clone();
                if at_path.len() >= rp.len() && at_path[..rp.len()] == rp[..] {
                    // the edit was in this row or below it
                    let target = row_at(&before, &at_path).clone();
                    let new = splice(&target, at, if insert { 0 } else { edit.values.len() }, if insert { &edit.values } else { &[] });
                    want = replace_at(&want, &at_path[rp.len()..], &new);
                }
                check(same_row(row_at(&t.root, &qp), &want), "a range in a surviving row stays in it, whatever its new index");
            }
        }
    }
}

/// The empty range at the place of insertion grows over what is inserted; a position there stays before it.
pub fn at_insertion(max: usize) {
    expect(&["done"]);
    let d = pick(0, 2);
    let p = sym_path(d, max);
    let o = range(0, max);
    let n = pick(1, 3);
    let e: BasicEdit = RowEdit { edit_type: EditType::Insert, position: MinimalInputRowPosition { row_indices: indices(&p), offset: Offset(o) }, values: (0..n).map(|_| InputNode::Symbol(String::new())).collect() }.into();
    let mut r = MinimalInputRowRange { row_indices: indices(&p), start: Offset(o), end: Offset(o) };
    r.apply_edits(&[e.clone()]);
    check((r.start.0 == o) & (r.end.0 == o + n), "empty range grows over what is inserted into it");
    let mut q = MinimalInputRowPosition { row_indices: indices(&p), offset: Offset(o) };
    q.apply_edits(&[e]);
    check(q.offset.0 == o, "position stays before what is inserted there");
    reach("done");
}

/// Inserting and deleting rows or columns of a table leaves places alone that are neither in its row nor below.
pub fn table_elsewhere(depth: usize, max: usize) {
    expect(&["above", "beside"]);
    let (rd, ed) = (pick(0, depth), pick(1, depth));
    let r = sym_path(rd, max);
    let e = sym_path(ed, max);
    let mut prefix = ed <= rd;
    for i in 0..ed.min(rd) { prefix &= (r[i].0 == e[i].0) & (r[i].1 == e[i].1); }
    if prefix { kill(); }
    let edit = any_table_edit(indices(&e), range(0, max), range(0, max), 2, 2);
    let (start, end) = (range(0, max), range(0, max));
    let mut m = MinimalInputRowRange { row_indices: indices(&r), start: Offset(start), end: Offset(end) };
    let mut c = MinimalInputRowPosition { row_indices: indices(&r), offset: Offset(start) };
    m.apply_edit(&edit);
    c.apply_edit(&edit);
    reach(if ed > rd { "above" } else { "beside" });
    for got in [path_of(&m.row_indices), path_of(&c.row_indices)] {
        check(got.len() == r.len(), "place is on the same level");
        let mut ok = true;
        for i in 0..r.len() { ok &= (got[i].0 == r[i].0) & (got[i].1 == r[i].1); }
        check(ok, "place is in the same row");
    }
    check((m.start.0 == start) & (m.end.0 == end) & (c.offset.0 == start), "place has the same offsets");
}

fn any_table_edit(row_indices: RowIndices, index: usize, at: usize, w: usize, h: usize) -> BasicEdit {
    let cells = (0..w * h).map(|_| InputRow::new(vec![InputNode::Symbol(String::new())])).collect();
    GridEdit {
        edit_type: if any_bool() { EditType::Insert } else { EditType::Delete },
        element_indices: ElementIndices { row_indices, index },
        direction: if any_bool() { GridDirection::Row } else { GridDirection::Column },
        row_or_column: Offset(at),
        values: GridVec::from_one_dimensional(cells, w),
    }
    .into()
}

/// A stored place in the row of a table or in one of its cells, while rows or columns are inserted into the table.
pub fn table_above(w: usize, h: usize) {
    expect(&[]);
    let mut id = 0;
    let cells = (0..w * h).map(|_| InputRow::new(vec![mark_node(&mut id)])).collect();
    let mut t = InputTree::new(InputRow::new(vec![mark_node(&mut id), InputNode::table(cells, w), mark_node(&mut id)]));
    let path = any_path(&t.root);
    let row = row_at(&t.root, &path).clone();
    let o = pick(0, row.values.len());
    let mut m = MinimalInputRowRange { row_indices: indices(&path), start: Offset(o), end: Offset(o) };
    let by_row = any_bool();
    let at = pick(0, if by_row { h } else { w });
    let (vw, vh) = if by_row { (w, 1) } else { (1, h) };
    let values = GridVec::from_one_dimensional((0..vw * vh).map(|_| InputRow::new(vec![InputNode::symbol("!")])).collect(), vw);
    let direction = if by_row { GridDirection::Row } else { GridDirection::Column };
    let edit: BasicEdit = GridEdit { edit_type: EditType::Insert, element_indices: ElementIndices { row_indices: indices(&[]), index: 1 }, direction, row_or_column: Offset(at), values }.into();
    t.apply_edit(&edit);
    m.apply_edit(&edit);
    let r = InputRowRange::from_minimal(t.root_focus(), &m);
    check(r.start.0 == o && r.end.0 == o, "place has the same offsets");
    let q = path_of(r.row_indices());
    check(q.len() == path.len(), "place is on the same level");
    if !q.is_empty() { check(same_row(row_at(&t.root, &q), &row), "place is in the same cell, wherever that is now"); }
}
