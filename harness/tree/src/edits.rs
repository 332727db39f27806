//! C01 C02 C03 C10: edits, their inverses, and the edits built from ranges.
use crate::{gen::*, sym::*};
use input_tree::{
    editing::{editable::Editable, invertible::Invertible, *},
    focus::*,
    grid::*,
    input_tree::InputTree,
    node::*,
    row::*,
};

/// Reference: what a row looks like after `del` elements at `at` were replaced by `ins`.
pub fn splice(row: &InputRow, at: usize, del: usize, ins: &[InputNode]) -> InputRow {
    let mut v = vec![];
    for (i, n) in row.values.iter().enumerate() {
        if i == at { v.extend(ins.iter().cloned()); }
        if i < at || i >= at + del { v.push(n.clone()); }
    }
    if at == row.values.len() { v.extend(ins.iter().cloned()); }
    InputRow::new(v)
}

/// 0..=max symbols, or an element with rows of its own.
fn some_nodes(max: usize) -> Vec<InputNode> {
    let n = choose(max + 3);
    if n <= max { return (0..n).map(|_| sym_node()).collect(); }
    if n == max + 1 { return vec![sym_node(), InputNode::table(vec![InputRow::new(vec![sym_node()]), InputRow::new(vec![])], 2), sym_node()]; }
    vec![InputNode::fraction([InputRow::new(vec![sym_node()]), InputRow::new(vec![])]), sym_node()]
}

/// One row edit at any offset of the row at `path`: exact splice, all else untouched, and the inverse restores the tree.
fn one_row_edit(t: &mut InputTree, path: &[(usize, usize)], max_ins: usize, max_del: usize) {
    if !path.is_empty() { reach("nested"); }
    let row = row_at(&t.root, path).clone();
    let at = pick(0, row.values.len());
    let before = t.root.clone();
    let (edit_type, values, want) = if any_bool() {
        let v = some_nodes(max_ins);
        let want = splice(&row, at, 0, &v);
        reach("insert");
        (EditType::Insert, v, want)
    } else {
        let n = pick(0, max_del.min(row.values.len() - at));
        reach("delete");
        (EditType::Delete, row.values[at..at + n].to_vec(), splice(&row, at, n, &[]))
    };
    let edit: BasicEdit = RowEdit { edit_type, position: MinimalInputRowPosition { row_indices: indices(path), offset: Offset(at) }, values }.into();
    let copy = edit.clone();
    t.apply_edit(&edit);
    check(same_row(&t.root, &replace_at(&before, path, &want)), "row edit is an exact splice");
    check(edit == copy, "edit unchanged by applying it");
    let inv = edit.inverse();
    t.apply_edit(&inv);
    check(same_row(&t.root, &before), "inverse restores the tree");
    check(inv.inverse() == edit, "inverse of the inverse is the edit");
}

pub fn row_edit(s: Shape, max_ins: usize, max_del: usize) {
    expect(&["insert", "delete", "nested"]);
    let mut t = gen_tree(s);
    let path = any_path(&t.root);
    one_row_edit(&mut t, &path, max_ins, max_del);
}

pub fn row_edit_deep(levels: usize) {
    expect(&["insert", "delete", "nested"]);
    let mut path = vec![];
    let mut t = InputTree::new(gen_chain(levels, &mut path));
    // any row on the way down
    let k = pick(0, path.len());
    let p = path[..k].to_vec();
    one_row_edit(&mut t, &p, 1, 1);
}

/// Deeply nested: `levels` containers of alternating kinds.
pub fn row_edit_nested(levels: usize) {
    expect(&["insert", "delete", "nested"]);
    let mut path = vec![];
    let mut t = InputTree::new(gen_deep(levels, &mut path));
    let k = pick(0, path.len());
    let p = path[..k].to_vec();
    one_row_edit(&mut t, &p, 3, 2);
}

/// Few structures, but wide rows: symbols with at most one container of any kind among them; edits of many elements.
pub fn row_edit_wide(len: usize, cell: usize, ins: usize) {
    expect(&["insert", "delete", "nested"]);
    let n = pick(0, len);
    let mut v: Vec<InputNode> = (0..n).map(|_| sym_node()).collect();
    let mut path = vec![];
    let k = choose(6);
    if k > 0 {
        let at = choose(n + 1);
        let m = pick(0, cell);
        let inner = InputRow::new((0..m).map(|_| sym_node()).collect());
        let count = [0, 1, 1, 2, 2, 6][k];
        let c = choose(count);
        let mut cells: Vec<InputRow> = (0..count).map(|i| InputRow::new(if i % 2 == 0 { vec![sym_node()] } else { vec![] })).collect();
        cells[c] = inner;
        v.insert(at, match k {
            1 => InputNode::sup(cells.pop().unwrap()),
            2 => InputNode::sub(cells.pop().unwrap()),
            3 => { let b = cells.pop().unwrap(); let a = cells.pop().unwrap(); InputNode::fraction([a, b]) }
            4 => { let b = cells.pop().unwrap(); let a = cells.pop().unwrap(); InputNode::root([a, b]) }
            _ => InputNode::table(cells, 3),
        });
        if any_bool() { path.push((at, c)); }
    }
    let mut t = InputTree::new(InputRow::new(v));
    one_row_edit(&mut t, &path, ins, len + 1);
}

pub fn row_edit_long(len: usize, max_ins: usize) {
    expect(&["insert", "delete"]);
    let mut v = vec![];
    for i in 0..len { v.push(if i % 5 == 3 { InputNode::sup(InputRow::new(vec![sym_node()])) } else { sym_node() }); }
    let mut t = InputTree::new(InputRow::new(v));
    one_row_edit(&mut t, &[], max_ins, len);
}

/// A row beyond any small limit, with edits around its beginning, middle and end.
pub fn row_edit_huge(len: usize) {
    expect(&["insert", "delete", "undone"]);
    let mut t = InputTree::new(InputRow::new((0..len).map(|i| InputNode::Symbol(((b' ' + (i % 91) as u8) as char).to_string())).collect()));
    let places = [0, 1, len / 2, 255, 256, 257, len - 1, len];
    let at = places[choose(places.len())];
    let row = t.root.clone();
    let insert = any_bool();
    let k = [1, 2, 16, 255, 256, 300][choose(6)];
    let k = if insert { k } else { k.min(len - at) };
    reach(if insert { "insert" } else { "delete" });
    let values: Vec<InputNode> = if insert { (0..k).map(|i| InputNode::Symbol(((b'z' - (i % 89) as u8) as char).to_string())).collect() } else { row.values[at..at + k].to_vec() };
    let want = if insert { splice(&row, at, 0, &values) } else { splice(&row, at, k, &[]) };
    let e: BasicEdit = RowEdit { edit_type: if insert { EditType::Insert } else { EditType::Delete }, position: MinimalInputRowPosition { row_indices: indices(&[]), offset: Offset(at) }, values }.into();
    t.apply_edit(&e);
    check(same_row(&t.root, &want), "row edit is an exact splice");
    t.apply_edits(&[e.inverse()]);
    reach("undone");
    check(same_row(&t.root, &row), "inverse restores the tree");
}

/// Symbols longer than a byte survive edits unchanged.
pub fn row_edit_text() {
    expect(&["insert", "delete"]);
    let mut v = vec![];
    for _ in 0..2 { v.push(text_node(2)); }
    let mut t = InputTree::new(InputRow::new(v));
    let ins = vec![text_node(1)];
    let at = pick(0, 2);
    let before = t.root.clone();
    let want = splice(&before, at, 0, &ins);
    let e: BasicEdit = RowEdit { edit_type: EditType::Insert, position: MinimalInputRowPosition { row_indices: indices(&[]), offset: Offset(at) }, values: ins }.into();
    t.apply_edit(&e);
    reach("insert");
    check(same_row(&t.root, &want), "row edit is an exact splice");
    t.apply_edit(&e.inverse());
    reach("delete");
    check(same_row(&t.root, &before), "inverse restores the tree");
}

// ---------------------------------------------------------------- histories

fn tables(row: &InputRow, path: &mut Vec<(usize, usize)>, out: &mut Vec<(Vec<(usize, usize)>, usize)>) {
    for (i, n) in row.values.iter().enumerate() {
        if n.has_resizable_grid() { out.push((path.clone(), i)); }
        for (k, c) in cells(n).into_iter().enumerate() { path.push((i, k)); tables(c, path, out); path.pop(); }
    }
}

fn filled(n: usize, width: usize, cell: &dyn Fn() -> InputNode) -> GridVec<InputRow> {
    GridVec::from_one_dimensional((0..n).map(|_| InputRow::new(vec![cell()])).collect(), width)
}

/// Any edit that is valid for the tree.
fn any_edit(t: &InputTree, max: usize, grid_max: usize) -> BasicEdit {
    let mut ts = vec![];
    tables(&t.root, &mut vec![], &mut ts);
    if grid_max > 0 && !ts.is_empty() && any_bool() {
        reach("grid edit");
        let (path, index) = ts[choose(ts.len())].clone();
        let g = row_at(&t.root, &path).values[index].grid().unwrap();
        let (w, h) = g.size();
        return grid_edit(g, w, h, indices(&path), index, grid_max, &sym_node);
    }
    let path = any_path(&t.root);
    let row = row_at(&t.root, &path);
    let at = pick(0, row.values.len());
    let (edit_type, values) = if any_bool() {
        let n = pick(1, max);
        (EditType::Insert, (0..n).map(|_| sym_node()).collect())
    } else {
        if at == row.values.len() { kill(); }
        let n = pick(1, max.min(row.values.len() - at));
        (EditType::Delete, row.values[at..at + n].to_vec())
    };
    reach("row edit");
    RowEdit { edit_type, position: MinimalInputRowPosition { row_indices: indices(&path), offset: Offset(at) }, values }.into()
}

/// Any valid insertion or deletion of whole rows or columns.
fn grid_edit(g: &GridVec<InputRow>, w: usize, h: usize, row_indices: RowIndices, index: usize, max: usize, cell: &dyn Fn() -> InputNode) -> BasicEdit {
    let column = any_bool();
    let size = if column { w } else { h };
    let other = if column { h } else { w };
    let at = pick(0, size);
    let insert = any_bool();
    // a table keeps at least one column
    let lim = if insert { max } else { max.min(size - at).min(if column { size - 1 } else { size }) };
    if lim == 0 { kill(); }
    let k = pick(1, lim);
    let values = if insert {
        if column { filled(k * other, k, cell) } else { filled(k * other, w, cell) }
    } else {
        let mut v = vec![];
        for (i, c) in g.values().enumerate() {
            let p = if column { i % w } else { i / w };
            if p >= at && p < at + k { v.push(c.clone()); }
        }
        GridVec::from_one_dimensional(v, if column { k } else { w })
    };
    GridEdit {
        edit_type: if insert { EditType::Insert } else { EditType::Delete },
        element_indices: ElementIndices { row_indices, index },
        direction: if column { GridDirection::Column } else { GridDirection::Row },
        row_or_column: Offset(at),
        values,
    }
    .into()
}

fn history_on(mut t: InputTree, steps: usize, max: usize, grid_max: usize) {
    let mut snaps = vec![];
    let mut done = vec![];
    let n = pick(1, steps);
    for _ in 0..n {
        snaps.push(t.root.clone());
        let e = any_edit(&t, max, grid_max);
        t.apply_edit(&e);
        done.push(e);
    }
    let last = t.root.clone();
    while let Some(e) = done.pop() {
        t.apply_edits(&[e.inverse()]);
        check(same_row(&t.root, &snaps[done.len()]), "undoing a step restores the tree before it");
        if done.len() == n - 1 {
            t.apply_edits(&[e.clone()]);
            check(same_row(&t.root, &last), "redoing restores the tree after it");
            t.apply_edits(&[e.inverse()]);
        }
    }
}

pub fn history(s: impl Source, steps: usize, max: usize) {
    expect(&["row edit"]);
    history_on(s.tree(), steps, max, 0);
}

/// Longer histories on one row of symbols.
pub fn history_flat(len: usize, steps: usize, max: usize) {
    expect(&["row edit"]);
    let n = pick(0, len);
    history_on(InputTree::new(InputRow::new((0..n).map(|_| sym_node()).collect())), steps, max, 0);
}

/// Long histories on one row: each step is one of two edits.
pub fn history_long(steps: usize) {
    expect(&["undone"]);
    let mut t = InputTree::new(InputRow::new(vec![sym_node(), InputNode::sup(InputRow::new(vec![sym_node()])), sym_node()]));
    let mut snaps = vec![];
    let mut done: Vec<BasicEdit> = vec![];
    for i in 0..steps {
        snaps.push(t.root.clone());
        let n = t.root.values.len();
        let delete = n > 0 && any_bool();
        let at = if delete { i * 5 % n } else { i * 3 % (n + 1) };
        let values = if delete { let k = (1 + i % 2).min(n - at); t.root.values[at..at + k].to_vec() } else { (0..1 + i % 3).map(|_| sym_node()).collect() };
        let want = if delete { splice(&t.root, at, values.len(), &[]) } else { splice(&t.root, at, 0, &values) };
        let e: BasicEdit = RowEdit { edit_type: if delete { EditType::Delete } else { EditType::Insert }, position: MinimalInputRowPosition { row_indices: indices(&[]), offset: Offset(at) }, values }.into();
        t.apply_edits(&[e.clone()]);
        check(same_row(&t.root, &want), "row edit is an exact splice");
        done.push(e);
    }
    let last = t.root.clone();
    // all at once
    let mut u = InputTree::new(last.clone());
    let back: Vec<BasicEdit> = done.iter().rev().map(|e| e.inverse()).collect();
    u.apply_edits(&back);
    check(same_row(&u.root, &snaps[0]), "undoing everything restores the first tree");
    u.apply_edits(&done);
    check(same_row(&u.root, &last), "redoing everything restores the last tree");
    while let Some(e) = done.pop() {
        t.apply_edit(&e.inverse());
        check(same_row(&t.root, &snaps[done.len()]), "undoing a step restores the tree before it");
        reach("undone");
    }
}

pub fn history_grid(w: usize, h: usize, steps: usize, max: usize) {
    expect(&["row edit", "grid edit"]);
    let (w, h) = (pick(1, w), pick(1, h));
    let v = (0..w * h).map(|_| InputRow::new(vec![sym_node()])).collect();
    let mut row = vec![InputNode::table(v, w)];
    if any_bool() { row.insert(0, sym_node()); }
    history_on(InputTree::new(InputRow::new(row)), steps, 1, max);
}

// ---------------------------------------------------------------- grids

/// Inserting or deleting rows/columns of a table anywhere in the tree.
pub fn grid(maxw: usize, maxh: usize, max: usize, nested: usize) {
    let (w, h) = (pick(1, maxw), pick(1, maxh));
    grid_sized(w, h, max, nested, &sym_node);
}

/// Large tables of fixed cells.
pub fn grid_large(sizes: &[(usize, usize)], max: usize, nested: usize) {
    let (w, h) = sizes[choose(sizes.len())];
    let id = std::cell::Cell::new(0u8);
    grid_sized(w, h, max, nested, &|| { id.set((id.get() + 1) % 90); InputNode::Symbol(((b' ' + id.get()) as char).to_string()) });
}

fn grid_sized(w: usize, h: usize, max: usize, nested: usize, sym_node: &dyn Fn() -> InputNode) {
    expect(&["insert row", "insert column", "delete row", "delete column"]);
    let mut v = vec![];
    for i in 0..w * h {
        // cells of different kinds: one symbol, empty, or an element of their own
        v.push(InputRow::new(if i % 3 == 1 { vec![] } else if i % 4 == 2 { vec![InputNode::sup(InputRow::new(vec![sym_node()]))] } else { vec![sym_node()] }));
    }
    let table = InputNode::table(v, w);
    let mut row = vec![];
    for _ in 0..pick(0, 1) { row.push(sym_node()); }
    let index = row.len();
    row.push(table);
    for _ in 0..pick(0, 1) { row.push(sym_node()); }
    let mut row = InputRow::new(row);
    let mut path = vec![];
    for _ in 0..nested {
        // inside one row of an outer table, root or fraction
        let k = choose(3);
        let c = if k == 2 { choose(4) } else { choose(2) };
        let mut cells: Vec<InputRow> = (0..if k == 2 { 4 } else { 2 }).map(|_| InputRow::new(vec![sym_node()])).collect();
        cells[c] = row;
        let outer = if k == 2 { InputNode::table(cells, 2) } else {
            let b = cells.pop().unwrap();
            let a = cells.pop().unwrap();
            if k == 0 { InputNode::fraction([a, b]) } else { InputNode::root([a, b]) }
        };
        row = InputRow::new(vec![sym_node(), outer]);
        path.insert(0, (1, c));
    }
    let mut t = InputTree::new(row);
    let before = t.root.clone();
    let old = row_at(&before, &path).values[index].grid().unwrap().clone();
    let edit = grid_edit(&old, w, h, indices(&path), index, max, sym_node);
    let e = match &edit { BasicEdit::Grid(e) => e.clone(), _ => unreachable!() };
    let copy = edit.clone();
    t.apply_edit(&edit);
    check(edit == copy, "edit unchanged by applying it");
    let column = e.direction == GridDirection::Column;
    let insert = e.edit_type == EditType::Insert;
    reach(match (insert, column) { (true, false) => "insert row", (true, true) => "insert column", (false, false) => "delete row", (false, true) => "delete column" });
    let k = if column { e.values.width() } else { e.values.height() };
    let at = e.row_or_column.0;
    let (nw, nh) = match (insert, column) { (true, true) => (w + k, h), (true, false) => (w, h + k), (false, true) => (w - k, h), (false, false) => (w, h - k) };
    // expected content, by coordinates
    let mut want = vec![];
    for y in 0..nh {
        for x in 0..nw {
            let p = if column { x } else { y };
            let src = if insert {
                if p < at { old.get(Index2D::new(x, y, w)) }
                else if p < at + k { e.values.get(if column { Index2D::new(x - at, y, k) } else { Index2D::new(x, y - at, w) }) }
                else { old.get(if column { Index2D::new(x - k, y, w) } else { Index2D::new(x, y - k, w) }) }
            } else if p < at { old.get(Index2D::new(x, y, w)) } else { old.get(if column { Index2D::new(x + k, y, w) } else { Index2D::new(x, y + k, w) }) };
            want.push(src.unwrap().clone());
        }
    }
    check(e.new_grid_size(&old) == (nw, nh), "an edit tells the new size");
    let new = row_at(&t.root, &path).values[index].grid().unwrap();
    check(new.size() == (nw, nh), "grid has the new size");
    let mut ok = true;
    for y in 0..nh { for x in 0..nw { ok &= match new.get(Index2D::new(x, y, nw)) { Some(c) => same_row(c, &want[y * nw + x]), None => false }; } }
    check(ok, "every cell is where it belongs");
    let expect_row = splice(row_at(&before, &path), index, 1, &[InputNode::table(want, nw)]);
    check(same_row(&t.root, &replace_at(&before, &path, &expect_row)), "nothing else changed");
    let inv = edit.inverse();
    t.apply_edit(&inv);
    check(same_row(&t.root, &before), "inverse restores the tree");
    check(inv.inverse() == edit, "inverse of the inverse is the edit");
}

/// Row edits inside a table cell leave the shape of the table and all its other cells alone.
pub fn cell_edit(maxw: usize, maxh: usize) {
    expect(&["insert", "delete", "nested"]);
    let (w, h) = (pick(1, maxw), pick(1, maxh));
    let v = (0..w * h).map(|_| InputRow::new(vec![sym_node()])).collect();
    let mut t = InputTree::new(InputRow::new(vec![sym_node(), InputNode::table(v, w)]));
    let c = choose(w * h);
    one_row_edit(&mut t, &[(1, c)], 1, 1);
    let g = t.root.values[1].grid().unwrap();
    check(g.size() == (w, h), "table keeps its size");
}

// ---------------------------------------------------------------- edits made from ranges

/// The edits for "remove / insert / replace this range" do exactly that and say where the caret ends up.
pub fn range_edits(s: impl Source, max_ins: usize) {
    expect(&["remove", "insert", "replace", "backwards", "forwards", "empty"]);
    let t = s.tree();
    let path = any_path(&t.root);
    let row = row_at(&t.root, &path).clone();
    let (a, b) = (pick(0, row.values.len()), pick(0, row.values.len()));
    let (l, r) = (a.min(b), a.max(b));
    reach(if a > b { "backwards" } else if a < b { "forwards" } else { "empty" });
    let focus = t.root_focus().walk_down_indices(&indices(&path));
    let range = InputRowRange::new(focus.clone(), Offset(a), Offset(b));
    let before = t.root.clone();
    let mut u = InputTree::new(t.root.clone());
    let (edits, want, at_path, at, at_end) = match choose(3) {
        0 => {
            reach("remove");
            let (e, p) = BasicEdit::remove_range(&range);
            (e, splice(&row, l, r - l, &[]), path_of(&p.row_indices), p.offset.0, l)
        }
        1 => {
            reach("insert");
            let v = some_nodes(max_ins);
            let (e, p) = BasicEdit::insert_at_position(&range.start_position(), v.clone());
            (e, splice(&row, a, 0, &v), path_of(&p.row_indices), p.offset.0, a + v.len())
        }
        _ => {
            reach("replace");
            let v = some_nodes(max_ins);
            let (e, p) = BasicEdit::replace_range(&range, v.clone());
            check(p.start.0.min(p.end.0) == l, "replaced range starts where the old one did");
            (e, splice(&row, l, r - l, &v), path_of(&p.row_indices), p.start.0.max(p.end.0), l + v.len())
        }
    };
    u.apply_edits(&edits);
    check(same_row(&u.root, &replace_at(&before, &path, &want)), "range edit does exactly what it says");
    check(at_path == path && at == at_end, "reported position is right");
    check(at <= row_at(&u.root, &at_path).values.len(), "reported position exists");
    let mut inv: Vec<BasicEdit> = edits.iter().map(|e| e.inverse()).collect();
    inv.reverse();
    u.apply_edits(&inv);
    check(same_row(&u.root, &before), "inverses in reverse order restore the tree");
}

/// A long row, as a source for ranges of any length.
pub struct Long(pub usize);
impl Source for Long {
    fn tree(self) -> InputTree { InputTree::new(InputRow::new((0..self.0).map(|i| if i % 7 == 3 { InputNode::sub(InputRow::new(vec![])) } else { InputNode::Symbol(((b' ' + i as u8 % 91) as char).to_string()) }).collect())) }
}

/// An edit tells what it moves: from where to where, in which row or table.
pub fn extent(max: usize) {
    expect(&["row", "column"]);
    let insert = choose(2) == 1;
    let edit_type = if insert { EditType::Insert } else { EditType::Delete };
    let n = pick(0, max);
    let at = any_usize();
    assume(at < 1 << 62);
    let place = RowIndices::new(vec![RowIndex(any_usize(), any_usize())]);
    let (edit, len, want): (BasicEdit, usize, Option<GridDirection>) = match choose(3) {
        0 => {
            let v = vec![InputNode::Symbol("a".into()); n];
            (RowEdit { edit_type, position: MinimalInputRowPosition { row_indices: place.clone(), offset: Offset(at) }, values: v }.into(), n, None)
        }
        k => {
            let (w, h) = (pick(1, max), n);
            if h == 0 { stop(); }
            let values = GridVec::from_one_dimensional(vec![InputRow::new(vec![]); w * h], w);
            let direction = if k == 1 { GridDirection::Row } else { GridDirection::Column };
            (GridEdit { edit_type, element_indices: ElementIndices { row_indices: place.clone(), index: 7 }, direction, row_or_column: Offset(at), values }.into(), if k == 1 { h } else { w }, Some(direction))
        }
    };
    let e = edit.get_row_indices_edit();
    let (from, to) = if insert { (at, at + len) } else { (at + len, at) };
    check(e.is_insert() == (insert && len > 0), "an edit tells whether it inserts");
    match (e, want) {
        (row_indices_edit::RowIndicesEdit::RowIndexEdit { row_indices, old_offset, new_offset }, None) => {
            reach("row");
            check((*row_indices == place) & (old_offset.0 == from) & (new_offset.0 == to), "an edit of a row tells what it moves");
        }
        (row_indices_edit::RowIndicesEdit::GridIndexEdit { element_indices, direction, old_offset, new_offset }, Some(d)) => {
            if d == GridDirection::Column { reach("column"); }
            check((element_indices.row_indices == place) & (element_indices.index == 7) & (direction == d) & (old_offset.0 == from) & (new_offset.0 == to), "an edit of a table tells what it moves");
        }
        _ => check(false, "an edit tells what it moves"),
    }
}
