//! Caret movement, selection, and what typing and deleting do.
use crate::{gen::*, sym::*};
use caret::{caret::*, primitive::primitive_edit::*, primitive::*};
use input_tree::{direction::*, editing::{editable::Editable, invertible::Invertible, BasicEdit}, focus::*, grid::*, input_tree::InputTree, node::*, row::*};

pub type Way = Vec<(usize, usize)>;
pub type Pos = (Way, usize);

pub fn at<'a>(t: &'a InputTree, p: &Pos) -> InputRowPosition<'a> { InputRowPosition::new(t.root_focus().walk_down_indices(&indices(&p.0)), Offset(p.1)) }
pub fn pos_of(p: &MinimalInputRowPosition) -> Pos { (path_of(&p.row_indices), p.offset.0) }
pub fn minimal(p: &Pos) -> MinimalInputRowPosition { MinimalInputRowPosition { row_indices: indices(&p.0), offset: Offset(p.1) } }
pub fn positions(row: &InputRow) -> Vec<Pos> { let mut v = vec![]; all_positions(row, &mut vec![], &mut v); v }
/// The position is one of the document's.
pub fn valid(row: &InputRow, p: &Pos) -> bool {
    let mut r = row;
    for (i, k) in &p.0 {
        if *i >= r.values.len() { return false; }
        let c = cells(&r.values[*i]);
        if *k >= c.len() { return false; }
        r = c[*k];
    }
    p.1 <= r.values.len()
}
fn choose_pos(v: &[Pos]) -> usize { choose(v.len()) }
const SIDES: [Direction; 2] = [Direction::Left, Direction::Right];
const UPDOWN: [Direction; 2] = [Direction::Up, Direction::Down];

/// From any position: one step left or right is the neighbour in reading order.
pub fn horizontal(s: impl Source) {
    expect(&["moved", "at the end"]);
    let t = s.tree();
    let all = positions(&t.root);
    let i = choose_pos(&all);
    let nav = NavigationSettings::new();
    let d = choose(2);
    let got = nav.move_caret_range((&at(&t, &all[i])).into(), SIDES[d], MoveMode::Char);
    let want = if d == 0 { i.checked_sub(1) } else if i + 1 < all.len() { Some(i + 1) } else { None };
    step_check(&t, &all, got, want);
}

fn step_check(t: &InputTree, all: &[Pos], got: Option<InputRowPosition<'_>>, want: Option<usize>) {
    match (got, want) {
        (None, None) => { reach("at the end"); check(true, "the caret stays at the end of the document"); }
        (Some(g), Some(w)) => {
            reach("moved");
            check(pos_of(&g.to_minimal()) == all[w], "the caret goes to the neighbouring position in reading order");
            check(std::ptr::eq(g.row_focus.row(), row_at(&t.root, &all[w].0)), "the caret is in the row it names");
        }
        (None, Some(_)) => check(false, "the caret moves unless it is at the end of the document"),
        (Some(_), None) => check(false, "the caret does not leave the document"),
    }
}

/// The same for a selection: it moves from its end on that side, and collapses if that is the end of the document.
pub fn horizontal_range(s: impl Source) {
    expect(&["backwards", "collapsed"]);
    let t = s.tree();
    let path = any_path(&t.root);
    let n = row_at(&t.root, &path).values.len();
    let (a, b) = (choose(n + 1), choose(n + 1));
    reach(if a == b { "collapsed" } else if a > b { "backwards" } else { "forwards" });
    let all = positions(&t.root);
    let nav = NavigationSettings::new();
    let d = choose(2);
    let range = InputRowRange::new(t.root_focus().walk_down_indices(&indices(&path)), Offset(a), Offset(b));
    let from: Pos = (path.clone(), if d == 0 { a.min(b) } else { a.max(b) });
    let i = all.iter().position(|p| *p == from).unwrap();
    let mut want = if d == 0 { i.checked_sub(1) } else if i + 1 < all.len() { Some(i + 1) } else { None };
    if want.is_none() && a != b { want = Some(i); }
    let got = nav.move_caret_range(range.clone(), SIDES[d], MoveMode::Char);
    step_check(&t, &all, got, want);
    // the same through a caret
    let mut c = Caret::new(&t, range.start_position(), range.end_position());
    nav.move_caret(&mut c, SIDES[d], MoveMode::Char);
    let m = c.to_minimal();
    match want {
        Some(w) => {
            check(pos_of(&m.start_position) == all[w] && pos_of(&m.end_position) == all[w], "the caret collapses to where it moved");
            match c.selection() { CaretSelection::Row(r) => check(r.is_collapsed() && path_of(r.row_indices()) == all[w].0 && r.start.0 == all[w].1, "nothing is selected after moving"), CaretSelection::Grid(_) => check(false, "nothing is selected after moving") }
        }
        None => check(pos_of(&m.start_position) == from && pos_of(&m.end_position) == from, "the caret stays where it cannot move"),
    }
}

/// Where a step up or down leads, written out.
pub fn vertical_want(root: &InputRow, p: &Pos, up: bool) -> Option<Pos> {
    let mut way = p.0.clone();
    loop {
        let (i, k) = way.pop()?;
        match &row_at(root, &way).values[i] {
            InputNode::Symbol(_) => unreachable!(),
            InputNode::Container(v, g) => {
                if (up && matches!(v, InputNodeVariant::Sup)) || (!up && matches!(v, InputNodeVariant::Sub)) { return Some((way, i)); }
                let n = cells(&row_at(root, &way).values[i]).len();
                let w = g.width();
                let to = if up { k.checked_sub(w) } else if k + w < n { Some(k + w) } else { None };
                if let Some(to) = to {
                    way.push((i, to));
                    let len = row_at(root, &way).values.len();
                    return Some((way, if up { len } else { 0 }));
                }
            }
        }
    }
}

pub fn vertical(s: impl Source) {
    expect(&["cell", "stays"]);
    let t = s.tree();
    let all = positions(&t.root);
    let i = choose_pos(&all);
    let up = choose(2) == 0;
    let nav = NavigationSettings::new();
    let got = nav.move_caret_range((&at(&t, &all[i])).into(), UPDOWN[if up { 0 } else { 1 }], MoveMode::Char);
    let want = vertical_want(&t.root, &all[i], up);
    match (got, want) {
        (None, None) => { reach("stays"); check(true, "no cell above or below, no move"); }
        (Some(g), Some(w)) => {
            if w.0.len() == all[i].0.len() { reach("cell"); }
            check(pos_of(&g.to_minimal()) == w, "up and down lead to the nearest cell above or below, or out of a script");
            // and back into the cell it came from
            if w.0.len() == all[i].0.len() && w.0.last().map(|x| x.0) == all[i].0.last().map(|x| x.0) {
                match nav.move_caret_range((&g).into(), UPDOWN[if up { 1 } else { 0 }], MoveMode::Char) {
                    Some(b) => check(path_of(b.row_indices()) == all[i].0, "the opposite step leads back into the cell"),
                    None => check(false, "the opposite step leads back into the cell"),
                }
            }
        }
        _ => check(false, "the caret moves exactly if there is a cell above or below"),
    }
}

/// What is selected between any two positions.
pub fn selection(s: impl Source) {
    expect(&["cells", "row"]);
    let t = s.tree();
    let all = positions(&t.root);
    let (i, j) = (choose_pos(&all), choose_pos(&all));
    let (a, b) = (&all[i], &all[j]);
    let c = Caret::new(&t, at(&t, a), at(&t, b));
    let m = c.to_minimal();
    check(pos_of(&m.start_position) == *a && pos_of(&m.end_position) == *b, "the caret keeps its two ends");
    let mut shared = 0;
    while shared < a.0.len() && shared < b.0.len() && a.0[shared] == b.0[shared] { shared += 1; }
    let in_table = shared < a.0.len() && shared < b.0.len() && a.0[shared].0 == b.0[shared].0
        && matches!(row_at(&t.root, &a.0[..shared]).values[a.0[shared].0], InputNode::Container(InputNodeVariant::Table, _));
    match c.selection() {
        CaretSelection::Grid(g) => {
            reach("cells");
            check(in_table, "cells are selected only between two cells of a table");
            if !in_table { return; }
            let (i, ka, kb) = (a.0[shared].0, a.0[shared].1, b.0[shared].1);
            let w = match &row_at(&t.root, &a.0[..shared]).values[i] { InputNode::Container(_, g) => g.width(), _ => unreachable!() };
            let x = ((ka % w).min(kb % w), (ka % w).max(kb % w));
            let y = ((ka / w).min(kb / w), (ka / w).max(kb / w));
            let mg = g.to_minimal();
            check(path_of(&mg.row_indices) == a.0[..shared] && mg.index == i, "the selected cells are those of that table");
            check(g.top_left_index() == (x.0, y.0) && g.bottom_right_index().map(|v| v == (x.1, y.1)) == Some(true), "the selected cells span both ends");
            match c.selection().to_minimal() { MinimalCaretSelection::Grid(h) => check(h == mg, "the plain form is the same selection"), _ => check(false, "the plain form is the same selection") }
        }
        CaretSelection::Row(r) => {
            reach("row");
            check(!in_table, "between two cells of a table, cells are selected");
            check(path_of(r.row_indices()) == a.0[..shared], "the selection is in the innermost row that holds both ends");
            let before = doc_cmp(&a.0, a.1, &b.0, b.1) <= 0;
            let lo = |p: &Pos, first: bool| if p.0.len() > shared { if first { p.0[shared].0 } else { p.0[shared].0 + 1 } } else { p.1 };
            check(r.start.0 == lo(a, before) && r.end.0 == lo(b, !before), "the selection covers both ends, in their direction");
            match c.selection().to_minimal() { MinimalCaretSelection::Row(h) => check(h == r.to_minimal(), "the plain form is the same selection"), _ => check(false, "the plain form is the same selection") }
        }
    }
    let again = Caret::from_minimal(&t, &m);
    check(again.to_minimal() == m, "a caret survives being stored");
    let want = c.selection().to_minimal();
    check(again.into_selection().to_minimal() == want, "a stored caret selects the same");
    // the same when one end is put there later
    let mut d = Caret::new(&t, at(&t, a), at(&t, a));
    d.set_end_position(at(&t, b));
    check(d.to_minimal() == m && d.selection().to_minimal() == want, "moving the end of a caret selects up to there");
    let mut d = Caret::new(&t, at(&t, b), at(&t, b));
    d.set_start_position(at(&t, a));
    check(d.to_minimal() == m && d.selection().to_minimal() == want, "moving the start of a caret selects from there");
    check(pos_of(&d.start_position().to_minimal()) == *a && pos_of(&d.end_position().to_minimal()) == *b, "the caret tells its two ends");
}

/// Symbols in reading order, and how many of them are before a position.
pub fn symbols(row: &InputRow) -> Vec<(u8, Way, usize)> { let mut v = vec![]; all_symbols(row, &mut vec![], &mut v); v }
pub fn before(row: &InputRow, p: &Pos) -> usize { symbols(row).iter().filter(|s| doc_cmp(&s.1, s.2 + 1, &p.0, p.1) <= 0).count() }

/// The row at `way` with `n` elements from `at` on replaced by `new`, in a copy of the document.
pub fn spliced(root: &InputRow, way: &[(usize, usize)], at: usize, n: usize, new: &[InputNode]) -> InputRow {
    let r = row_at(root, way);
    let mut v = vec![];
    for x in &r.values[..at] { v.push(x.clone()); }
    for x in new { v.push(x.clone()); }
    for x in &r.values[at + n..] { v.push(x.clone()); }
    replace_at(root, way, &InputRow::new(v))
}
fn contents(n: &InputNode) -> Vec<InputNode> { let mut v = vec![]; for c in cells(n) { for x in &c.values { v.push(x.clone()); } } v }

pub enum Want { Nothing, Edit(InputRow, Pos), Move(usize) }
/// What deleting to one side of a position does, written out.
pub fn remove_want(root: &InputRow, all: &[Pos], i: usize, left: bool) -> Want {
    let (way, o) = &all[i];
    let row = row_at(root, way);
    let step = if left { i.checked_sub(1) } else if i + 1 < all.len() { Some(i + 1) } else { None };
    let side = if left { o.checked_sub(1) } else if *o < row.values.len() { Some(*o) } else { None };
    if let Some(k) = side {
        return match &row.values[k] {
            InputNode::Symbol(_) => Want::Edit(spliced(root, way, k, 1, &[]), (way.clone(), k)),
            n @ InputNode::Container(InputNodeVariant::Sub | InputNodeVariant::Sup, _) if !left => Want::Edit(spliced(root, way, k, 1, &contents(n)), (way.clone(), k)),
            _ => Want::Move(step.unwrap()),
        };
    }
    if way.is_empty() { return Want::Nothing; }
    let (outer, (k, cell)) = (way[..way.len() - 1].to_vec(), way[way.len() - 1]);
    let n = &row_at(root, &outer).values[k];
    let c = cells(n);
    let unwrap = |caret: usize| Want::Edit(spliced(root, &outer, k, 1, &contents(n)), (outer.clone(), k + caret));
    match n {
        InputNode::Container(InputNodeVariant::Sub | InputNodeVariant::Sup, _) if left => return unwrap(0),
        InputNode::Container(InputNodeVariant::Fraction | InputNodeVariant::Root, _) if (left && cell == 1) || (!left && cell == 0) => return unwrap(c[0].values.len()),
        _ => {}
    }
    let at_edge = if left { cell == 0 } else { cell + 1 == c.len() };
    if at_edge && c.iter().all(|r| r.values.is_empty()) { return unwrap(0); }
    Want::Move(step.unwrap())
}

/// Backspace and delete with a collapsed caret.
pub fn remove(s: impl Source) {
    expect(&["edited", "only moved", "nothing to do"]);
    let mut t = s.tree();
    let all = positions(&t.root);
    let i = choose_pos(&all);
    let left = choose(2) == 0;
    let nav = NavigationSettings::new();
    let want = remove_want(&t.root, &all, i, left);
    let got = remove_at_caret(&nav, &(&at(&t, &all[i])).into(), if left { CaretRemoveMode::Left } else { CaretRemoveMode::Right });
    match (got, want) {
        (None, Want::Nothing) => { reach("nothing to do"); check(true, "nothing happens at the end of the document"); }
        (Some((edits, p)), Want::Move(w)) => { reach("only moved"); check(edits.is_empty(), "entering an element deletes nothing"); check(pos_of(&p) == all[w], "the caret enters the neighbouring element"); }
        (Some((edits, p)), Want::Edit(doc, to)) => {
            reach("edited");
            let old = symbols(&t.root);
            let b = before(&t.root, &all[i]);
            let copy = t.root.clone();
            t.apply_edits(&edits);
            check(same_row(&t.root, &doc), "exactly the symbol is deleted, or exactly the element's frame");
            check(pos_of(&p) == to, "the caret is where the deleted thing was");
            check(valid(&t.root, &pos_of(&p)), "the caret is in the document");
            // no other symbol is lost, and the caret stays between the same symbols
            let new = symbols(&t.root);
            let lost = old.len() - new.len();
            check(lost <= 1, "at most one symbol is deleted");
            let nb = before(&t.root, &pos_of(&p));
            check(nb == b - if left { lost } else { 0 }, "the caret stays between the same symbols");
            let mut same = true;
            for k in 0..new.len() { same &= new[k].0 == old[if k < nb { k } else { k + lost }].0; }
            check(same, "all other symbols stay, in their order");
            let back: Vec<BasicEdit> = edits.iter().rev().map(|e| e.inverse()).collect();
            t.apply_edits(&back);
            check(same_row(&t.root, &copy), "deleting can be undone");
        }
        _ => check(false, "deleting does what its place calls for"),
    }
}

/// Deleting and typing over a selection.
pub fn replace(s: impl Source, most: usize) {
    expect(&["deleted", "typed", "backwards"]);
    let mut t = s.tree();
    let path = any_path(&t.root);
    let n = row_at(&t.root, &path).values.len();
    let (a, b) = (choose(n + 1), choose(n + 1));
    if a > b { reach("backwards"); }
    let (lo, hi) = (a.min(b), a.max(b));
    let nav = NavigationSettings::new();
    let mut new = vec![];
    let typed = choose(2) == 1;
    let (edits, p) = {
        let range = InputRowRange::new(t.root_focus().walk_down_indices(&indices(&path)), Offset(a), Offset(b));
        if typed {
            reach("typed");
            for _ in 0..choose(most + 1) { new.push(if choose(2) == 0 { sym_node() } else { InputNode::fraction([InputRow::new(vec![sym_node()]), InputRow::new(vec![])]) }); }
            insert_at_range(&range, new.clone())
        } else {
            let mode = choose(3);
            if a == b && mode < 2 { stop(); }
            reach("deleted");
            remove_at_caret(&nav, &range, [CaretRemoveMode::Left, CaretRemoveMode::Right, CaretRemoveMode::Range][mode])
        }
    }.unwrap();
    let copy = t.root.clone();
    t.apply_edits(&edits);
    check(same_row(&t.root, &spliced(&copy, &path, lo, hi - lo, &new)), "the selection is replaced by exactly the new elements");
    check(pos_of(&p) == (path.clone(), lo + new.len()), "the caret is behind the new elements");
    let back: Vec<BasicEdit> = edits.iter().rev().map(|e| e.inverse()).collect();
    t.apply_edits(&back);
    check(same_row(&t.root, &copy), "replacing can be undone");
}
