//! C05 C06: the order of positions, and the range two positions span.
use crate::{gen::*, sym::*};
use input_tree::{focus::*, row::*};
use std::cmp::Ordering;

fn sym_pos(max_depth: usize, max: usize) -> (Vec<(usize, usize)>, usize) {
    let d = pick(0, max_depth);
    ((0..d).map(|_| (range(0, max), range(0, max))).collect(), range(0, max))
}
fn num(o: Ordering) -> i32 { match o { Ordering::Less => -1, Ordering::Equal => 0, Ordering::Greater => 1 } }
fn cmp(a: &(Vec<(usize, usize)>, usize), b: &(Vec<(usize, usize)>, usize)) -> i32 {
    num(RowIndices::cmp_indices_and_offset(&indices(&a.0), &Offset(a.1), &indices(&b.0), &Offset(b.1)))
}
fn eq(a: &(Vec<(usize, usize)>, usize), b: &(Vec<(usize, usize)>, usize)) -> bool {
    if a.0.len() != b.0.len() { return false; }
    let mut ok = a.1 == b.1;
    for i in 0..a.0.len() { ok &= (a.0[i].0 == b.0[i].0) & (a.0[i].1 == b.0[i].1); }
    ok
}

/// Two positions with arbitrary (symbolic) indices.
pub fn pair(depth: usize, max: usize) {
    expect(&["less", "equal", "greater"]);
    let (a, b) = (sym_pos(depth, max), sym_pos(depth, max));
    let c = cmp(&a, &b);
    reach(if c < 0 { "less" } else if c == 0 { "equal" } else { "greater" });
    check(c == doc_cmp(&a.0, a.1, &b.0, b.1), "order is document order");
    check(c == -cmp(&b, &a), "order is antisymmetric");
    check((c == 0) == eq(&a, &b), "positions compare equal only if they are equal");
    let (x, y) = (Offset(a.1), Offset(b.1));
    check(((x < y) == (a.1 < b.1)) & ((x <= y) == (a.1 <= b.1)) & ((x > y) == (a.1 > b.1)) & ((x >= y) == (a.1 >= b.1)) & ((x == y) == (a.1 == b.1)), "offsets compare as numbers");
}

/// Two positions far down, with a common way of any length.
pub fn pair_deep(depth: usize, max: usize) {
    expect(&["less", "equal", "greater"]);
    let shared = pick(0, depth);
    let (m, n) = (choose(3), choose(3));
    let way: Vec<(usize, usize)> = (0..shared).map(|_| (range(0, max), range(0, max))).collect();
    let end = |n: usize| { let mut w = way.clone(); for _ in 0..n { w.push((range(0, max), range(0, max))); } (w, range(0, max)) };
    let (a, b) = (end(m), end(n));
    let c = cmp(&a, &b);
    reach(if c < 0 { "less" } else if c == 0 { "equal" } else { "greater" });
    check(c == doc_cmp(&a.0, a.1, &b.0, b.1), "order is document order");
    check(c == -cmp(&b, &a), "order is antisymmetric");
}

/// Three positions with arbitrary (symbolic) indices.
pub fn triple(depth: usize, max: usize) {
    expect(&["chain"]);
    let (a, b, c) = (sym_pos(depth, max), sym_pos(depth, max), sym_pos(depth, max));
    if cmp(&a, &b) <= 0 {
        if cmp(&b, &c) <= 0 {
            reach("chain");
            check(cmp(&a, &c) <= 0, "order is transitive");
        }
    }
}

fn position<'a>(root: InputFocusRow<'a>, p: &(Vec<(usize, usize)>, usize)) -> InputRowPosition<'a> {
    InputRowPosition::new(root.walk_down_indices(&indices(&p.0)), Offset(p.1))
}

/// Two positions of a real tree, through the operators users see.
pub fn on_tree(s: impl Source) {
    expect(&["less", "equal", "greater"]);
    let t = s.tree();
    let mut all = vec![];
    all_positions(&t.root, &mut vec![], &mut all);
    let (i, j) = (choose(all.len()), choose(all.len()));
    let (a, b) = (position(t.root_focus(), &all[i]), position(t.root_focus(), &all[j]));
    let want = i.cmp(&j);
    reach(match want { Ordering::Less => "less", Ordering::Equal => "equal", _ => "greater" });
    check(a.cmp(&b) == want, "order is reading order");
    check(a.partial_cmp(&b) == Some(want), "partial order is the order");
    check((a < b) == (i < j) && (a <= b) == (i <= j) && (a > b) == (i > j) && (a >= b) == (i >= j), "comparison operators agree");
    check((a == b) == (i == j) && (a != b) == (i != j), "equality agrees");
    check(a.clone().max(b.clone()) == if i < j { b.clone() } else { a.clone() } && a.clone().min(b.clone()) == if i < j { a.clone() } else { b.clone() }, "maximum and minimum agree");
}

/// The range spanned by two positions.
pub fn span(s: impl Source) {
    expect(&["same row", "nested", "siblings", "backwards", "forwards"]);
    let t = s.tree();
    let mut all = vec![];
    all_positions(&t.root, &mut vec![], &mut all);
    let (i, j) = (choose(all.len()), choose(all.len()));
    span_check(&t, &all, i, j);
}

pub fn span_deep(levels: usize) {
    expect(&["same row", "nested", "backwards", "forwards"]);
    let t = input_tree::input_tree::InputTree::new(gen_chain(levels, &mut vec![]));
    let mut all = vec![];
    all_positions(&t.root, &mut vec![], &mut all);
    let (i, j) = (choose(all.len()), choose(all.len()));
    span_check(&t, &all, i, j);
}

fn span_check(t: &input_tree::input_tree::InputTree, all: &[(Vec<(usize, usize)>, usize)], i: usize, j: usize) {
    let (a, b) = (position(t.root_focus(), &all[i]), position(t.root_focus(), &all[j]));
    let r = t.range_from_positions(&a, &b);
    let (pa, pb) = (&all[i].0, &all[j].0);
    // deepest row both are in or below
    let mut k = 0;
    while k < pa.len() && k < pb.len() && pa[k] == pb[k] { k += 1; }
    reach(if pa.len() == k && pb.len() == k { "same row" } else if pa.len() == k || pb.len() == k { "nested" } else { "siblings" });
    check(path_of(r.row_indices()) == pa[..k], "spanned range is on the deepest shared row");
    // smallest range of that row that has both in it
    let (la, ra) = if pa.len() > k { (pa[k].0, pa[k].0 + 1) } else { (all[i].1, all[i].1) };
    let (lb, rb) = if pb.len() > k { (pb[k].0, pb[k].0 + 1) } else { (all[j].1, all[j].1) };
    check(r.left_offset().0 == la.min(lb), "spanned range starts as late as possible");
    check(r.right_offset().0 == ra.max(rb), "spanned range ends as early as possible");
    check(r.contains(&a) && r.contains(&b), "spanned range contains both positions");
    check(a.in_range(r.clone()) && b.in_range(r.clone()), "both positions are in the spanned range");
    if i > j {
        reach("backwards");
        check(r.is_collapsed() || !r.is_forwards(), "backwards selection stays backwards");
    } else {
        reach("forwards");
        check(r.is_forwards(), "forwards selection stays forwards");
    }
}

/// What a range says about itself.
pub fn range_accessors(s: impl Source) {
    expect(&["backwards", "forwards", "collapsed"]);
    let t = s.tree();
    let path = any_path(&t.root);
    let row = row_at(&t.root, &path);
    let n = row.values.len();
    let (a, b) = (pick(0, n), pick(0, n));
    reach(if a > b { "backwards" } else if a < b { "forwards" } else { "collapsed" });
    let focus = t.root_focus().walk_down_indices(&indices(&path));
    let r = InputRowRange::new(focus.clone(), Offset(a), Offset(b));
    check(r.left_offset().0 == a.min(b) && r.right_offset().0 == a.max(b), "left and right ends");
    check(r.left_position().offset.0 == a.min(b) && r.right_position().offset.0 == a.max(b), "left and right positions");
    check(r.start_position().offset.0 == a && r.end_position().offset.0 == b, "start and end positions");
    check(r.left_position().row_indices() == r.row_indices() && r.end_position().row_indices() == r.row_indices() && path_of(r.row_indices()) == path, "positions are on the row of the range");
    check(r.len() == a.max(b) - a.min(b), "length");
    check(r.is_empty() == (a == b) && r.is_collapsed() == (a == b), "emptiness");
    check(r.is_forwards() == (a <= b), "direction");
    check(same_nodes(r.values(), &row.values[a.min(b)..a.max(b)]), "selected values");
    let m = r.to_minimal();
    check(path_of(&m.row_indices) == path && m.start.0 == a && m.end.0 == b, "stored range");
    check(InputRowRange::from_minimal(t.root_focus(), &m) == r, "stored range comes back");
    let p = r.start_position();
    check(InputRowPosition::from_minimal(t.root_focus(), &p.to_minimal()) == p, "stored position comes back");
    let c: InputRowRange<'_> = (&p).into();
    check(c.start.0 == a && c.end.0 == a && c.row_indices() == p.row_indices(), "range of a position is empty and there");
    // containment, against every position of the tree
    let mut all = vec![];
    all_positions(&t.root, &mut vec![], &mut all);
    let q = &all[choose(all.len())];
    let inside = doc_cmp(&path, a.min(b), &q.0, q.1) <= 0 && doc_cmp(&q.0, q.1, &path, a.max(b)) <= 0;
    check(r.contains(&position(t.root_focus(), q)) == inside, "containment is by reading order");
}

/// Offsets outside the row are refused, all others accepted.
pub fn offsets(n: usize) {
    expect(&["valid", "left", "right"]);
    let n = pick(0, n);
    let row = InputRow::new((0..n).map(|_| sym_node()).collect());
    let f = InputFocusRow::from_root(&row);
    let o = any_usize();
    let right = any_bool();
    let d = if right { input_tree::direction::HorizontalDirection::Right } else { input_tree::direction::HorizontalDirection::Left };
    reach(if right { "right" } else { "left" });
    let e = any_usize();
    if (o <= n) & (e <= n) {
        reach("valid");
        let want = if right { if o < n { Some(o) } else { None } } else if o > 0 { Some(o - 1) } else { None };
        check(f.offset_to_index(Offset(o), d) == want, "neighbour of an offset");
        check(row.offset_to_index(Offset(o), d) == want, "neighbour of an offset in the row");
        let p = InputRowPosition::new(f.clone(), Offset(o));
        check(p.offset.0 == o, "valid offset accepted");
        let r = InputRowRange::new(f.clone(), Offset(o), Offset(e));
        check((r.start.0 == o) & (r.end.0 == e), "valid range accepted");
    } else {
        may_panic(|| { let r = InputRowRange::new(f.clone(), Offset(o), Offset(e)); observe(r.start.0); });
        check(false, "range outside the row refused");
    }
}
