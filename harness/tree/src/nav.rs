//! C07: moving a focus through the tree.
use crate::{gen::*, sym::*};
use input_tree::{focus::*, grid::*, input_tree::InputTree, node::*, row::*};

pub fn walk(s: impl Source) {
    expect(&["root", "below"]);
    let t = s.tree();
    let path = any_path(&t.root);
    walk_check(&t, &path);
}

pub fn walk_deep(levels: usize) {
    expect(&["below"]);
    let mut path = vec![];
    let t = InputTree::new(gen_chain(levels, &mut path));
    walk_check(&t, &path);
}

fn walk_check(t: &InputTree, path: &[(usize, usize)]) {
    reach(if path.is_empty() { "root" } else { "below" });
    let mut f = t.root_focus().walk_down_indices(&indices(path));
    let mut depth = path.len();
    // the way down in two halves is the same way
    let h = path.len() / 2;
    let mut g = t.root_focus();
    for p in &path[..h] { g = g.row_at(*p).unwrap(); }
    for p in &path[h..] { g = g.child_at(p.0).unwrap().child_at(p.1).unwrap(); }
    check(f == g, "stepwise and direct ways meet");
    loop {
        let want = row_at(&t.root, &path[..depth]);
        check(std::ptr::eq(f.row(), want), "focus is on the row it was sent to");
        check(path_of(f.row_indices()) == path[..depth], "focus knows its way down");
        check(f.len() == want.values.len() && f.is_empty() == want.values.is_empty(), "focus knows its length");
        check(f.index_in_parent() == if depth == 0 { None } else { Some(path[depth - 1].1) }, "focus knows its index");
        match f.parent() {
            None => { check(depth == 0, "only the root has no parent"); return; }
            Some(n) => {
                check(depth > 0, "the root has no parent");
                depth -= 1;
                check(n.index_in_parent() == path[depth].0, "element knows its index");
                let e = n.element_indices();
                check(path_of(&e.row_indices) == path[..depth] && e.index == path[depth].0, "element knows its way down");
                check(std::ptr::eq(n.node(), &row_at(&t.root, &path[..depth]).values[path[depth].0]), "element is the one on the way");
                // down again, and back
                match n.clone().child_at(path[depth].1) {
                    Ok(c) => {
                        check(path_of(c.row_indices()) == path[..depth + 1], "child of the parent is the row itself");
                        check(c.parent() == Some(n.clone()), "parent of the child is the element itself");
                    }
                    Err(_) => check(false, "child of the parent exists"),
                }
                f = n.parent();
            }
        }
    }
}

/// Any index at all, valid or not.
pub fn any_index(s: impl Source) {
    expect(&["element", "no element", "row", "no row"]);
    let t = s.tree();
    let path = any_path(&t.root);
    let f = t.root_focus().walk_down_indices(&indices(&path));
    let row = row_at(&t.root, &path);
    let (i, k) = (any_usize(), any_usize());
    let exists = i < row.values.len();
    check(f.node_at(i).is_some() == exists, "node exists iff the index is in the row");
    match f.clone().child_at(i) {
        None => { reach("no element"); check(!exists, "element exists iff the index is in the row"); check(f.row_at((i, k)).is_none(), "no row below no element"); }
        Some(n) => {
            reach("element");
            check(exists, "element exists iff the index is in the row");
            let i = concretize(i);
            check(std::ptr::eq(n.node(), &row.values[i]) && std::ptr::eq(f.node_at(i).unwrap(), &row.values[i]), "element is the one at the index");
            check(n.index_in_parent() == i, "element knows its index");
            let c = cells(&row.values[i]);
            let direct = f.clone().row_at((i, k));
            match n.clone().child_at(k) {
                Ok(r) => {
                    reach("row");
                    check(k < c.len(), "row exists iff the index is in the element");
                    let k = concretize(k);
                    check(std::ptr::eq(r.row(), c[k]), "row is the one at the index");
                    let mut p = path.clone();
                    p.push((i, k));
                    check(path_of(r.row_indices()) == p, "row knows its way down");
                    check(direct == Some(r), "both ways to a row agree");
                }
                Err(back) => {
                    reach("no row");
                    check(k >= c.len(), "row exists iff the index is in the element");
                    check(back == n && path_of(&back.element_indices().row_indices) == path, "failed step leaves the focus where it was");
                    check(path_of(back.parent().row_indices()) == path, "failed step leaves the way up intact");
                    check(direct.is_none(), "both ways to a row agree");
                }
            }
        }
    }
}

/// A way down that does not exist is refused, never silently redirected.
pub fn bad_way(s: impl Source) {
    expect(&["refused", "found"]);
    let t = s.tree();
    let d = pick(1, 2);
    let p: Vec<(usize, usize)> = (0..d).map(|_| (range(0, 7), range(0, 7))).collect();
    let mut r = Some(&t.root);
    for (i, k) in &p {
        r = match r { Some(row) if *i < row.values.len() => { let i = concretize(*i); let c = cells(&row.values[i]); if *k < c.len() { Some(c[concretize(*k)]) } else { None } } _ => None };
    }
    match r {
        Some(row) => { reach("found"); check(std::ptr::eq(t.root_focus().walk_down_indices(&indices(&p)).row(), row), "existing way leads to its row"); }
        None => {
            reach("refused");
            may_panic(|| { let f = t.root_focus().walk_down_indices(&indices(&p)); observe(f.len()); });
            check(false, "way that does not exist is refused");
        }
    }
}

/// Mutable access by cell index reaches the same cell as reading does.
pub fn row_mut(s: Shape) {
    expect(&["done"]);
    let mut g = s;
    let mut n = gen_node(&mut g, 1);
    let c = cells(&n).len();
    if c == 0 { kill(); }
    let k = choose(c);
    let mut want: Vec<InputRow> = cells(&n).into_iter().cloned().collect();
    let new = InputRow::new(vec![sym_node(), sym_node()]);
    want[k] = new.clone();
    *n.row_mut(k) = new;
    let got = cells(&n);
    let mut ok = got.len() == c;
    for i in 0..c { ok &= same_row(got[i], &want[i]); }
    check(ok, "only the addressed cell changes");
    // the same through its grid
    let other = InputRow::new(vec![sym_node()]);
    let g = n.grid_mut().unwrap();
    let w = g.width();
    g.set(Index2D::new(k % w, k / w, w), other.clone());
    want[k] = other;
    let got = cells(&n);
    let mut ok = got.len() == c;
    for i in 0..c { ok &= same_row(got[i], &want[i]); }
    check(ok, "only the addressed cell of the grid changes");
    reach("done");
}

/// How row paths relate: prefixes and the shared part.
pub fn paths(depth: usize, max: usize) {
    expect(&["prefix", "not prefix"]);
    let (n, m) = (pick(0, depth), pick(0, depth));
    let a: Vec<(usize, usize)> = (0..n).map(|_| (range(0, max), range(0, max))).collect();
    let b: Vec<(usize, usize)> = (0..m).map(|_| (range(0, max), range(0, max))).collect();
    let (x, y) = (indices(&a), indices(&b));
    let mut k = 0;
    while k < n && k < m && a[k].0 == b[k].0 && a[k].1 == b[k].1 { k += 1; }
    let s = x.get_shared(&y);
    check(s.len() == k, "shared part is as long as possible");
    for i in 0..k { check(s.at(i) == Some(RowIndex(a[i].0, a[i].1)), "shared part is shared"); }
    check(x.starts_with(&y) == (k == m), "prefix test");
    reach(if k == m { "prefix" } else { "not prefix" });
    check(x.len() == n && x.is_empty() == (n == 0), "length of a way down");
    let i = any_usize();
    check(x.at(i).is_some() == (i < n), "step exists iff the index is in range");
    let mut z = x.clone();
    if let Some(r) = z.at_mut(i) { *r = RowIndex(7, 9); check(i < n, "step can be changed iff it exists"); } else { check(i >= n, "step can be changed iff it exists"); }
    let mut ok = z.len() == n;
    for j in 0..n { let (p, q) = if i == j { (7, 9) } else { a[j] }; let r = z.at(j).unwrap(); ok &= (r.0 == p) & (r.1 == q); }
    check(ok, "only that step changes");
    let mut z = x.clone();
    z.push(RowIndex(1, 2));
    check(z.len() == n + 1 && z.at(n) == Some(RowIndex(1, 2)), "push appends");
    check(z.pop() == Some(RowIndex(1, 2)) && z == x, "pop undoes push");
}
