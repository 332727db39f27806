//! C08 C09: cells of a grid by coordinates, and rectangles of cells.
use crate::{gen::*, sym::*};
use input_tree::{focus::*, grid::*, input_tree::InputTree, node::*, row::*};

fn grid(maxw: usize, maxh: usize, minh: usize) -> (GridVec<u8>, Vec<u8>, usize, usize) {
    let (w, h) = (pick(1, maxw), pick(minh, maxh));
    let v: Vec<u8> = (0..w * h).map(|_| any_u8()).collect();
    (GridVec::from_one_dimensional(v.clone(), w), v, w, h)
}

/// Coordinates and linear indices, all values of both.
pub fn index(maxw: usize, maxh: usize) {
    expect(&["inside", "outside"]);
    let (mut g, v, w, h) = grid(maxw, maxh, 0);
    check(g.width() == w && g.height() == h && g.size() == (w, h) && g.is_empty() == (h == 0), "size of a grid");
    let (x, y, iw) = (any_usize(), any_usize(), any_usize());
    let i = Index2D::new(x, y, iw);
    let inside = (iw == w) & (x < w) & (y < h);
    let lin = i.to_index_checked(&g);
    match lin {
        Some(l) => { reach("inside"); check(inside, "only existing cells have an index"); check(l == y.wrapping_mul(w).wrapping_add(x), "index of a cell"); check(l < v.len(), "index of a cell exists"); }
        None => { reach("outside"); check(!inside, "every existing cell has an index"); }
    }
    match g.get(i) { Some(c) => { let k = concretize(y) * w + concretize(x); check(*c == v[k], "get reads the cell"); } None => check(!inside, "get finds every existing cell") }
    let n = any_u8();
    let old = g.set(i, n);
    check(old.is_some() == inside, "set changes existing cells only");
    let mut want = v.clone();
    if let Some(o) = old { let k = concretize(y) * w + concretize(x); check(o == v[k], "set returns the old value"); want[k] = n; }
    let got: Vec<u8> = g.values().copied().collect();
    let mut ok = got.len() == want.len();
    for k in 0..want.len() { ok &= got[k] == want[k]; }
    check(ok, "set changes that cell only");
    check(g.size() == (w, h), "set keeps the size");
    match g.get_mut(i) { Some(c) => { check(inside, "get_mut finds existing cells only"); check(*c == n, "get_mut finds the cell"); } None => check(!inside, "get_mut finds every existing cell") }
    let all: Vec<u8> = g.into_iter().collect();
    check(all == want, "cells come out in reading order");
}

pub fn linear(maxw: usize, maxh: usize) {
    expect(&["inside", "outside"]);
    let (g, v, w, h) = grid(maxw, maxh, 0);
    let k = any_usize();
    let i = Index2D::from_index(k, &g);
    check((i.x == k % w) & (i.y == k / w), "coordinates of an index");
    check(i.to_index() == k, "index of the coordinates of an index");
    let xy: (usize, usize) = i.into();
    check((xy.0 == i.x) & (xy.1 == i.y), "coordinates as a pair");
    let inside = k < w * h;
    check(i.to_index_checked(&g) == if inside { Some(k) } else { None }, "checked index");
    match g.get(i) { Some(c) => { reach("inside"); check(inside, "cell exists"); check(*c == v[concretize(k)], "cell by linear index"); } None => { reach("outside"); check(!inside, "missing cell"); } }
}

/// Coordinates in large grids.
pub fn large(sizes: &[(usize, usize)]) {
    expect(&["inside", "outside"]);
    let (w, h) = sizes[choose(sizes.len())];
    let mut g = GridVec::from_one_dimensional((0..w * h).map(|i| (i % 251) as u8).collect(), w);
    let k = range(0, 4095);
    let i = Index2D::from_index(k, &g);
    check((i.x == k % w) & (i.y == k / w) & (i.to_index() == k), "coordinates of an index");
    let (x, y) = (any_usize(), any_usize());
    let inside = (x < w) & (y < h);
    let i = Index2D::new(x, y, w);
    match i.to_index_checked(&g) { Some(l) => { check(inside, "only existing cells have an index"); check(l == y * w + x, "index of a cell"); } None => check(!inside, "every existing cell has an index") }
    check(g.get(i).is_some() == inside, "get finds existing cells only");
    reach(if inside { "inside" } else { "outside" });
    if inside {
        // corners and edges
        let (x, y) = ([0, 1, w / 2, w - 1][choose(4)].min(w - 1), [0, 1, h / 2, h - 1][choose(4)].min(h - 1));
        let i = Index2D::new(x, y, w);
        check(g.get(i) == Some(&(((y * w + x) % 251) as u8)), "get reads the cell");
        g.set(i, 255);
        let mut ok = true;
        for (j, c) in g.values().enumerate() { ok &= *c == if j == y * w + x { 255 } else { (j % 251) as u8 }; }
        check(ok, "set changes that cell only");
    }
}

/// Steps by any amount never wrap and never leave the grid.
pub fn steps(maxw: usize, maxh: usize) {
    expect(&["ok", "refused"]);
    let (g, _, w, h) = grid(maxw, maxh, 1);
    let (x, y) = (range(0, w - 1), range(0, h - 1));
    let i = Index2D::new(x, y, w);
    let (dx, dy) = (any_usize(), any_usize());
    let add = any_bool();
    let r = if add { i.add_checked((dx, dy), &g) } else { i.sub_checked((dx, dy), &g) };
    let fits = if add { (dx < w) & (dy < h) && (x + dx < w) & (y + dy < h) } else { (dx <= x) & (dy <= y) };
    check(r.is_some() == fits, "step is possible iff it stays in the grid");
    match r {
        Some(j) => {
            reach("ok");
            let (ex, ey) = if add { (x + dx, y + dy) } else { (x - dx, y - dy) };
            check((j.x == ex) & (j.y == ey), "step lands where it should");
            check(j == Index2D::new(ex, ey, w), "step stays an index of this grid");
            let back = if add { j.sub_checked((dx, dy), &g) } else { j.add_checked((dx, dy), &g) };
            check(back == Some(i), "step back");
        }
        None => reach("refused"),
    }
}

/// A grid always is a full rectangle: other sizes are refused.
pub fn construct(max: usize) {
    expect(&["accepted", "refused"]);
    let n = pick(0, max);
    let w = range(0, 2 * max);
    let v: Vec<u8> = (0..n).map(|_| any_u8()).collect();
    let ok = w > 0 && n % w == 0;
    if ok {
        reach("accepted");
        let g = GridVec::from_one_dimensional(v.clone(), w);
        check(g.width() == w && g.height() == n / w, "size of a new grid");
        let all: Vec<u8> = g.values().copied().collect();
        check(all == v, "cells of a new grid");
    } else {
        reach("refused");
        may_panic(|| { let g = GridVec::from_one_dimensional(v, w); observe(g.width()); });
        check(false, "grid with an incomplete row refused");
    }
}

/// The rectangle spanned by any two cells.
pub fn rectangle(maxw: usize, maxh: usize) {
    let (g, _, w, h) = grid(maxw, maxh, 1);
    rectangle_in(g, w, h);
}

/// The same in large grids.
pub fn rectangle_large(sizes: &[(usize, usize)]) {
    let (w, h) = sizes[choose(sizes.len())];
    rectangle_in(GridVec::from_one_dimensional(vec![0; w * h], w), w, h);
}

fn rectangle_in(g: GridVec<u8>, w: usize, h: usize) {
    expect(&["diagonal", "antidiagonal"]);
    let (ax, ay, bx, by) = (range(0, w - 1), range(0, h - 1), range(0, w - 1), range(0, h - 1));
    reach(if (ax <= bx) == (ay <= by) { "diagonal" } else { "antidiagonal" });
    let r = GridRectangle::from_indices_inclusive(Index2D::new(ax, ay, w), Index2D::new(bx, by, w), &g);
    let (x0, y0, x1, y1) = (ax.min(bx), ay.min(by), ax.max(bx), ay.max(by));
    check(!r.is_empty(), "rectangle of two cells is not empty");
    let s = r.start_index();
    check((s.x == x0) & (s.y == y0), "top left corner");
    match r.end_index_inclusive() { Some(e) => check((e.x == x1) & (e.y == y1), "bottom right corner"), None => check(false, "bottom right corner exists") }
    check((r.width() == x1 - x0 + 1) & (r.height() == y1 - y0 + 1), "size of a rectangle");
    check(r.size() == (x1 - x0 + 1, y1 - y0 + 1), "size of a rectangle as a pair");
    check(r == GridRectangle::from_indices_inclusive(Index2D::new(bx, by, w), Index2D::new(ax, ay, w), &g), "corners can be swapped");
    check(r == GridRectangle::from_indices_inclusive(Index2D::new(ax, by, w), Index2D::new(bx, ay, w), &g), "either diagonal spans the rectangle");
}

/// Reading through the rectangle spanned by any two cells.
pub fn view(maxw: usize, maxh: usize) {
    expect(&["inside", "outside"]);
    let (g, v, w, h) = grid(maxw, maxh, 1);
    let (ax, ay, bx, by) = (pick(0, w - 1), pick(0, h - 1), pick(0, w - 1), pick(0, h - 1));
    let r = GridRectangle::from_indices_inclusive(Index2D::new(ax, ay, w), Index2D::new(bx, by, w), &g);
    let (x0, y0) = (ax.min(bx), ay.min(by));
    let view = g.get_view(r);
    check(!view.is_empty() && view.size() == r.size(), "size of a view");
    let (vw, vh) = (view.width(), view.height());
    let (x, y) = (any_usize(), any_usize());
    let c = view.get(Index2D::new(x, y, vw)).copied();
    let inside = (x < vw) & (y < vh);
    check(c.is_some() == inside, "view has exactly its cells");
    match c {
        Some(c) => { reach("inside"); check(c == v[(y0 + concretize(y)) * w + x0 + concretize(x)], "view shows the cell under it"); }
        None => reach("outside"),
    }
}

pub fn empty_rectangle() {
    expect(&["empty", "not empty"]);
    let w = pick(1, 4);
    let (a, b) = (range(0, 15), range(0, 15));
    let r = GridRectangle::new(a..b, w);
    check(r.is_empty() == (a >= b), "emptiness of a rectangle");
    check((r.start_index().x == a % w) & (r.start_index().y == a / w), "start of a rectangle");
    match r.end_index_inclusive() {
        None => { reach("empty"); check(a >= b, "only empty rectangles have no end"); }
        Some(e) => { reach("not empty"); check(a < b, "empty rectangles have no end"); check((e.x == (b - 1) % w) & (e.y == (b - 1) / w), "end of a rectangle"); }
    }
}

/// A selection of table cells.
pub fn selection(maxw: usize, maxh: usize) {
    expect(&["done", "missing"]);
    let (w, h) = (pick(1, maxw), pick(1, maxh));
    let rows: Vec<InputRow> = (0..w * h).map(|_| InputRow::new(vec![sym_node()])).collect();
    let nested = any_bool();
    let table = InputNode::table(rows.clone(), w);
    let t = InputTree::new(if nested { InputRow::new(vec![sym_node(), InputNode::sub(InputRow::new(vec![table]))]) } else { InputRow::new(vec![table]) });
    let path: Vec<(usize, usize)> = if nested { vec![(1, 0)] } else { vec![] };
    let focus = t.root_focus().walk_down_indices(&indices(&path)).child_at(0).unwrap();
    let (ax, ay, bx, by) = (pick(0, w - 1), pick(0, h - 1), pick(0, w - 1), pick(0, h - 1));
    let g = focus.node().grid().unwrap();
    let rect = GridRectangle::from_indices_inclusive(Index2D::new(ax, ay, w), Index2D::new(bx, by, w), g);
    let s = InputGridRange::new(focus, rect);
    check(s.top_left_index() == (ax.min(bx), ay.min(by)), "top left of a selection");
    check(s.bottom_right_index() == Some((ax.max(bx), ay.max(by))), "bottom right of a selection");
    check(!s.is_collapsed(), "selection of cells is not empty");
    check(s.grid().size() == (w, h), "selection knows its grid");
    let k = any_usize();
    match s.get_row(k) {
        Some(r) => { reach("done"); check(k < w * h, "selection finds existing rows only"); check(same_row(r, &rows[concretize(k)]), "selection finds the row"); }
        None => { reach("missing"); check(k >= w * h, "selection finds every row"); }
    }
    let m = s.to_minimal();
    check(path_of(&m.row_indices) == path && m.index == 0 && m.range == rect, "stored selection");
    check(InputGridRange::from_minimal(t.root_focus(), &m) == s, "stored selection comes back");
}
