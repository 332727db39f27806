//! Bit-vector expressions (widths 1..=128) with hash-caching and a local simplifier.
use std::collections::HashMap;
use std::sync::Arc;

pub type Ex = Arc<Node>;
pub type VarSet = u128;

#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
pub enum B {
    Add, Sub, Mul, UDiv, SDiv, URem, SRem, And, Or, Xor, Shl, LShr, AShr,
    Eq, Ult, Ule, Slt, Sle,
    Concat, // hi, lo
}

#[derive(Debug)]
pub enum K {
    Const(u128),
    Var(u32),
    Not(Ex),
    Bin(B, Ex, Ex),
    Ite(Ex, Ex, Ex),
    Extract(Ex, u16), // low bit; width from node
    ZExt(Ex),
    SExt(Ex),
}

#[derive(Debug)]
pub struct Node {
    pub k: K,
    pub w: u16,
    pub hash: u64,
    pub vars: VarSet,
}

pub fn mask(w: u16) -> u128 {
    if w >= 128 { u128::MAX } else { (1u128 << w) - 1 }
}
pub fn sext128(v: u128, w: u16) -> i128 {
    if w >= 128 { v as i128 } else { ((v << (128 - w)) as i128) >> (128 - w) }
}

fn mix(a: u64, b: u64) -> u64 {
    let x = (a ^ b.rotate_left(29)).wrapping_mul(0x9E3779B97F4A7C15);
    x ^ (x >> 31)
}

fn node(k: K, w: u16) -> Ex {
    let (h, vars) = match &k {
        K::Const(v) => (mix(1, mix(*v as u64, (*v >> 64) as u64)), 0),
        K::Var(i) => (mix(2, *i as u64), 1u128 << *i),
        K::Not(a) => (mix(3, a.hash), a.vars),
        K::Bin(b, x, y) => (mix(mix(4 + *b as u64, x.hash), y.hash), x.vars | y.vars),
        K::Ite(c, x, y) => (mix(mix(mix(40, c.hash), x.hash), y.hash), c.vars | x.vars | y.vars),
        K::Extract(a, lo) => (mix(mix(41, a.hash), *lo as u64), a.vars),
        K::ZExt(a) => (mix(42, a.hash), a.vars),
        K::SExt(a) => (mix(43, a.hash), a.vars),
    };
    Arc::new(Node { k, w, hash: mix(h, w as u64 + 77), vars })
}

impl Drop for Node {
    fn drop(&mut self) {}
}

pub fn eq_ex(a: &Ex, b: &Ex) -> bool {
    if Arc::ptr_eq(a, b) { return true; }
    if a.hash != b.hash || a.w != b.w || a.vars != b.vars { return false; }
    match (&a.k, &b.k) {
        (K::Const(x), K::Const(y)) => x == y,
        (K::Var(x), K::Var(y)) => x == y,
        (K::Not(x), K::Not(y)) => eq_ex(x, y),
        (K::Bin(o, x, y), K::Bin(p, z, u)) => o == p && eq_ex(x, z) && eq_ex(y, u),
        (K::Ite(c, x, y), K::Ite(d, z, u)) => eq_ex(c, d) && eq_ex(x, z) && eq_ex(y, u),
        (K::Extract(x, l), K::Extract(y, m)) => l == m && eq_ex(x, y),
        (K::ZExt(x), K::ZExt(y)) => eq_ex(x, y),
        (K::SExt(x), K::SExt(y)) => eq_ex(x, y),
        _ => false,
    }
}

pub fn cst(v: u128, w: u16) -> Ex { node(K::Const(v & mask(w)), w) }
pub fn var(i: u32, w: u16) -> Ex { assert!(i < 128, "too many symbolic variables"); node(K::Var(i), w) }
pub fn as_const(e: &Ex) -> Option<u128> { if let K::Const(v) = e.k { Some(v) } else { None } }

pub fn fold(b: B, x: u128, y: u128, w: u16) -> u128 {
    let m = mask(w);
    match b {
        B::Add => x.wrapping_add(y) & m,
        B::Sub => x.wrapping_sub(y) & m,
        B::Mul => x.wrapping_mul(y) & m,
        B::UDiv => if y == 0 { m } else { x / y },
        B::URem => if y == 0 { x } else { x % y },
        B::SDiv => {
            let (a, c) = (sext128(x, w), sext128(y, w));
            if c == 0 { if a < 0 { 1 } else { m } } else { (a.wrapping_div(c) as u128) & m }
        }
        B::SRem => {
            let (a, c) = (sext128(x, w), sext128(y, w));
            if c == 0 { x } else { (a.wrapping_rem(c) as u128) & m }
        }
        B::And => x & y,
        B::Or => x | y,
        B::Xor => x ^ y,
        B::Shl => if y >= w as u128 { 0 } else { (x << y) & m },
        B::LShr => if y >= w as u128 { 0 } else { x >> y },
        B::AShr => {
            let a = sext128(x, w);
            let s = if y >= w as u128 { (w - 1) as u32 } else { y as u32 };
            ((a >> s) as u128) & m
        }
        B::Eq => (x == y) as u128,
        B::Ult => (x < y) as u128,
        B::Ule => (x <= y) as u128,
        B::Slt => (sext128(x, w) < sext128(y, w)) as u128,
        B::Sle => (sext128(x, w) <= sext128(y, w)) as u128,
        B::Concat => unreachable!(),
    }
}

pub fn is_cmp(b: B) -> bool { matches!(b, B::Eq | B::Ult | B::Ule | B::Slt | B::Sle) }

pub fn not(a: &Ex) -> Ex {
    let r = not_(a);
    if SELFTEST.load(std::sync::atomic::Ordering::Relaxed) { selftest(|m| !eval(a, m) & mask(a.w), &r, &|| format!("not {:?}", a)); }
    r
}
fn not_(a: &Ex) -> Ex {
    match &a.k {
        K::Const(v) => cst(!v, a.w),
        K::Not(x) => x.clone(),
        K::Bin(B::Ult, x, y) => bin(B::Ule, y, x),
        K::Bin(B::Ule, x, y) => bin(B::Ult, y, x),
        K::Bin(B::Slt, x, y) => bin(B::Sle, y, x),
        K::Bin(B::Sle, x, y) => bin(B::Slt, y, x),
        _ => node(K::Not(a.clone()), a.w),
    }
}

pub fn ite(c: &Ex, x: &Ex, y: &Ex) -> Ex {
    let r = ite_(c, x, y);
    if SELFTEST.load(std::sync::atomic::Ordering::Relaxed) { selftest(|m| if eval(c, m) != 0 { eval(x, m) } else { eval(y, m) }, &r, &|| format!("ite {:?} {:?} {:?}", c, x, y)); }
    r
}
fn ite_(c: &Ex, x: &Ex, y: &Ex) -> Ex {
    if let Some(v) = as_const(c) { return if v != 0 { x.clone() } else { y.clone() }; }
    if eq_ex(x, y) { return x.clone(); }
    if let K::Not(d) = &c.k { return ite(d, y, x); }
    if x.w == 1 {
        match (as_const(x), as_const(y)) {
            (Some(1), Some(0)) => return c.clone(),
            (Some(0), Some(1)) => return not(c),
            (Some(1), _) => return bin(B::Or, c, y),
            (Some(0), _) => return bin(B::And, &not(c), y),
            (_, Some(0)) => return bin(B::And, c, x),
            (_, Some(1)) => return bin(B::Or, &not(c), x),
            _ => {}
        }
    }
    if let K::Ite(d, x1, _) = &x.k { if eq_ex(c, d) { return ite(c, x1, y); } }
    if let K::Ite(d, _, y2) = &y.k { if eq_ex(c, d) { return ite(c, x, y2); } }
    node(K::Ite(c.clone(), x.clone(), y.clone()), x.w)
}

pub fn zext(a: &Ex, w: u16) -> Ex {
    let r = zext_(a, w);
    if SELFTEST.load(std::sync::atomic::Ordering::Relaxed) { selftest(|m| eval(a, m), &r, &|| format!("zext {:?} {:?}", a, w)); }
    r
}
fn zext_(a: &Ex, w: u16) -> Ex {
    if w == a.w { return a.clone(); }
    debug_assert!(w > a.w);
    match &a.k {
        K::Const(v) => cst(*v, w),
        K::ZExt(x) => zext(x, w),
        K::Ite(c, x, y) if as_const(x).is_some() && as_const(y).is_some() => ite(c, &zext(x, w), &zext(y, w)),
        _ => node(K::ZExt(a.clone()), w),
    }
}
pub fn sext(a: &Ex, w: u16) -> Ex {
    let r = sext_(a, w);
    if SELFTEST.load(std::sync::atomic::Ordering::Relaxed) { selftest(|m| sext128(eval(a, m), a.w) as u128 & mask(w), &r, &|| format!("sext {:?} {:?}", a, w)); }
    r
}
fn sext_(a: &Ex, w: u16) -> Ex {
    if w == a.w { return a.clone(); }
    match &a.k {
        K::Const(v) => cst(sext128(*v, a.w) as u128, w),
        K::ZExt(x) => zext(x, w),
        K::Ite(c, x, y) if as_const(x).is_some() && as_const(y).is_some() => ite(c, &sext(x, w), &sext(y, w)),
        _ => node(K::SExt(a.clone()), w),
    }
}
pub fn extract(a: &Ex, lo: u16, w: u16) -> Ex {
    let r = extract_(a, lo, w);
    if SELFTEST.load(std::sync::atomic::Ordering::Relaxed) { selftest(|m| (eval(a, m) >> lo) & mask(w), &r, &|| format!("extract {:?} {:?} {:?}", a, lo, w)); }
    r
}
fn extract_(a: &Ex, lo: u16, w: u16) -> Ex {
    if lo == 0 && w == a.w { return a.clone(); }
    match &a.k {
        K::Const(v) => cst(v >> lo, w),
        K::Extract(x, l) => extract(x, l + lo, w),
        K::ZExt(x) => {
            if lo >= x.w { cst(0, w) }
            else if lo + w <= x.w { extract(x, lo, w) }
            else { zext(&extract(x, lo, x.w - lo), w) }
        }
        K::SExt(x) if lo + w <= x.w => extract(x, lo, w),
        K::SExt(x) if lo == 0 => sext(x, w),
        K::Bin(B::Concat, h, l) => {
            if lo >= l.w { extract(h, lo - l.w, w) }
            else if lo + w <= l.w { extract(l, lo, w) }
            else {
                let lowpart = extract(l, lo, l.w - lo);
                let hi = extract(h, 0, w - (l.w - lo));
                concat(&hi, &lowpart)
            }
        }
        K::Bin(b @ (B::And | B::Or | B::Xor), x, y) => bin(*b, &extract(x, lo, w), &extract(y, lo, w)),
        K::Bin(b @ (B::Add | B::Sub | B::Mul), x, y) if lo == 0 => bin(*b, &extract(x, 0, w), &extract(y, 0, w)),
        K::Not(x) => not(&extract(x, lo, w)),
        K::Ite(c, x, y) => ite(c, &extract(x, lo, w), &extract(y, lo, w)),
        K::Bin(B::Shl, x, s) if as_const(s).is_some() => {
            let s = as_const(s).unwrap();
            if s >= (lo + w) as u128 { cst(0, w) }
            else if s <= lo as u128 { extract(x, lo - s as u16, w) }
            else { node(K::Extract(a.clone(), lo), w) }
        }
        K::Bin(B::LShr, x, s) if as_const(s).is_some() && as_const(s).unwrap() + (lo + w) as u128 <= x.w as u128 => {
            extract(x, lo + as_const(s).unwrap() as u16, w)
        }
        _ => node(K::Extract(a.clone(), lo), w),
    }
}
pub fn concat(h: &Ex, l: &Ex) -> Ex {
    let r = concat_(h, l);
    if SELFTEST.load(std::sync::atomic::Ordering::Relaxed) { selftest(|m| eval(h, m) << l.w | eval(l, m), &r, &|| format!("concat {:?} {:?}", h, l)); }
    r
}
fn concat_(h: &Ex, l: &Ex) -> Ex {
    if let (Some(x), Some(y)) = (as_const(h), as_const(l)) { return cst((x << l.w) | y, h.w + l.w); }
    if as_const(h) == Some(0) { return zext(l, h.w + l.w); }
    if let (K::Extract(x, a), K::Extract(y, b)) = (&h.k, &l.k) {
        if eq_ex(x, y) && *a == *b + l.w { return extract(x, *b, h.w + l.w); }
    }
    // (concat (extract x hi) x_low) where l is the full low part of the same expression
    if let K::Extract(x, a) = &h.k {
        if let K::Bin(B::Concat, lh, ll) = &l.k {
            if let K::Extract(y, b) = &lh.k {
                if eq_ex(x, y) && *a == *b + lh.w { return concat(&extract(x, *b, h.w + lh.w), ll); }
            }
        }
    }
    node(K::Bin(B::Concat, h.clone(), l.clone()), h.w + l.w)
}

/// Unsigned upper bound of an expression (cheap).
pub fn umax(e: &Ex) -> u128 { umax_d(e, 12) }
fn umax_d(e: &Ex, d: u32) -> u128 {
    let m = mask(e.w);
    if d == 0 { return m; }
    match &e.k {
        K::Const(v) => *v,
        K::ZExt(a) => umax_d(a, d - 1),
        K::Ite(_, x, y) => umax_d(x, d - 1).max(umax_d(y, d - 1)),
        K::Bin(B::And, x, y) => umax_d(x, d - 1).min(umax_d(y, d - 1)),
        K::Bin(B::Or | B::Xor, x, y) => {
            let v = umax_d(x, d - 1) | umax_d(y, d - 1);
            if v == 0 { 0 } else { mask((128 - v.leading_zeros()) as u16) & m }
        }
        K::Bin(B::Add, x, y) => match umax_d(x, d - 1).checked_add(umax_d(y, d - 1)) { Some(v) if v <= m => v, _ => m },
        K::Bin(B::Mul, x, y) => match umax_d(x, d - 1).checked_mul(umax_d(y, d - 1)) { Some(v) if v <= m => v, _ => m },
        K::Bin(B::URem, x, y) => { let a = umax_d(x, d - 1); match as_const(y) { Some(c) if c > 0 => a.min(c - 1), _ => a } }
        K::Bin(B::UDiv, x, y) => { match as_const(y) { Some(c) if c > 0 => umax_d(x, d - 1) / c, _ => m } }
        K::Bin(B::LShr, x, y) => { let a = umax_d(x, d - 1); match as_const(y) { Some(c) if c < 128 => a >> c, _ => a } }
        K::Bin(B::Shl, x, y) => { let a = umax_d(x, d - 1); match as_const(y) { Some(c) if c < 128 => { let s = a.checked_shl(c as u32); match s { Some(v) if (v >> c) == a && v <= m => v, _ => m } } _ => m } }
        _ => m,
    }
}

pub static SELFTEST: std::sync::atomic::AtomicBool = std::sync::atomic::AtomicBool::new(false);
/// Compares a simplified expression with what it stands for, on arbitrary values of the variables.
fn selftest(want: impl Fn(&Model) -> u128, got: &Ex, what: &dyn Fn() -> String) {
    thread_local! { static N: std::cell::Cell<u64> = std::cell::Cell::new(1); }
    for k in 0..6 {
        let mut m: Model = vec![0; 128];
        for v in m.iter_mut() {
            let r = N.with(|n| { let mut x = n.get().wrapping_add(0x9E3779B97F4A7C15); n.set(x); x = (x ^ (x >> 30)).wrapping_mul(0xbf58476d1ce4e5b9); x = (x ^ (x >> 27)).wrapping_mul(0x94d049bb133111eb); x ^ (x >> 31) });
            let big = (r as u128) << 64 | (r.rotate_left(23) as u128);
            *v = match (r >> 5) % 5 { 0 => big, 1 => big & 3, 2 => !(big & 3), 3 => 1 << (r % 64), _ => if k % 2 == 0 { 0x8000_8000_8000_8000 ^ (big & 0xff) } else { big & 0xff } };
        }
        let (a, b) = (want(&m), eval(got, &m));
        if a != b { panic!("simplifier: {} gives {:?}: {} instead of {}", what(), got, b, a); }
    }
}
pub fn bin(b: B, x: &Ex, y: &Ex) -> Ex {
    let r = bin_(b, x, y);
    if SELFTEST.load(std::sync::atomic::Ordering::Relaxed) && b != B::Concat && as_const(x).is_none() | as_const(y).is_none() {
        selftest(|m| fold(b, eval(x, m), eval(y, m), x.w), &r, &|| format!("{:?} of {:?} and {:?}", b, x, y));
    }
    r
}
fn bin_(b: B, x: &Ex, y: &Ex) -> Ex {
    let w = x.w;
    if b == B::Concat { return concat(x, y); }
    debug_assert_eq!(x.w, y.w, "{:?}", b);
    let (cx, cy) = (as_const(x), as_const(y));
    let rw = if is_cmp(b) { 1 } else { w };
    if let (Some(a), Some(c)) = (cx, cy) { return cst(fold(b, a, c, w), rw); }
    // canonicalise constants to the right for commutative ops
    if cx.is_some() && matches!(b, B::Add | B::Mul | B::And | B::Or | B::Xor | B::Eq) { return bin(b, y, x); }
    let zero = || cst(0, rw);
    let one1 = || cst(1, 1);
    match b {
        B::Add => {
            if cy == Some(0) { return x.clone(); }
            if let (Some(c), K::Bin(B::Add, p, q)) = (cy, &x.k) {
                if let Some(d) = as_const(q) { return bin(B::Add, p, &cst(c.wrapping_add(d), w)); }
            }
            // move constants outwards: a + (p + c) => (a + p) + c
            if let K::Bin(B::Add, p, q) = &y.k {
                if as_const(q).is_some() { return bin(B::Add, &bin(B::Add, x, p), q); }
            }
            if let K::Bin(B::Add, p, q) = &x.k {
                if as_const(q).is_some() && cy.is_none() { return bin(B::Add, &bin(B::Add, p, y), q); }
            }
            // (a - b) + b => a
            if let K::Bin(B::Sub, p, q) = &x.k { if eq_ex(q, y) { return p.clone(); } }
            if let K::Bin(B::Sub, p, q) = &y.k { if eq_ex(q, x) { return p.clone(); } }
            // (k / c) * c + k % c => k
            for (p, q) in [(x, y), (y, x)] {
                if let (K::Bin(B::Mul, d, c), K::Bin(B::URem, k, c2)) = (&p.k, &q.k) {
                    for (d, c) in [(d, c), (c, d)] {
                        if let K::Bin(B::UDiv, k2, c3) = &d.k { if eq_ex(k, k2) && eq_ex(c, c2) && eq_ex(c, c3) { return k.clone(); } }
                    }
                }
                // the same after narrowing
                if let (K::ZExt(p1), K::ZExt(q1)) = (&p.k, &q.k) {
                    if p1.w == q1.w {
                        let (mp, mq) = (umax(p1), umax(q1));
                        if mp + mq <= mask(p1.w) { return zext(&bin(B::Add, p1, q1), w); }
                        if let (K::Bin(B::Mul, _, _), K::Bin(B::URem, _, _)) = (&p1.k, &q1.k) {
                            let r = bin(B::Add, p1, q1);
                            if !matches!(r.k, K::Bin(B::Add, _, _)) { return zext(&r, w); }
                        }
                    }
                }
            }
            if w == 1 { return bin(B::Xor, x, y); }
        }
        B::Sub => {
            if let Some(c) = cy { return bin(B::Add, x, &cst(0u128.wrapping_sub(c), w)); }
            if eq_ex(x, y) { return zero(); }
            if let K::Bin(B::Add, p, q) = &x.k {
                if eq_ex(p, y) { return q.clone(); }
                if eq_ex(q, y) { return p.clone(); }
                if as_const(q).is_some() { return bin(B::Add, &bin(B::Sub, p, y), q); }
            }
            if let K::Bin(B::Add, p, q) = &y.k {
                if let Some(c) = as_const(q) { return bin(B::Add, &bin(B::Sub, x, p), &cst(0u128.wrapping_sub(c), w)); }
            }
        }
        B::Mul => {
            if cy == Some(0) { return zero(); }
            if cy == Some(1) { return x.clone(); }
            if let (Some(c), K::Bin(B::Mul, p, q)) = (cy, &x.k) {
                if let Some(d) = as_const(q) { return bin(B::Mul, p, &cst(c.wrapping_mul(d), w)); }
            }
            if let (Some(_), K::Bin(B::Add, p, q)) = (cy, &x.k) {
                if as_const(q).is_some() { return bin(B::Add, &bin(B::Mul, p, y), &bin(B::Mul, q, y)); }
            }
        }
        B::And => {
            if cy == Some(0) { return zero(); }
            if cy == Some(mask(w)) { return x.clone(); }
            if eq_ex(x, y) { return x.clone(); }
            if w == 1 {
                if let K::Not(n) = &x.k { if eq_ex(n, y) { return zero(); } }
                if let K::Not(n) = &y.k { if eq_ex(n, x) { return zero(); } }
            }
            if let Some(c) = cy {
                // low mask
                if c.count_ones() == c.trailing_ones() {
                    let n = c.trailing_ones() as u16;
                    if n < w { 
                        if umax(x) <= c { return x.clone(); }
                        return zext(&extract(x, 0, n), w);
                    }
                }
            }
        }
        B::Or => {
            if cy == Some(0) { return x.clone(); }
            if cy == Some(mask(w)) { return y.clone(); }
            if eq_ex(x, y) { return x.clone(); }
            if w == 1 {
                if let K::Not(n) = &x.k { if eq_ex(n, y) { return one1(); } }
                if let K::Not(n) = &y.k { if eq_ex(n, x) { return one1(); } }
            }
            // zext(lo) | (zext(hi) << k)  => concat
            for (p, q) in [(x, y), (y, x)] {
                if let K::Bin(B::Shl, h, s) = &q.k {
                    if let Some(s) = as_const(s) {
                        let s = s as u16;
                        if s < w && s > 0 && umax(p) <= mask(s) {
                            let lo = extract(p, 0, s);
                            let hi = extract(h, 0, w - s);
                            return concat(&hi, &lo);
                        }
                    }
                }
            }
        }
        B::Xor => {
            if cy == Some(0) { return x.clone(); }
            if eq_ex(x, y) { return zero(); }
            if cy == Some(mask(w)) { return not(x); }
        }
        B::Shl | B::LShr | B::AShr => {
            if cy == Some(0) { return x.clone(); }
            if let Some(c) = cy {
                if c >= w as u128 && b != B::AShr { return zero(); }
                if b == B::LShr && umax(x) >> c == 0 { return zero(); }
                if b == B::LShr { return zext(&extract(x, c as u16, w - c as u16), w); }
            }
        }
        B::UDiv => {
            if cy == Some(1) { return x.clone(); }
            if let Some(c) = cy { if c.is_power_of_two() { return bin(B::LShr, x, &cst(c.trailing_zeros() as u128, w)); } 
               if c > 0 && umax(x) < c { return zero(); } }
            if let Some(r) = narrow(b, x, y) { return r; }
        }
        B::URem => {
            if cy == Some(1) { return zero(); }
            if let Some(c) = cy { if c.is_power_of_two() { return bin(B::And, x, &cst(c - 1, w)); } 
               if c > 0 && umax(x) < c { return x.clone(); } }
            if let Some(r) = narrow(b, x, y) { return r; }
        }
        B::Eq => {
            if eq_ex(x, y) { return one1(); }
            if let Some(c) = cy {
                if w == 1 { return if c == 1 { x.clone() } else { not(x) }; }
                if c > umax(x) { return zero(); }
                match &x.k {
                    K::ZExt(a) => return if c > mask(a.w) { zero() } else { bin(B::Eq, a, &cst(c, a.w)) },
                    K::SExt(a) => {
                        let t = c & mask(a.w);
                        return if (sext128(t, a.w) as u128) & mask(w) != c { zero() } else { bin(B::Eq, a, &cst(t, a.w)) };
                    }
                    K::Ite(d, p, q) => {
                        if as_const(p).is_some() || as_const(q).is_some() {
                            return ite(d, &bin(B::Eq, p, y), &bin(B::Eq, q, y));
                        }
                    }
                    K::Bin(B::Add, p, q) => if let Some(d) = as_const(q) { return bin(B::Eq, p, &cst(c.wrapping_sub(d), w)); },
                    K::Bin(B::Xor, p, q) => if let Some(d) = as_const(q) { return bin(B::Eq, p, &cst(c ^ d, w)); },
                    K::Bin(B::Sub, p, q) if c == 0 => return bin(B::Eq, p, q),
                    K::Not(p) => return bin(B::Eq, p, &cst(!c, w)),
                    K::Bin(B::Concat, h, l) => {
                        let a = bin(B::Eq, h, &cst(c >> l.w, h.w));
                        let d = bin(B::Eq, l, &cst(c, l.w));
                        return bin(B::And, &a, &d);
                    }
                    K::Bin(B::Mul, p, q) => if let Some(d) = as_const(q) {
                        // no-overflow multiply by a constant
                        if d != 0 && umax(p).checked_mul(d).map_or(false, |v| v <= mask(w)) {
                            return if c % d == 0 { bin(B::Eq, p, &cst(c / d, w)) } else { zero() };
                        }
                    },
                    _ => {}
                }
            } else {
                if let (K::ZExt(a), K::ZExt(d)) = (&x.k, &y.k) {
                    if a.w == d.w { return bin(B::Eq, a, d); }
                }
                if let (K::Bin(B::Add, p, q), K::Bin(B::Add, r, s)) = (&x.k, &y.k) {
                    if as_const(q).is_some() && eq_ex(q, s) { return bin(B::Eq, p, r); }
                    if eq_ex(p, r) { return bin(B::Eq, q, s); }
                }
                if let K::Bin(B::Add, p, q) = &x.k { if eq_ex(p, y) { return bin(B::Eq, q, &cst(0, w)); } }
                if let K::Bin(B::Add, p, q) = &y.k { if eq_ex(p, x) { return bin(B::Eq, q, &cst(0, w)); } }
                if w == 1 { return not(&bin(B::Xor, x, y)); }
                if x.hash > y.hash { return node(K::Bin(B::Eq, y.clone(), x.clone()), 1); }
            }
        }
        B::Ult => {
            if eq_ex(x, y) { return zero(); }
            if cy == Some(0) { return zero(); }
            if cx == Some(mask(w)) { return zero(); }
            if let Some(c) = cy { if umax(x) < c { return one1(); } if c == 1 { return bin(B::Eq, x, &cst(0, w)); } }
            if let Some(c) = cx { if umax(y) <= c { return zero(); } if c == 0 { return not(&bin(B::Eq, y, &cst(0, w))); } }
            if let Some(r) = cmp_zext(b, x, y) { return r; }
        }
        B::Ule => {
            if eq_ex(x, y) { return one1(); }
            if cx == Some(0) { return one1(); }
            if cy == Some(mask(w)) { return one1(); }
            if let Some(c) = cy { if umax(x) <= c { return one1(); } if c == 0 { return bin(B::Eq, x, &cst(0, w)); } }
            if let Some(c) = cx { if umax(y) < c { return zero(); } if c == 1 { return not(&bin(B::Eq, y, &cst(0, w))); } }
            if let Some(r) = cmp_zext(b, x, y) { return r; }
        }
        B::Slt | B::Sle => {
            if eq_ex(x, y) { return cst((b == B::Sle) as u128, 1); }
            let half = 1u128 << (w - 1);
            if umax(x) < half && umax(y) < half {
                return bin(if b == B::Slt { B::Ult } else { B::Ule }, x, y);
            }
            if let Some(c) = cy { if c >= half && umax(x) < half { return zero(); } }
            if let Some(c) = cx { if c >= half && umax(y) < half { return one1(); } }
        }
        _ => {}
    }
    // comparisons of a quotient by a constant
    if matches!(b, B::Ult | B::Ule | B::Eq) {
        if let (K::Bin(B::UDiv, k, c), Some(d)) = (&x.k, cy) {
            if let Some(c) = as_const(c) { if c > 0 {
                let m = mask(w);
                let below = |n: Option<u128>| match n.and_then(|n| c.checked_mul(n)) { Some(v) if v <= m => bin(B::Ult, k, &cst(v, w)), _ => one1() };
                return match b {
                    B::Ult => below(Some(d)),
                    B::Ule => below(d.checked_add(1)),
                    _ => { let lo = not(&below(Some(d))); let hi = below(d.checked_add(1)); bin(B::And, &lo, &hi) }
                };
            } }
        }
        if let (K::Bin(B::UDiv, _, c), Some(_)) = (&y.k, cx) {
            if b != B::Eq && as_const(c).map_or(false, |c| c > 0) {
                return not(&bin(if b == B::Ult { B::Ule } else { B::Ult }, y, x));
            }
        }
    }
    // push binary operators into ite with constant leaves when the other side is constant
    if cy.is_some() && matches!(b, B::Add | B::Mul | B::And | B::Or | B::Xor | B::Shl | B::Ult | B::Ule | B::Slt | B::Sle | B::LShr | B::AShr) {
        if let K::Ite(d, p, q) = &x.k {
            if as_const(p).is_some() && as_const(q).is_some() { return ite(d, &bin(b, p, y), &bin(b, q, y)); }
        }
    }
    if cx.is_some() && matches!(b, B::Sub | B::Shl | B::Ult | B::Ule | B::Slt | B::Sle) {
        if let K::Ite(d, p, q) = &y.k {
            if as_const(p).is_some() && as_const(q).is_some() { return ite(d, &bin(b, x, p), &bin(b, x, q)); }
        }
    }
    node(K::Bin(b, x.clone(), y.clone()), rw)
}

/// Unsigned division and remainder of small numbers at their own width.
fn narrow(b: B, x: &Ex, y: &Ex) -> Option<Ex> {
    if let Some(0) = as_const(y) { return None; }
    // a divisor that may be zero keeps its meaning only at full width
    let (mx, my) = (umax(x), umax(y));
    let k = (128 - (mx | my).leading_zeros()).max(1) as u16;
    if k >= x.w || !(as_const(y).is_some()) { return None; }
    Some(zext(&bin(b, &extract(x, 0, k), &extract(y, 0, k)), x.w))
}

fn cmp_zext(b: B, x: &Ex, y: &Ex) -> Option<Ex> {
    match (&x.k, &y.k) {
        (K::ZExt(a), K::ZExt(c)) if a.w == c.w => Some(bin(b, a, c)),
        (K::ZExt(a), K::Const(v)) => {
            if *v <= mask(a.w) { Some(bin(b, a, &cst(*v, a.w))) } else { Some(cst(1, 1)) }
        }
        (K::Const(v), K::ZExt(a)) => {
            if *v <= mask(a.w) { Some(bin(b, &cst(*v, a.w), a)) } else { Some(cst(0, 1)) }
        }
        _ => None,
    }
}

pub type Model = Vec<u128>; // indexed by variable id

pub fn eval(e: &Ex, m: &Model) -> u128 {
    let mut memo = HashMap::new();
    eval_m(e, m, &mut memo, 0)
}
fn eval_m(e: &Ex, m: &Model, memo: &mut HashMap<*const Node, u128>, d: u32) -> u128 {
    match &e.k {
        K::Const(v) => return *v,
        K::Var(i) => return m.get(*i as usize).copied().unwrap_or(0) & mask(e.w),
        _ => {}
    }
    let shared = Arc::strong_count(e) > 1 && d > 2;
    if shared { if let Some(v) = memo.get(&Arc::as_ptr(e)) { return *v; } }
    let d1 = d + 1;
    let r = match &e.k {
        K::Const(_) | K::Var(_) => unreachable!(),
        K::Not(a) => !eval_m(a, m, memo, d1) & mask(e.w),
        K::Bin(B::Concat, h, l) => (eval_m(h, m, memo, d1) << l.w) | eval_m(l, m, memo, d1),
        K::Bin(b, x, y) => fold(*b, eval_m(x, m, memo, d1), eval_m(y, m, memo, d1), x.w),
        K::Ite(c, x, y) => if eval_m(c, m, memo, d1) != 0 { eval_m(x, m, memo, d1) } else { eval_m(y, m, memo, d1) },
        K::Extract(a, lo) => (eval_m(a, m, memo, d1) >> lo) & mask(e.w),
        K::ZExt(a) => eval_m(a, m, memo, d1),
        K::SExt(a) => (sext128(eval_m(a, m, memo, d1), a.w) as u128) & mask(e.w),
    };
    if shared { memo.insert(Arc::as_ptr(e), r); }
    r
}

/// Substitute fixed variables.
pub fn subst(e: &Ex, fixed: &Fixed) -> Ex {
    if e.vars & fixed.set == 0 { return e.clone(); }
    let mut memo = HashMap::new();
    subst_m(e, fixed, &mut memo)
}
#[derive(Clone, Default)]
pub struct Fixed { pub set: VarSet, pub vals: HashMap<u32, u128> }
fn subst_m(e: &Ex, f: &Fixed, memo: &mut HashMap<*const Node, Ex>) -> Ex {
    if e.vars & f.set == 0 { return e.clone(); }
    if let Some(v) = memo.get(&Arc::as_ptr(e)) { return v.clone(); }
    let r = match &e.k {
        K::Const(_) => e.clone(),
        K::Var(i) => cst(f.vals[i], e.w),
        K::Not(a) => not(&subst_m(a, f, memo)),
        K::Bin(b, x, y) => bin(*b, &subst_m(x, f, memo), &subst_m(y, f, memo)),
        K::Ite(c, x, y) => {
            let c = subst_m(c, f, memo);
            match as_const(&c) {
                Some(0) => subst_m(y, f, memo),
                Some(_) => subst_m(x, f, memo),
                None => ite(&c, &subst_m(x, f, memo), &subst_m(y, f, memo)),
            }
        }
        K::Extract(a, lo) => extract(&subst_m(a, f, memo), *lo, e.w),
        K::ZExt(a) => zext(&subst_m(a, f, memo), e.w),
        K::SExt(a) => sext(&subst_m(a, f, memo), e.w),
    };
    memo.insert(Arc::as_ptr(e), r.clone());
    r
}

pub fn var_ids(mut s: VarSet) -> Vec<u32> {
    let mut v = vec![];
    while s != 0 { let i = s.trailing_zeros(); v.push(i); s &= s - 1; }
    v
}

/// Does the expression mix its inputs the way a hash does (many wide exclusive-ors)? Such conditions are out of a solver's reach.
pub fn mixes(e: &Ex) -> bool {
    fn go(e: &Ex, seen: &mut std::collections::HashSet<*const Node>, n: &mut u32) {
        if *n >= 8 || e.vars == 0 || seen.len() > 4000 || !seen.insert(Arc::as_ptr(e)) { return; }
        match &e.k {
            K::Const(_) | K::Var(_) => {}
            K::Not(a) | K::Extract(a, _) | K::ZExt(a) | K::SExt(a) => go(a, seen, n),
            K::Bin(b, x, y) => { if *b == B::Xor && e.w >= 32 { *n += 1; } go(x, seen, n); go(y, seen, n) }
            K::Ite(c, x, y) => { go(c, seen, n); go(x, seen, n); go(y, seen, n) }
        }
    }
    let (mut seen, mut n) = (Default::default(), 0);
    go(e, &mut seen, &mut n);
    n >= 8
}
