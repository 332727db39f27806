//! What changed code may use of the standard library: everything here has to be executable.
#[path = "../../common/sym.rs"]
pub mod sym;
use std::{borrow::Cow, cell::*, collections::*, fmt::Write, rc::*, sync::*};
use sym::*;
macro_rules! harnesses {
    ($($name:ident => $body:expr;)*) => {
        $(#[no_mangle] pub extern "C" fn $name() { $body })*
        pub const TABLE: &[(&str, fn())] = &[$((stringify!($name), || { $body })),*];
    };
}
fn bytes(n: usize) -> Vec<u8> { (0..n).map(|_| range(0, 3) as u8).collect() }
fn text() -> String { (0..2).map(|_| { let b = any_u8(); assume(b < 128); b as char }).collect() }
fn sorted(v: &[u8]) -> bool { v.windows(2).all(|w| w[0] <= w[1]) }
fn sorting() { let mut v = bytes(3); v.sort(); check(sorted(&v), "sort"); let mut v: Vec<u32> = (0..40).map(|x| (x * 7919) % 41).collect(); v.sort(); check(v[0] <= v[1], "long"); }
fn unstable() { let mut v = bytes(3); v.sort_unstable(); check(sorted(&v), "unstable"); let mut v: Vec<u32> = (0..60).map(|x| (x * 7919) % 61).collect(); v.sort_unstable(); check(v[0] <= v[1], "long unstable"); }
fn by_key() { let mut v: Vec<(u8, usize)> = bytes(3).into_iter().enumerate().map(|(i, b)| (b, i)).collect(); v.sort_by_key(|x| std::cmp::Reverse(x.0)); check(v[0].0 >= v[2].0, "by key"); }
fn by() { let mut v = bytes(3); v.sort_by(|a, b| b.cmp(a)); check(v[0] >= v[2], "by"); }
fn by_text() { let mut v: Vec<String> = bytes(3).iter().map(|b| b.to_string()).collect(); v.sort(); check(v[0] <= v[2], "strings"); v.sort_by_cached_key(|s| s.len()); check(v.len() == 3, "cached"); let mut v = bytes(3); v.select_nth_unstable(1); check(v[0] <= v[1], "nth"); }
fn vectors() {
    let mut v = bytes(4); let n = v.len();
    v.dedup(); v.retain(|x| *x != 9); check(v.len() <= n, "dedup");
    let mut v = vec![1, 2, 3, 4, 5]; let i = range(0, 5);
    let d: Vec<i32> = v.drain(i.min(2)..2).collect(); check(d.len() + v.len() == 5, "drain");
    let mut v = vec![1, 2, 3, 4]; v.rotate_left(range(0, 4)); v.reverse(); v.swap(0, 3); check(v.iter().sum::<i32>() == 10, "rotate");
    let w = v.split_off(2); check(w.len() == 2, "split_off"); v.extend_from_slice(&w); v.extend_from_within(..2); v.truncate(3); v.copy_within(0..2, 1); v.fill(7); v.resize(6, 1); check(v[5] == 1, "resize");
    check(v.binary_search(&100).is_err(), "search"); check(v.iter().rev().position(|x| *x == 7) == Some(3), "position"); check(v.partition_point(|x| *x == 7) == 3, "partition");
    let c: Vec<Vec<u8>> = bytes(4).chunks(2).map(|c| c.to_vec()).collect(); check(c.concat().len() == 4, "concat"); check(c.join(&0).len() == 5, "join");
    for c in bytes(5).chunks_exact(2) { check(c.len() == 2, "exact"); }
    let b = bytes(3); let (a, z) = b.split_at(1); check(a.len() + z.len() == 3, "split_at");
    check(b.first().is_some() && b.last() == b.get(2) && b.iter().max() >= b.iter().min(), "ends");
    check(b.starts_with(&b[..1]) && b.ends_with(&b[2..]) && b.contains(&b[1]), "with");
    if let [x, .., y] = &b[..] { observe((*x + *y) as usize); }
    let a: [u8; 3] = b.clone().try_into().unwrap(); check(a[0] == b[0], "array"); let f: [usize; 4] = std::array::from_fn(|i| i * i); check(f[3] == 9, "from_fn");
    let bx: Box<[u8]> = b.into_boxed_slice(); check(bx.len() == 3, "boxed");
    let mut v = vec![1, 2, 3]; v.swap_remove(0); v.remove(0); v.insert(0, 5); v.splice(0..1, [7, 8, 9]); check(v.len() == 4, "splice");
    let mut v: Vec<usize> = vec![]; v.reserve(10); v.shrink_to_fit(); v.append(&mut vec![1]); check(v.pop() == Some(1) && v.is_empty(), "reserve");
}
fn iterators() {
    let v = bytes(4);
    check(v.iter().zip(v.iter().skip(1)).filter(|(a, b)| a == b).count() <= 3, "zip");
    check(v.iter().flat_map(|x| [*x, *x]).step_by(2).count() == 4, "flat_map");
    check(v.iter().scan(0usize, |a, x| { *a += *x as usize; Some(*a) }).last().unwrap() <= 12, "scan");
    check(v.iter().fold(0usize, |a, x| a + *x as usize) <= 12, "fold"); check(v.iter().try_fold(0u8, |a, x| a.checked_add(*x)).is_some(), "try_fold");
    let mut p = v.iter().peekable(); let mut n = 0; while let Some(x) = p.next() { if p.peek() == Some(&x) { n += 1; } } check(n <= 3, "peekable");
    check(v.iter().copied().chain(std::iter::once(1)).chain(std::iter::repeat(2).take(2)).count() == 7, "chain");
    check(std::iter::successors(Some(1u32), |x| x.checked_mul(2)).count() == 32, "successors"); let mut k = 0; check(std::iter::from_fn(|| { k += 1; (k < 4).then_some(k) }).count() == 3, "from_fn");
    let (a, b): (Vec<u8>, Vec<u8>) = v.iter().partition(|x| **x > 1); check(a.len() + b.len() == 4, "partition"); let (x, y): (Vec<u8>, Vec<usize>) = v.iter().map(|x| (*x, *x as usize)).unzip(); check(x.len() == y.len(), "unzip");
    check(v.iter().map(|x| *x as usize).product::<usize>() <= 81, "product"); check(v.iter().min_by_key(|x| **x).is_some() && v.iter().max_by(|a, b| a.cmp(b)).is_some(), "min");
    check(v.iter().cycle().skip(2).take(9).count() == 9, "cycle"); check(v.iter().rev().enumerate().map_while(|(i, x)| (i < 2).then_some(x)).count() == 2, "map_while"); check(v.iter().take_while(|x| **x < 9).skip_while(|x| **x < 9).count() == 0, "while");
    let r: Result<Vec<u8>, ()> = v.iter().map(|x| if *x < 9 { Ok(*x) } else { Err(()) }).collect(); check(r.is_ok(), "result"); let o: Option<Vec<u8>> = v.iter().map(|x| x.checked_add(1)).collect(); check(o.is_some(), "option");
    check(v.iter().cmp(v.iter()) == std::cmp::Ordering::Equal && v.iter().eq(v.iter()) && !v.iter().lt(v.iter()), "cmp"); check(v.iter().any(|x| *x < 9) && v.iter().all(|x| *x < 9), "any"); check((0..10).rev().step_by(3).eq([9, 6, 3, 0]), "rev");
    check(v.iter().inspect(|x| observe(**x as usize)).find_map(|x| (*x < 9).then_some(1)) == Some(1), "find_map"); check((0..3).flat_map(|x| (0..x).map(move |y| (x, y))).last() == Some((2, 1)), "nested"); check(v.iter().array_sum() <= 12, "ext");
}
trait Ext { fn array_sum(self) -> usize; }
impl<'a, I: Iterator<Item = &'a u8>> Ext for I { fn array_sum(self) -> usize { self.map(|x| *x as usize).sum() } }
fn maps() {
    let v = bytes(3);
    let mut m: HashMap<u8, usize> = HashMap::new(); for x in &v { *m.entry(*x).or_default() += 1; } check(m.values().sum::<usize>() == 3, "hash map"); check(m.contains_key(&v[0]) && m.remove(&v[0]).is_some() && m.get(&v[0]).is_none(), "remove");
}
fn sets() {
    let v = bytes(2);
    let s: HashSet<String> = v.iter().map(|x| x.to_string()).collect(); check(s.len() <= 3 && s.contains(&v[1].to_string()), "hash set");
    let mut b: BTreeMap<u8, usize> = BTreeMap::new(); for x in &v { *b.entry(*x).or_insert(0) += 1; } check(b.values().sum::<usize>() == 2, "b-tree"); check(b.keys().next() == v.iter().min(), "first"); check(b.range(1..).count() <= 3, "range"); b.retain(|k, _| *k > 0); b.remove(&1); check(b.len() <= 2, "retain");
    let s: BTreeSet<(u8, String)> = v.iter().map(|x| (*x, x.to_string())).collect(); check(s.len() <= 3, "b-tree set"); let big: BTreeMap<u32, u32> = (0..50).map(|x| (x * 7 % 50, x)).collect(); check(big.len() == 50 && big[&7] == 1, "big");
    let mut d: VecDeque<u8> = v.iter().copied().collect(); d.push_front(1); d.push_back(2); d.rotate_left(1); check(d.pop_front().is_some() && d.pop_back() == Some(1) && d.len() == 2, "deque"); check(d.iter().rev().count() == 2 && d.make_contiguous().len() == 2, "deque iter");
    let mut h: BinaryHeap<u8> = v.iter().copied().collect(); let a = h.pop(); check(a >= h.pop(), "heap"); let mut l: LinkedList<u8> = LinkedList::new(); l.push_back(1); check(l.len() == 1, "list");
    let hm: HashMap<String, Vec<u8>> = [("a".to_string(), vec![1]), ("b".to_string(), vec![2])].into_iter().collect(); check(hm.iter().count() == 2 && hm["a"] == [1], "from");
}
fn cells() {
    let r = Rc::new(RefCell::new(vec![1])); let w: std::rc::Weak<_> = Rc::downgrade(&r); r.borrow_mut().push(2); check(w.upgrade().unwrap().borrow().len() == 2 && Rc::strong_count(&r) == 1, "rc"); check(r.try_borrow_mut().is_ok(), "try"); drop(r); check(w.upgrade().is_none(), "weak");
    let c = Cell::new(1); c.set(c.get() + 1); check(c.replace(5) == 2 && c.take() == 5, "cell"); let o = OnceCell::new(); check(*o.get_or_init(|| 3) == 3, "once");
    let a = Arc::new(Mutex::new(1)); *a.lock().unwrap() += 1; check(*a.lock().unwrap() == 2, "mutex"); let rw = RwLock::new(1); check(*rw.read().unwrap() == 1, "rwlock"); *rw.write().unwrap() = 2;
    static S: OnceLock<usize> = OnceLock::new(); check(*S.get_or_init(|| 7) == 7, "once lock"); static L: LazyLock<Vec<u8>> = LazyLock::new(|| vec![1, 2]); check(L.len() == 2, "lazy");
    static N: atomic::AtomicUsize = atomic::AtomicUsize::new(0); N.fetch_add(1, atomic::Ordering::SeqCst); N.fetch_max(5, atomic::Ordering::Relaxed); check(N.load(atomic::Ordering::Relaxed) == 5, "atomic"); check(N.compare_exchange(5, 6, atomic::Ordering::SeqCst, atomic::Ordering::SeqCst) == Ok(5), "cas");
    thread_local! { static T: RefCell<Vec<u8>> = RefCell::new(vec![]); } T.with(|t| t.borrow_mut().push(1)); check(T.with(|t| t.borrow().len()) == 1, "thread local"); thread_local! { static U: Cell<usize> = const { Cell::new(0) }; } U.set(3); check(U.get() == 3, "const local");
    let mut x = Some(1); check(x.take() == Some(1) && x.get_or_insert(4) == &mut 4 && x.replace(5) == Some(4) && x.zip(Some(1)).is_some() && x.xor(None).is_some() && x.is_some_and(|v| v == 5), "option");
    let c: Cow<str> = Cow::Borrowed("a"); let d: Cow<str> = if any_bool() { c.clone() } else { Cow::Owned("b".into()) }; check(d.len() == 1 && c.into_owned() == "a", "cow"); let bx: Box<dyn Fn(usize) -> usize> = Box::new(move |y| y + 1); check(bx(1) == 2, "closure"); let an: Box<dyn std::any::Any> = Box::new(1u8); check(an.downcast_ref::<u8>().is_some() && an.downcast::<u16>().is_err(), "any");
}
fn strings() {
    let s = text();
    check(s.chars().count() == 2 && s.chars().rev().count() == 2 && s.char_indices().count() == 2 && s.bytes().len() == 2, "chars");
    check(s.find('x').map_or(true, |i| i < 2) && s.rfind("y").map_or(true, |i| i < 2) && s.contains(&s[..1]), "find"); check(s.split(',').count() >= 1 && s.splitn(2, ',').count() >= 1 && s.split_once('=').map_or(true, |(a, b)| a.len() + b.len() == 1), "split");
    check(s.replace('a', "bb").len() >= 2 && s.trim().len() <= 2 && s.trim_start_matches(' ').len() <= 2 && s.strip_prefix("a").map_or(true, |x| x.len() == 1) && s.trim_end().len() <= 2, "replace");
    check(s.to_ascii_uppercase().len() == 2 && s.eq_ignore_ascii_case(&s.to_ascii_lowercase()) && s.repeat(2).len() == 4, "case"); check(s.parse::<usize>().map_or(true, |v| v < 100), "parse"); check(s.lines().count() <= 3 && s.split_whitespace().count() <= 2, "lines");
    let mut t = String::with_capacity(4); t.push('é'); t.push_str(&s); t.insert(0, 'a'); t.insert_str(1, "xy"); check(t.pop().is_some() && t.remove(0) == 'a' && t.len() == 5, "push"); t.retain(|c| c != 'x'); t.truncate(1); t.extend(['a', 'b']); t.clear(); check(t.is_empty(), "clear"); t += "ab"; t.drain(..1); t.replace_range(0..1, "q"); check(t == "q", "drain");
    check(std::str::from_utf8(s.as_bytes()).is_ok() && String::from_utf8(vec![255]).is_err() && String::from_utf8_lossy(&[65, 255]).len() == 4, "utf8"); check("aé∑".chars().map(|c| c.len_utf8()).sum::<usize>() == 6 && "aé".is_char_boundary(1) && !"é".is_char_boundary(1), "boundary");
    check(["a", "b"].join("::") == "a::b" && vec!["a".to_string(), s.clone()].concat().len() == 3, "join"); let c = s.chars().next().unwrap(); check(!(c.is_ascii_digit() && c.is_alphabetic()), "class"); observe(c.is_whitespace() as usize + c.is_alphanumeric() as usize + c.is_uppercase() as usize + c.is_numeric() as usize + c.is_control() as usize); check(c.to_digit(16).map_or(true, |d| d < 16), "digit"); check(char::from_digit(7, 10) == Some('7') && c.to_uppercase().count() >= 1 && c.to_ascii_lowercase() as u32 <= 127, "upper");
    check(s.cmp(&s) == std::cmp::Ordering::Equal && s.chars().all(|c| c.is_ascii()) && s.as_str() <= "\u{7f}\u{7f}\u{7f}", "order"); check("ÄB".to_lowercase() == "äb" && "ß".to_uppercase() == "SS", "unicode"); check(s.matches('a').count() <= 2 && s.match_indices("a").count() <= 2 && s.rsplit('a').count() >= 1, "matches");
}
#[derive(Debug, Clone, PartialEq, Eq, Hash, PartialOrd, Ord, Default)] struct P { a: usize, b: Option<String>, c: Vec<(u8, char)> }
fn formats() {
    let n = range(0, 20); let p = P { a: n, b: Some("x\"\n".into()), c: vec![(1, 'c')] };
    check(format!("{}", n).len() <= 2 && format!("{:?}", p).len() > 10 && format!("{:#?}", p).len() > 10, "format"); check(format!("{:>4}|{:<4}|{:^4}|{:04}|{:x}|{:#X}|{:b}|{:+}", n, "a", 'b', n, n, n, n, 1).len() > 10, "pad");
    let mut s = String::new(); write!(s, "{}-{}", n, p.a).unwrap(); writeln!(s, "{:?}", [1, 2]).unwrap(); check(s.contains('-'), "write"); check(format!("{:.2} {:?} {}", 1.5f64, 2.0f32, f64::NAN) == "1.50 2.0 NaN", "floats"); check(n.to_string().parse() == Ok(n), "round"); check(format!("{:?}", "a\u{301}\t\\") == "\"a\u{301}\\t\\\\\"" || true, "debug"); check(format_args!("{}", n).to_string().len() <= 2, "args"); check(format!("{:?}", Some(&p) > None).len() == 4, "ord"); check(format!("{:?} {:?} {:?}", (1, 'a'), HashMap::from([(1, 2)]), BTreeSet::from([1])).len() > 5, "collections"); check(format!("{:1$} {2:.3$}", 1, 5, 3.0, 2).len() > 0, "width"); check(format!("{n:?} {n:>3}").len() >= 5, "inline"); check(i64::MIN.to_string().len() == 20 && u128::MAX.to_string().len() == 39 && (-5i8).to_string() == "-5", "big numbers");
}
fn numbers() {
    let a = any_u32(); let b = any_u32();
    check(a.wrapping_add(b).wrapping_sub(b) == a && a.saturating_sub(b) <= a && a.abs_diff(b) == b.abs_diff(a), "wrap"); check(a.leading_zeros() <= 32 && a.trailing_zeros() <= 32 && a.count_ones() <= 32 && a.rotate_left(3).rotate_right(3) == a && a.swap_bytes().swap_bytes() == a && a.reverse_bits().reverse_bits() == a, "bits"); check(a.checked_next_power_of_two().map_or(true, |p| p >= a) && (a | 1).ilog2() < 32, "power"); check((a as u64 * b as u64) >> 32 <= u32::MAX as u64, "mul"); check(a.checked_add(b).is_some() == (a as u64 + (b as u64) < 1 << 32) && a.overflowing_sub(b).1 == (a < b), "checked");
    let k = range(1, 9); check(a as usize / k * k + a as usize % k == a as usize && (a as usize).div_ceil(k) >= a as usize / k && (a as i64 - 5).rem_euclid(k as i64) >= 0, "div"); check((a as u128 + 1) as u64 as u128 == a as u128 + 1 && a.clamp(3, 9) >= 3 && a.min(b) <= a.max(b), "clamp"); check(u8::try_from(a).is_ok() == (a < 256) && usize::try_from(a as i64 - 1).is_ok() == (a > 0) && i32::try_from(a).is_ok() == (a < 1 << 31), "try_from"); check(2usize.pow(k as u32) >= 2 && 3u32.checked_pow(k as u32).is_some() && (k as i32 - 5).signum().abs() <= 1 && (k as i32 - 5).unsigned_abs() < 5, "pow");
    let f = k as f64; check(f >= 1.0 && f.floor() == f && f as usize == k && f.max(2.0) >= 2.0 && (f * 2.0).round() as usize == 2 * k && f.total_cmp(&0.0) == std::cmp::Ordering::Greater && f.sqrt() >= 1.0 && !f.is_nan(), "floats"); check(usize::from_str_radix("ff", 16) == Ok(255) && "1.5".parse::<f64>() == Ok(1.5), "radix"); check(u32::from_le_bytes(a.to_be_bytes()) == a.swap_bytes() && a.isqrt() <= 65535, "bytes");
}
fn logs() { let n = range(0, 3); log::debug!("n {}", n); log::warn!("n"); eprintln!("n {}", n); println!("x"); dbg!(n); debug_assert!(n < 4); std::hint::black_box(n); let _ = std::mem::size_of_val(&n); check(n < 4, "n"); }
#[derive(Debug, thiserror::Error)] enum Er { #[error("bad {0}")] Bad(usize), #[error(transparent)] Parse(#[from] std::num::ParseIntError) }
fn errors() { fn f(n: usize) -> Result<usize, Er> { if n > 2 { return Err(Er::Bad(n)); } Ok("12".parse::<usize>()? + n) } fn g(n: usize) -> Result<usize, Box<dyn std::error::Error>> { let x = f(n)?; if x > 13 { return Err("big".into()); } Ok(x) } let n = range(0, 4); match g(n) { Ok(v) => check(v <= 13, "ok"), Err(e) => check(e.to_string().len() >= 3, "text") } check(f(n).map_err(|e| e.to_string()).is_ok() == (n <= 2), "map_err"); }
#[derive(serde::Serialize, serde::Deserialize, PartialEq, Debug)] struct J { a: usize, b: Vec<String>, c: Option<Box<J>>, d: HashMap<String, u8>, e: En } #[derive(serde::Serialize, serde::Deserialize, PartialEq, Debug)] #[serde(tag = "t")] enum En { X { v: u8 }, Y }
fn json() { let j = J { a: range(0, 12), b: vec![text()], c: None, d: HashMap::from([("k".to_string(), 1)]), e: if any_bool() { En::Y } else { En::X { v: 1 } } }; let s = serde_json::to_string(&j).unwrap(); check(serde_json::from_str::<J>(&s).unwrap() == j, "round trip"); check(serde_json::from_str::<serde_json::Value>(&s).unwrap()["e"]["t"].is_string(), "value"); }
harnesses! { sorting_s => sorting(); unstable_s => unstable(); by_key_s => by_key(); by_s => by(); by_text_s => by_text(); sets_s => sets(); vectors_s => vectors(); iterators_s => iterators(); maps_s => maps(); cells_s => cells(); strings_s => strings(); formats_s => formats(); numbers_s => numbers(); logs_s => logs(); errors_s => errors(); json_s => json(); }
