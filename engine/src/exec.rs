//! Symbolic executor over the parsed LLVM IR.
use crate::expr::*;
use crate::ir::{self, Callee, Cast, Func, Global, Module, Opnd, Pred, Ty, C, I};
use crate::solver::{Answer, Solver};
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering::*};
use std::sync::{Arc, Condvar, Mutex};
use std::time::{Duration, Instant};

#[derive(Clone, Debug)]
pub enum V { I(u128, u16), E(Ex), Agg(Arc<Vec<V>>) }

impl V {
    fn ex(&self) -> Ex { match self { V::I(v, w) => cst(*v, *w), V::E(e) => e.clone(), V::Agg(_) => panic!("aggregate used as scalar") } }
    fn from(e: Ex) -> V { match as_const(&e) { Some(v) => V::I(v, e.w), None => V::E(e) } }
}

#[derive(Clone)]
pub struct Obj { pub size: u64, pub data: Vec<u8>, pub sym: BTreeMap<u32, (Ex, u8)>, pub stack: bool, pub ro: bool }

#[derive(Clone)]
pub struct Frame { f: Arc<Func>, bb: u32, ip: usize, prev: u32, regs: Vec<V>, allocas: Vec<u64>, dst: Option<u32>, normal: Option<u32> }

#[derive(Clone)]
pub struct State {
    stack: Vec<Arc<Frame>>,
    mem: BTreeMap<u64, Arc<Obj>>,
    next: u64,
    pc: Vec<Ex>,
    fixed: Fixed,
    model: Model,
    widths: Vec<u16>,
    events: Vec<(u8, String, Option<Ex>)>,
    allow_panic: bool,
    steps: u64,
    forks: u32,
    checks: u32,
}

#[derive(Clone, Debug)]
pub struct Finding { pub kind: String, pub label: String, pub inputs: Vec<(u16, u128)>, pub stack: Vec<String> }

#[derive(Clone)]
pub struct Sample { pub inputs: Vec<(u16, u128)>, pub digest: u64, pub events: usize, pub rank: u64 }

enum End { Done, Killed, Panic(String), Check(String), Limit, Engine(String) }
enum Flow { Go, End(End) }

pub struct Cfg { pub threads: usize, pub max_steps: u64, pub time_limit: Duration, pub stop_after: usize, pub seed: u64, pub samples: usize, pub query_ms: u64, pub dump_every: u64, pub max_fan: usize, pub fixed_inputs: Vec<u128>, pub fixed_const: bool }

#[derive(Default)]
pub struct Stats {
    pub paths: u64, pub killed: u64, pub panics_allowed: u64, pub steps: u64, pub max_path_steps: u64, pub forks: u64, pub max_depth: u32,
    pub queries: u64, pub sat: u64, pub unsat: u64, pub solver_ns: u128, pub solver_max_ns: u128, pub cache_hits: u64, pub model_hits: u64,
    pub checks_solver: u64, pub checks_simplified: u64, pub violated: u64, pub max_vars: usize,
    pub findings: Vec<Finding>, pub errors: Vec<Finding>, pub labels: BTreeMap<String, u64>, pub reached: BTreeMap<String, u64>, pub expected: BTreeSet<String>,
    pub samples: Vec<Sample>, pub dumped: Vec<(String, bool)>, pub timed_out: bool,
}

struct Shared { q: Mutex<(Vec<State>, usize)>, cv: Condvar, qlen: AtomicUsize, stop: AtomicBool, nfind: AtomicUsize, paths: AtomicU64 }

pub struct Engine { pub m: Module, gidx: Vec<usize>, init: Vec<Arc<Obj>>, pub covered: Vec<AtomicBool>, pub names: Vec<String>, pub panic_rx: Vec<&'static str> }

pub const HEAP: u64 = 0x6000_0000_0000;
pub const STACKB: u64 = 0x6000_0000_0000;

fn hash_str(h: u64, s: &str) -> u64 { let mut h = h; for b in s.bytes() { h ^= b as u64; h = h.wrapping_mul(0x100000001b3); } h }
pub fn digest(evs: &[(u8, String, Option<u128>)]) -> u64 {
    let mut h = 0xcbf29ce484222325u64;
    for (k, s, v) in evs {
        h = hash_str(h, match k { 0 => "C", 1 => "R", _ => "O" });
        h = hash_str(h, s);
        if let Some(v) = v { h = hash_str(h, &format!("{}", v)); }
    }
    h
}

impl Engine {
    pub fn new(m: Module) -> Self {
        let mut gidx: Vec<usize> = (0..m.globals.len()).collect();
        gidx.sort_by_key(|i| m.globals[*i].addr);
        let init = m.globals.iter().map(|g: &Global| Arc::new(Obj { size: g.size, data: g.bytes.clone(), sym: BTreeMap::new(), stack: false, ro: g.constant })).collect();
        let n = m.funcs.len();
        let mut names = vec![String::new(); n];
        for f in m.funcs.values() { names[f.id] = f.name.clone(); }
        Engine { gidx, init, covered: (0..n).map(|_| AtomicBool::new(false)).collect(), names, m, panic_rx: vec![
            "_ZN4core9panicking", "_ZN3std9panicking", "_ZN5alloc5alloc18handle_alloc_error", "_ZN5alloc7raw_vec12handle_error", "_ZN5alloc7raw_vec17capacity_overflow",
            "rust_begin_unwind", "rust_panic", "_ZN4core6option13expect_failed", "_ZN4core6option13unwrap_failed", "_ZN4core6result13unwrap_failed",
            "_ZN4core5slice5index", "_ZN4core3str16slice_error_fail", "_ZN4core4cell22panic_already", "_ZN4core3num", "_ZN3std7process5abort", "abort", "__rust_start_panic", "_ZN4core3str19slice_error_fail_rt",
        ] }
    }
    fn is_panic(&self, n: &str) -> bool {
        if n.starts_with("_ZN4core5slice5index") { return n.contains("_fail"); }
        if n.starts_with("_ZN4core3num") { return false; }
        if n.starts_with("_ZN3std9panicking") { return !n.contains("panic_count") && !n.contains("panicking8") || n.contains("begin_panic"); }
        self.panic_rx.iter().any(|p| if p.starts_with("_ZN") { n.starts_with(p) } else { n == *p }) || (n.contains("slice") && n.contains("_fail17h"))
            || (n.contains("panic") && (n.contains("cold_explicit") || n.contains("panic_fmt") || n.contains("assert_failed")))
    }

    pub fn run(&self, entry: &str, cfg: &Cfg) -> Result<Stats, String> {
        let f = self.m.funcs.get(entry).ok_or_else(|| format!("no entry {}", entry))?.clone();
        let st = State {
            stack: vec![Arc::new(Frame { regs: vec![V::I(0, 64); f.nregs as usize], f, bb: 0, ip: 0, prev: 0, allocas: vec![], dst: None, normal: None })],
            mem: BTreeMap::new(), next: HEAP, pc: vec![], fixed: Fixed::default(), model: vec![], widths: vec![], events: vec![], allow_panic: false, steps: 0, forks: 0, checks: 0,
        };
        let sh = Shared { q: Mutex::new((vec![st], 0)), cv: Condvar::new(), qlen: AtomicUsize::new(1), stop: AtomicBool::new(false), nfind: AtomicUsize::new(0), paths: AtomicU64::new(0) };
        let t0 = Instant::now();
        let total = Mutex::new(Stats::default());
        std::thread::scope(|s| {
            for _ in 0..cfg.threads {
                std::thread::Builder::new().stack_size(512 << 20).spawn_scoped(s, || {
                    let mut w = Worker { e: self, cfg, sh: &sh, sol: Solver::new(cfg.query_ms, cfg.dump_every), local: vec![], st: Stats::default(), cache: HashMap::new(), t0 };
                    w.run();
                    let mut t = total.lock().unwrap();
                    w.finish(&mut t);
                }).unwrap();
            }
        });
        let mut t = total.into_inner().unwrap();
        t.samples.sort_by_key(|s| s.rank);
        t.samples.truncate(cfg.samples);
        Ok(t)
    }
}

struct Worker<'a> { e: &'a Engine, cfg: &'a Cfg, sh: &'a Shared, sol: Solver, local: Vec<State>, st: Stats, cache: HashMap<(u64, u64), Option<Vec<(u32, u128)>>>, t0: Instant }

type R<T> = Result<T, End>;
macro_rules! eng { ($($a:tt)*) => { End::Engine(format!($($a)*)) } }

enum Feas { Yes(Model), No }

impl<'a> Worker<'a> {
    fn finish(&mut self, t: &mut Stats) {
        let s = &mut self.st;
        t.paths += s.paths; t.killed += s.killed; t.panics_allowed += s.panics_allowed; t.steps += s.steps; t.forks += s.forks;
        t.max_path_steps = t.max_path_steps.max(s.max_path_steps); t.max_depth = t.max_depth.max(s.max_depth); t.max_vars = t.max_vars.max(s.max_vars);
        t.queries += self.sol.queries; t.sat += self.sol.sat; t.unsat += self.sol.unsat; t.solver_ns += self.sol.time.as_nanos(); t.solver_max_ns = t.solver_max_ns.max(self.sol.max.as_nanos());
        t.cache_hits += s.cache_hits; t.model_hits += s.model_hits; t.checks_solver += s.checks_solver; t.checks_simplified += s.checks_simplified; t.violated += s.violated;
        t.findings.append(&mut s.findings); t.errors.append(&mut s.errors);
        for (k, v) in &s.labels { *t.labels.entry(k.clone()).or_default() += v; }
        for (k, v) in &s.reached { *t.reached.entry(k.clone()).or_default() += v; }
        t.expected.append(&mut s.expected);
        t.samples.append(&mut s.samples); t.dumped.append(&mut self.sol.dumped); t.timed_out |= s.timed_out;
    }

    fn run(&mut self) {
        loop {
            let mut s = match self.local.pop() {
                Some(s) => s,
                None => {
                    let mut g = self.sh.q.lock().unwrap();
                    loop {
                        if self.sh.stop.load(Relaxed) { self.sh.cv.notify_all(); return; }
                        if let Some(s) = g.0.pop() { g.1 += 1; self.sh.qlen.store(g.0.len(), Relaxed); break s; }
                        if g.1 == 0 { self.sh.cv.notify_all(); return; }
                        g = self.sh.cv.wait(g).unwrap();
                    }
                }
            };
            let end = self.exec(&mut s);
            self.end(s, end);
            if self.t0.elapsed() > self.cfg.time_limit { self.st.timed_out = true; self.sh.stop.store(true, Relaxed); }
            if self.sh.stop.load(Relaxed) { self.local.clear(); let mut g = self.sh.q.lock().unwrap(); g.1 -= 1; self.sh.cv.notify_all(); return; }
            if self.local.is_empty() { let mut g = self.sh.q.lock().unwrap(); g.1 -= 1; if g.1 == 0 && g.0.is_empty() { self.sh.cv.notify_all(); } }
        }
    }

    fn inputs(s: &State) -> Vec<(u16, u128)> { s.widths.iter().enumerate().map(|(i, w)| (*w, s.model.get(i).copied().unwrap_or(0) & mask(*w))).collect() }
    fn stack_names(s: &State) -> Vec<String> { s.stack.iter().rev().take(12).map(|f| f.f.name.clone()).collect() }

    fn end(&mut self, s: State, mut end: End) {
        if matches!(end, End::Panic(_) | End::Check(_)) && (s.pc.iter().any(|c| eval(c, &s.model) == 0) || s.fixed.vals.iter().any(|(i, v)| s.model[*i as usize] != *v)) {
            end = End::Engine("a finding's model does not satisfy its path condition".into());
        }
        self.st.steps += s.steps;
        self.st.max_path_steps = self.st.max_path_steps.max(s.steps);
        self.st.max_depth = self.st.max_depth.max(s.forks);
        self.st.max_vars = self.st.max_vars.max(s.widths.len());
        let mk = |kind: &str, label: String| Finding { kind: kind.into(), label, inputs: Self::inputs(&s), stack: Self::stack_names(&s) };
        let found = |w: &mut Self, f: Finding| { w.st.violated += 1; if w.st.findings.len() < 64 { w.st.findings.push(f); } if w.sh.nfind.fetch_add(1, Relaxed) + 1 >= w.cfg.stop_after { w.sh.stop.store(true, Relaxed); } };
        match end {
            End::Done | End::Panic(_) if !matches!(&end, End::Panic(_)) || s.allow_panic => {
                if matches!(end, End::Panic(_)) { self.st.panics_allowed += 1; }
                self.st.paths += 1;
                // deterministic pseudo-random sample of completed paths
                let inp = Self::inputs(&s);
                let mut h = self.cfg.seed.wrapping_mul(0x9E3779B97F4A7C15) ^ 0x1234567;
                for (w, v) in &inp { h = (h ^ (*v as u64) ^ ((*w as u64) << 50)).wrapping_mul(0xff51afd7ed558ccd); h ^= h >> 29; }
                let worst = if self.st.samples.len() < self.cfg.samples { u64::MAX } else { self.st.samples.iter().map(|x| x.rank).max().unwrap_or(u64::MAX) };
                if self.cfg.samples > 0 && h < worst {
                    let evs: Vec<(u8, String, Option<u128>)> = s.events.iter().map(|(k, l, e)| (*k, l.clone(), e.as_ref().map(|e| eval(e, &s.model)))).collect();
                    if self.st.samples.len() >= self.cfg.samples { let i = (0..self.st.samples.len()).max_by_key(|i| self.st.samples[*i].rank).unwrap(); self.st.samples.swap_remove(i); }
                    self.st.samples.push(Sample { inputs: inp, digest: digest(&evs), events: evs.len(), rank: h });
                }
                for (k, l, _) in &s.events { if *k == 0 { *self.st.labels.entry(l.clone()).or_default() += 1; } else if *k == 1 { *self.st.reached.entry(l.clone()).or_default() += 1; } }
            }
            End::Done => unreachable!(),
            End::Killed => self.st.killed += 1,
            End::Panic(m) => { let f = mk("panic", m); found(self, f) }
            End::Check(l) => { let f = mk("check", l); found(self, f) }
            End::Limit => { let f = mk("limit", format!("no termination within {} steps", self.cfg.max_steps)); self.st.errors.push(f); if self.st.errors.len() > 20 { self.sh.stop.store(true, Relaxed); } }
            End::Engine(m) => { let f = mk("engine", m); if self.st.errors.len() < 20 { self.st.errors.push(f); } if self.st.errors.len() >= 20 { self.sh.stop.store(true, Relaxed); } }
        }
    }

    fn push_local(&mut self, s: State) {
        self.st.forks += 1;
        self.local.push(s);
        if self.sh.qlen.load(Relaxed) < self.cfg.threads && self.local.len() > 1 {
            let mut g = self.sh.q.lock().unwrap();
            let n = (self.local.len() / 2).max(1);
            for x in self.local.drain(0..n) { g.0.push(x); }
            self.sh.qlen.store(g.0.len(), Relaxed);
            self.sh.cv.notify_all();
        } else if self.sh.qlen.load(Relaxed) < self.cfg.threads && self.local.len() == 1 && self.cfg.threads > 1 {
            // the current state keeps this worker busy; hand the fork over
            let x = self.local.pop().unwrap();
            let mut g = self.sh.q.lock().unwrap();
            g.0.push(x);
            self.sh.qlen.store(g.0.len(), Relaxed);
            self.sh.cv.notify_all();
        }
    }

    // ---------- solver front end ----------
    fn feasible(&mut self, s: &State, extra: &Ex) -> R<Feas> {
        let e = subst(extra, &s.fixed);
        if let Some(c) = as_const(&e) { return Ok(if c != 0 { Feas::Yes(s.model.clone()) } else { Feas::No }); }
        if eval(&e, &s.model) != 0 { self.st.model_hits += 1; return Ok(Feas::Yes(s.model.clone())); }
        let ne = not(&e);
        for c in &s.pc { if eq_ex(c, &ne) { return Ok(Feas::No); } }
        // constraint slicing
        let mut set = e.vars;
        let mut used = vec![false; s.pc.len()];
        loop {
            let mut ch = false;
            for (i, c) in s.pc.iter().enumerate() { if !used[i] && c.vars & set != 0 { used[i] = true; set |= c.vars; ch = true; } }
            if !ch { break; }
        }
        let mut cs: Vec<Ex> = vec![];
        let (mut k1, mut k2) = (e.hash, e.hash.rotate_left(17) ^ 0x5555);
        for (i, c) in s.pc.iter().enumerate() { if used[i] { cs.push(c.clone()); k1 = k1.wrapping_add(c.hash.wrapping_mul(0x9E3779B97F4A7C15)); k2 ^= c.hash.wrapping_mul(0xc2b2ae3d27d4eb4f).rotate_left(31); } }
        cs.push(e);
        let r = match self.cache.get(&(k1, k2)) {
            Some(r) => { self.st.cache_hits += 1; r.clone() }
            None => {
                let r = match self.sol.check(&cs, &s.widths) { Answer::Unsat => None, Answer::Sat(m) => Some(m), Answer::Unknown(m) => return Err(eng!("solver: {}", m)) };
                if let Some(p) = &r {
                    // a model must satisfy every conjunct (guards the translation to z3)
                    let mut m = s.model.clone();
                    for (i, v) in p { m[*i as usize] = *v; }
                    for c in &cs { if eval(c, &m) == 0 { return Err(eng!("solver model does not satisfy the query")); } }
                }
                if self.cache.len() > 400_000 { self.cache.clear(); }
                self.cache.insert((k1, k2), r.clone());
                r
            }
        };
        Ok(match r { None => Feas::No, Some(p) => { let mut m = s.model.clone(); for (i, v) in p { m[i as usize] = v; } Feas::Yes(m) } })
    }

    fn add(&mut self, s: &mut State, c: &Ex) {
        let c = subst(c, &s.fixed);
        if as_const(&c).is_some() { return; }
        // split conjunctions
        if let K::Bin(B::And, a, b) = &c.k { if c.w == 1 { let (a, b) = (a.clone(), b.clone()); self.add(s, &a); self.add(s, &b); return; } }
        if s.pc.iter().any(|p| eq_ex(p, &c)) { return; }
        if let K::Bin(B::Eq, x, y) = &c.k {
            if let (K::Var(i), Some(v)) = (&x.k, as_const(y)) { self.fix(s, *i, v); return; }
        }
        s.pc.push(c);
    }
    fn fix(&mut self, s: &mut State, i: u32, v: u128) {
        let w = s.widths[i as usize];
        let bit = 1u128 << i;
        if s.fixed.set & bit != 0 { return; }
        // keep the equality as a path constraint on its own (it is implied by substitution afterwards)
        s.fixed.set |= bit; s.fixed.vals.insert(i, v);
        s.model[i as usize] = v & mask(w);
        let old = std::mem::take(&mut s.pc);
        for c in old {
            // fixing may cascade, so anything now fixed is substituted too
            if c.vars & s.fixed.set == 0 { s.pc.push(c); } else { self.add(s, &c); }
        }
    }

    fn consistent(s: &State, what: &str) {
        if !SELFTEST.load(Relaxed) { return; }
        for c in &s.pc { if eval(c, &s.model) == 0 { panic!("{}: the model does not satisfy {:?}: {:?}", what, c, s.model); } }
        for (i, v) in &s.fixed.vals { if s.model[*i as usize] != *v { panic!("{}: the model contradicts a fixed value", what); } }
    }
    /// Decide a branch condition; forks when both sides are feasible.
    fn branch(&mut self, s: &mut State, c: &Ex) -> R<bool> {
        let c = subst(c, &s.fixed);
        if let Some(v) = as_const(&c) { return Ok(v != 0); }
        let c = self.split_vars(s, c)?;
        if let Some(v) = as_const(&c) { return Ok(v != 0); }
        let b = eval(&c, &s.model) != 0;
        let (mine, other) = if b { (c.clone(), not(&c)) } else { (not(&c), c.clone()) };
        match self.feasible(s, &other)? {
            Feas::No => {}
            Feas::Yes(m) => {
                let mut o = s.clone();
                o.model = m;
                o.forks += 1; s.forks += 1;
                self.add(&mut o, &other);
                Self::consistent(&o, "other side");
                self.push_local(o);
                self.add(s, &mine);
                Self::consistent(s, "this side");
            }
        }
        Ok(b)
    }

    /// A huge expression over few input bits (a hash of a key, say): enumerate the inputs rather than the expression.
    fn split_vars(&mut self, s: &mut State, e: Ex) -> R<Ex> {
        let ids = var_ids(e.vars & !s.fixed.set);
        let bits: u32 = ids.iter().map(|i| s.widths[*i as usize] as u32).sum();
        if bits > 24 || !mixes(&e) { return Ok(e); }
        for i in ids { let v = var(i, s.widths[i as usize]); self.concretize(s, &v)?; }
        Ok(subst(&e, &s.fixed))
    }

    /// Enumerate the feasible values of an expression by forking; returns the value for this state.
    fn concretize(&mut self, s: &mut State, e: &Ex) -> R<u128> {
        let e = subst(e, &s.fixed);
        if let Some(v) = as_const(&e) { return Ok(v); }
        let e = self.split_vars(s, e)?;
        if let Some(v) = as_const(&e) { return Ok(v); }
        let v = eval(&e, &s.model);
        let eq = bin(B::Eq, &e, &cst(v, e.w));
        let ne = not(&eq);
        match self.feasible(s, &ne)? {
            Feas::No => {}
            Feas::Yes(m) => {
                let mut o = s.clone();
                o.model = m; o.forks += 1; s.forks += 1;
                self.add(&mut o, &ne);
                Self::consistent(&o, "other value");
                self.push_local(o);
                self.add(s, &eq);
                Self::consistent(s, "this value");
            }
        }
        // if the expression has exactly one free variable, find out whether it is now determined
        let ids = var_ids(e.vars & !s.fixed.set);
        if ids.len() == 1 {
            let i = ids[0];
            let w = s.widths[i as usize];
            let cur = s.model[i as usize];
            let d = not(&bin(B::Eq, &var(i, w), &cst(cur, w)));
            if let Feas::No = self.feasible(s, &d)? { self.fix(s, i, cur); }
        }
        Ok(v)
    }
    fn conc(&mut self, s: &mut State, v: &V) -> R<u64> {
        match v { V::I(x, _) => Ok(*x as u64), V::E(e) => Ok(self.concretize(s, e)? as u64), V::Agg(_) => Err(eng!("aggregate as scalar")) }
    }

    // ---------- memory ----------
    fn find<'s>(&'s self, s: &'s State, a: u64) -> Option<(u64, &'s Arc<Obj>)> {
        if a >= HEAP {
            let (b, o) = s.mem.range(..=a).next_back()?;
            if *b >= HEAP && a <= b + o.size { return Some((*b, o)); }
            return None;
        }
        let g = &self.e.gidx;
        let k = g.partition_point(|i| self.e.m.globals[*i].addr <= a);
        if k == 0 { return None; }
        let gl = &self.e.m.globals[g[k - 1]];
        if a > gl.addr + gl.size { return None; }
        if let Some(o) = s.mem.get(&gl.addr) { return Some((gl.addr, o)); }
        Some((gl.addr, &self.e.init[g[k - 1]]))
    }
    fn obj_mut<'s>(&self, s: &'s mut State, a: u64, n: u64) -> R<(u64, &'s mut Obj)> {
        let (b, o) = self.find(s, a).ok_or_else(|| eng!("store to unmapped address {:#x}", a))?;
        if a + n > b + o.size { return Err(eng!("out-of-bounds store {:#x}+{} in object of {}", a - b, n, o.size)); }
        if o.ro { return Err(eng!("store to constant global")); }
        if a < HEAP && !s.mem.contains_key(&b) { let o = o.clone(); s.mem.insert(b, o); }
        Ok((b, Arc::make_mut(s.mem.get_mut(&b).unwrap())))
    }
    fn load_bits(&self, s: &State, a: u64, n: u64) -> R<V> {
        let (b, o) = self.find(s, a).ok_or_else(|| eng!("load from unmapped address {:#x}", a))?;
        if a + n > b + o.size { return Err(eng!("out-of-bounds load {:#x}+{} in object of {}", a - b, n, o.size)); }
        let off = (a - b) as usize;
        let w = (n * 8) as u16;
        if o.sym.is_empty() || o.sym.range(off as u32..(off + n as usize) as u32).next().is_none() {
            let mut buf = [0u8; 16];
            buf[..n as usize].copy_from_slice(&o.data[off..off + n as usize]);
            return Ok(V::I(u128::from_le_bytes(buf), w));
        }
        // consecutive bytes of one expression?
        if let Some((e0, k0)) = o.sym.get(&(off as u32)) {
            let all = (1..n as u32).all(|i| matches!(o.sym.get(&(off as u32 + i)), Some((e, k)) if Arc::ptr_eq(e, e0) && *k as u32 == *k0 as u32 + i));
            if all { return Ok(V::from(extract(e0, *k0 as u16 * 8, w))); }
        }
        let mut acc: Option<Ex> = None;
        for i in (0..n as usize).rev() {
            let byte = match o.sym.get(&((off + i) as u32)) { Some((e, k)) => extract(e, *k as u16 * 8, 8), None => cst(o.data[off + i] as u128, 8) };
            acc = Some(match acc { None => byte, Some(h) => concat(&h, &byte) });
        }
        Ok(V::from(acc.unwrap()))
    }
    fn load(&self, s: &State, ty: &Ty, a: u64) -> R<V> {
        match ty {
            Ty::Int(_) | Ty::Ptr | Ty::Float(_) => {
                let n = ty.store_size();
                if n > 16 { return Err(eng!("wide load")); }
                let v = self.load_bits(s, a, n)?;
                let w = ty.bits();
                Ok(match v { V::I(x, _) => V::I(x & mask(w), w), V::E(e) => V::from(extract(&e, 0, w)), v => v })
            }
            Ty::Struct(ts, _) => { let mut v = vec![]; for (i, t) in ts.iter().enumerate() { v.push(self.load(s, t, a + ty.field_off(i))?); } Ok(V::Agg(Arc::new(v))) }
            Ty::Arr(n, t) => { let mut v = vec![]; for i in 0..*n { v.push(self.load(s, t, a + i * t.size())?); } Ok(V::Agg(Arc::new(v))) }
            Ty::Vec(n, t) => {
                if t.bits() % 8 != 0 { return Err(eng!("load of sub-byte vector")); }
                let mut v = vec![]; for i in 0..*n as u64 { v.push(self.load(s, t, a + i * t.size())?); } Ok(V::Agg(Arc::new(v)))
            }
            _ => Err(eng!("load type")),
        }
    }
    fn store(&self, s: &mut State, ty: &Ty, v: &V, a: u64) -> R<()> {
        match ty {
            Ty::Int(_) | Ty::Ptr | Ty::Float(_) => {
                let n = ty.store_size() as usize;
                let (b, o) = self.obj_mut(s, a, n as u64)?;
                let off = (a - b) as usize;
                if !o.sym.is_empty() { for i in 0..n { o.sym.remove(&((off + i) as u32)); } }
                match v {
                    V::I(x, _) => o.data[off..off + n].copy_from_slice(&x.to_le_bytes()[..n]),
                    V::E(e) => { let e = zext(e, n as u16 * 8); for i in 0..n { o.sym.insert((off + i) as u32, (e.clone(), i as u8)); } }
                    V::Agg(_) => return Err(eng!("store agg as scalar")),
                }
                Ok(())
            }
            Ty::Struct(ts, _) => { if let V::Agg(x) = v { for (i, t) in ts.iter().enumerate() { self.store(s, t, &x[i], a + ty.field_off(i))?; } Ok(()) } else { Err(eng!("store struct")) } }
            Ty::Arr(_, t) | Ty::Vec(_, t) => { 
                if t.bits() % 8 != 0 && matches!(ty, Ty::Vec(..)) { return Err(eng!("store of sub-byte vector")); }
                if let V::Agg(x) = v { for (i, y) in x.iter().enumerate() { self.store(s, t, y, a + i as u64 * t.size())?; } Ok(()) } else { Err(eng!("store arr")) } }
            _ => Err(eng!("store type")),
        }
    }
    fn memcpy(&self, s: &mut State, d: u64, p: u64, n: u64) -> R<()> {
        if n == 0 { return Ok(()); }
        let (b, o) = self.find(s, p).ok_or_else(|| eng!("memcpy from unmapped {:#x}", p))?;
        if p + n > b + o.size { return Err(eng!("out-of-bounds memcpy source")); }
        let off = (p - b) as usize;
        let data = o.data[off..off + n as usize].to_vec();
        let sym: Vec<(u32, (Ex, u8))> = if o.sym.is_empty() { vec![] } else { o.sym.range(off as u32..(off as u64 + n) as u32).map(|(k, v)| (*k - off as u32, v.clone())).collect() };
        let (b, o) = self.obj_mut(s, d, n)?;
        let off = (d - b) as usize;
        if !o.sym.is_empty() {
            let ks: Vec<u32> = o.sym.range(off as u32..(off as u64 + n) as u32).map(|(k, _)| *k).collect();
            for k in ks { o.sym.remove(&k); }
        }
        o.data[off..off + n as usize].copy_from_slice(&data);
        for (k, v) in sym { o.sym.insert(k + off as u32, v); }
        Ok(())
    }
    fn alloc(&self, s: &mut State, size: u64, align: u64, stack: bool) -> u64 {
        let a = ir::align_up(s.next, align.max(16));
        s.next = a + size + 32;
        s.mem.insert(a, Arc::new(Obj { size, data: vec![0; size as usize], sym: BTreeMap::new(), stack, ro: false }));
        a
    }
    fn byte(&self, s: &State, a: u64) -> R<Ex> { Ok(self.load_bits(s, a, 1)?.ex()) }
    fn cstr(&self, s: &State, a: u64, n: u64) -> R<String> {
        let mut v = vec![];
        for i in 0..n { match self.load_bits(s, a + i, 1)? { V::I(x, _) => v.push(x as u8), _ => return Err(eng!("symbolic label")) } }
        Ok(String::from_utf8_lossy(&v).into_owned())
    }

    // ---------- operands ----------
    fn cval(c: &C, ty: &Ty) -> V {
        match c {
            C::Int(v, w) => V::I(*v, *w),
            C::Zero(t) | C::Undef(t) => Self::zero(t),
            C::Agg(v) => V::Agg(Arc::new(v.iter().enumerate().map(|(i, x)| Self::cval(x, &ty.field(i))).collect())),
            C::Bytes(b) => V::Agg(Arc::new(b.iter().map(|x| V::I(*x as u128, 8)).collect())),
        }
    }
    fn zero(t: &Ty) -> V {
        match t {
            Ty::Struct(ts, _) => V::Agg(Arc::new(ts.iter().map(Self::zero).collect())),
            Ty::Arr(n, t) => V::Agg(Arc::new(vec![Self::zero(t); *n as usize])),
            Ty::Vec(n, t) => V::Agg(Arc::new(vec![Self::zero(t); *n as usize])),
            _ => V::I(0, t.bits().max(1)),
        }
    }
    fn op(fr: &Frame, o: &Opnd, ty: &Ty) -> V { match o { Opnd::Reg(r) => fr.regs[*r as usize].clone(), Opnd::Const(c) => Self::cval(c, ty) } }

    fn bin_v(&mut self, s: &mut State, op: B, a: &V, b: &V) -> R<V> {
        Ok(match (a, b) {
            (V::I(x, w), V::I(y, _)) => {
                if matches!(op, B::UDiv | B::SDiv | B::URem | B::SRem) && *y == 0 { return Err(eng!("division by zero reached")); }
                V::I(fold(op, *x, *y, *w), *w)
            }
            (V::Agg(x), V::Agg(y)) => { let mut v = vec![]; for (p, q) in x.iter().zip(y.iter()) { v.push(self.bin_v(s, op, p, q)?); } V::Agg(Arc::new(v)) }
            _ => {
                let y = b.ex();
                if matches!(op, B::UDiv | B::SDiv | B::URem | B::SRem) && as_const(&y).is_none() {
                    let z = bin(B::Eq, &y, &cst(0, y.w));
                    if let Feas::Yes(_) = self.feasible(s, &z)? { return Err(eng!("possible division by zero")); }
                }
                V::from(bin(op, &a.ex(), &y))
            }
        })
    }
    fn icmp(p: Pred, a: &V, b: &V) -> V {
        match (a, b) {
            (V::I(x, w), V::I(y, _)) => {
                let (sx, sy) = (sext128(*x, *w), sext128(*y, *w));
                V::I(match p { Pred::Eq => x == y, Pred::Ne => x != y, Pred::Ult => x < y, Pred::Ule => x <= y, Pred::Ugt => x > y, Pred::Uge => x >= y, Pred::Slt => sx < sy, Pred::Sle => sx <= sy, Pred::Sgt => sx > sy, Pred::Sge => sx >= sy } as u128, 1)
            }
            (V::Agg(x), V::Agg(y)) => V::Agg(Arc::new(x.iter().zip(y.iter()).map(|(a, b)| Self::icmp(p, a, b)).collect())),
            _ => {
                let (x, y) = (a.ex(), b.ex());
                V::from(match p { Pred::Eq => bin(B::Eq, &x, &y), Pred::Ne => not(&bin(B::Eq, &x, &y)), Pred::Ult => bin(B::Ult, &x, &y), Pred::Ule => bin(B::Ule, &x, &y), Pred::Ugt => bin(B::Ult, &y, &x), Pred::Uge => bin(B::Ule, &y, &x), Pred::Slt => bin(B::Slt, &x, &y), Pred::Sle => bin(B::Sle, &x, &y), Pred::Sgt => bin(B::Slt, &y, &x), Pred::Sge => bin(B::Sle, &y, &x) })
            }
        }
    }
    fn cast(op: Cast, a: &V, w: u16) -> V {
        match a {
            V::I(x, fw) => V::I(match op { Cast::Trunc => x & mask(w), Cast::SExt => sext128(*x, *fw) as u128 & mask(w), _ => *x }, w),
            V::E(e) => V::from(match op { Cast::Trunc => extract(e, 0, w), Cast::ZExt => zext(e, w), Cast::SExt => sext(e, w), Cast::Same | Cast::Bits => e.clone() }),
            V::Agg(v) => V::Agg(Arc::new(v.iter().map(|x| Self::cast(op, x, w)).collect())),
        }
    }
    /// Reinterpret a (vector) value as a (vector) type of the same total width: lane 0 holds the
    /// least significant bits.
    fn bitcast(a: &V, to: &Ty) -> R<V> {
        let lanes: Vec<Ex> = match a { V::Agg(v) => v.iter().map(|x| x.ex()).collect(), v => vec![v.ex()] };
        let (n, tw, vec) = match to { Ty::Vec(n, t) => (*n as usize, t.bits(), true), t => (1, t.bits(), false) };
        let fw = lanes[0].w;
        if fw as usize * lanes.len() != tw as usize * n || tw > 128 { return Err(eng!("bitcast widths")); }
        let mut out = vec![];
        for k in 0..n {
            let (mut lo, end) = (k * tw as usize, (k + 1) * tw as usize);
            let mut acc: Option<Ex> = None;
            while lo < end {
                let l = lo / fw as usize;
                let off = lo % fw as usize;
                let take = (fw as usize - off).min(end - lo);
                let piece = extract(&lanes[l], off as u16, take as u16);
                acc = Some(match acc { None => piece, Some(a) => concat(&piece, &a) });
                lo += take;
            }
            out.push(V::from(acc.unwrap()));
        }
        Ok(if vec { V::Agg(Arc::new(out)) } else { out.pop().unwrap() })
    }
    fn select_v(c: &Ex, a: &V, b: &V) -> V {
        match (a, b) {
            (V::Agg(x), V::Agg(y)) => V::Agg(Arc::new(x.iter().zip(y.iter()).map(|(p, q)| Self::select_v(c, p, q)).collect())),
            _ => V::from(ite(c, &a.ex(), &b.ex())),
        }
    }

    fn jump(&mut self, s: &mut State, to: u32) {
        let fr = Arc::make_mut(s.stack.last_mut().unwrap());
        let from = fr.bb;
        let f = fr.f.clone();
        let blk = &f.blocks[to as usize];
        if blk.nphi > 0 {
            let mut vals = Vec::with_capacity(blk.nphi);
            for ins in &blk.insts[..blk.nphi] {
                if let I::Phi { ty, inc } = &ins.i {
                    let o = inc.iter().find(|(_, l)| *l == from).expect("phi incoming");
                    vals.push(Self::op(fr, &o.0, ty));
                }
            }
            for (ins, v) in blk.insts[..blk.nphi].iter().zip(vals) { fr.regs[ins.dst.unwrap() as usize] = v; }
        }
        fr.prev = from;
        fr.bb = to;
        fr.ip = blk.nphi;
    }

    fn exec(&mut self, s: &mut State) -> End {
        let mut n = 0u64;
        loop {
            n += 1;
            s.steps += 1;
            if n & 0xfff == 0 {
                if s.steps > self.cfg.max_steps { return End::Limit; }
                if self.sh.stop.load(Relaxed) { return End::Killed; }
                if self.t0.elapsed() > self.cfg.time_limit { self.st.timed_out = true; self.sh.stop.store(true, Relaxed); return End::Killed; }
            }
            match self.step(s) { Ok(Flow::Go) => {} Ok(Flow::End(e)) => return e, Err(e) => return e }
        }
    }

    fn step(&mut self, s: &mut State) -> R<Flow> {
        let f = s.stack.last().unwrap().f.clone();
        let (bb, ip) = { let fr = s.stack.last().unwrap(); (fr.bb as usize, fr.ip) };
        let ins = &f.blocks[bb].insts[ip];
        macro_rules! o { ($o:expr, $t:expr) => { Self::op(s.stack.last().unwrap(), $o, $t) } }
        macro_rules! set { ($v:expr) => {{ let v = $v; let fr = Arc::make_mut(s.stack.last_mut().unwrap()); if let Some(d) = ins.dst { fr.regs[d as usize] = v; } fr.ip += 1; }} }
        match &ins.i {
            I::Bin { op, ty, a, b } => { let (a, b) = (o!(a, ty), o!(b, ty)); let v = self.bin_v(s, *op, &a, &b)?; set!(v) }
            I::ICmp { pred, ty, a, b } => { let v = Self::icmp(*pred, &o!(a, ty), &o!(b, ty)); set!(v) }
            I::Cast { op, from, to, a } => {
                let w = match to { Ty::Vec(_, t) => t.bits(), t => t.bits() };
                let v = if *op == Cast::Bits { Self::bitcast(&o!(a, from), to)? } else { Self::cast(*op, &o!(a, from), w) }; set!(v)
            }
            I::Float { op, from, to, args } => {
                let mut vals = vec![];
                for a in args { vals.push(o!(a, from)); }
                let v = self.float_v(s, op, from, to, &vals)?;
                set!(v)
            }
            I::Gep { base, off, terms } => {
                let mut v = o!(base, &Ty::Ptr);
                for (t, ty, sc) in terms {
                    let x = Self::cast(if ty.bits() < 64 { Cast::SExt } else { Cast::Same }, &o!(t, ty), 64);
                    v = match (&v, &x) {
                        (V::I(a, _), V::I(b, _)) => V::I(a.wrapping_add(b.wrapping_mul(*sc as u128)) & mask(64), 64),
                        _ => V::from(bin(B::Add, &v.ex(), &bin(B::Mul, &x.ex(), &cst(*sc as u128, 64)))),
                    };
                }
                if *off != 0 { v = match &v { V::I(a, _) => V::I(a.wrapping_add(*off as i128 as u128) & mask(64), 64), _ => V::from(bin(B::Add, &v.ex(), &cst(*off as i128 as u128, 64))) }; }
                set!(v)
            }
            I::Load { ty, p } => {
                let pv = o!(p, &Ty::Ptr);
                let v = match &pv {
                    V::E(e) => {
                        // lookup in a constant table: build an if-then-else chain instead of forking
                        match self.table_load(s, e, ty)? { Some(v) => v, None => { let a = self.concretize(s, e)? as u64; self.load(s, ty, a)? } }
                    }
                    V::I(a, _) => self.load(s, ty, *a as u64)?,
                    _ => return Err(eng!("vector load address")),
                };
                // values that only depend on fixed variables become constants
                let v = match v { V::E(e) if e.vars & s.fixed.set != 0 => V::from(subst(&e, &s.fixed)), v => v };
                set!(v)
            }
            I::Store { ty, v, p } => {
                let pv = o!(p, &Ty::Ptr);
                let v = o!(v, ty);
                let a = self.conc(s, &pv)?;
                self.store(s, ty, &v, a)?;
                set!(V::I(0, 1))
            }
            I::Alloca { size, align } => {
                let a = self.alloc(s, *size, *align, true);
                Arc::make_mut(s.stack.last_mut().unwrap()).allocas.push(a);
                set!(V::I(a as u128, 64))
            }
            I::Select { cty, c, a, b, ty } => {
                let c = o!(c, cty);
                let (a, b) = (o!(a, ty), o!(b, ty));
                let v = match &c {
                    V::I(x, _) => if *x != 0 { a } else { b },
                    V::E(e) => { let e = subst(e, &s.fixed); Self::select_v(&e, &a, &b) }
                    V::Agg(cs) => match (&a, &b) { (V::Agg(x), V::Agg(y)) => V::Agg(Arc::new(cs.iter().zip(x.iter().zip(y.iter())).map(|(c, (p, q))| Self::select_v(&c.ex(), p, q)).collect())), _ => return Err(eng!("select")) },
                };
                set!(v)
            }
            I::Phi { .. } => return Err(eng!("stray phi")),
            I::Br(t) => self.jump(s, *t),
            I::CondBr { c, t, f } => {
                let c = o!(c, &Ty::Int(1));
                let b = match &c { V::I(x, _) => *x != 0, V::E(e) => self.branch(s, e)?, _ => return Err(eng!("branch")) };
                self.jump(s, if b { *t } else { *f })
            }
            I::Switch { ty, v, default, cases } => {
                let x = match o!(v, ty) {
                    V::I(x, _) => x,
                    V::E(e) => {
                        // group by target: only fork per distinct case / default
                        let e = subst(&e, &s.fixed);
                        if let Some(x) = as_const(&e) { x } else {
                            let v = eval(&e, &s.model);
                            let tgt = cases.iter().find(|(c, _)| *c == v).map(|(_, t)| *t).unwrap_or(*default);
                            let mut cond = cst(0, 1);
                            for (c, t) in cases { if *t == tgt { cond = bin(B::Or, &cond, &bin(B::Eq, &e, &cst(*c, e.w))); } }
                            if tgt == *default {
                                let mut d = cst(1, 1);
                                for (c, t) in cases { if *t != tgt { d = bin(B::And, &d, &not(&bin(B::Eq, &e, &cst(*c, e.w)))); } }
                                cond = d;
                            }
                            let r = self.branch(s, &cond)?;
                            debug_assert!(r);
                            if !r { return Err(eng!("switch")); }
                            v
                        }
                    }
                    _ => return Err(eng!("switch")),
                };
                let t = cases.iter().find(|(c, _)| *c == x).map(|(_, t)| *t).unwrap_or(*default);
                self.jump(s, t)
            }
            I::Ret(r) => {
                let v = r.as_ref().map(|(t, o)| o!(o, t));
                let fr = s.stack.pop().unwrap();
                for a in &fr.allocas { s.mem.remove(a); }
                if s.stack.is_empty() { return Ok(Flow::End(End::Done)); }
                let (dst, normal) = (fr.dst, fr.normal);
                let top = Arc::make_mut(s.stack.last_mut().unwrap());
                if let (Some(d), Some(v)) = (dst, v) { top.regs[d as usize] = v; }
                match normal { Some(b) => self.jump(s, b), None => top.ip += 1 }
            }
            I::Unreachable => return Err(eng!("unreachable reached in {}", f.name)),
            I::Extract { agg, idx } => {
                let mut v = o!(agg, &Ty::Other);
                for i in idx { v = match &v { V::Agg(x) => x[*i as usize].clone(), _ => return Err(eng!("extractvalue")) }; }
                set!(v)
            }
            I::Insert { agg, v, idx, aty } => {
                let a = match agg { Opnd::Const(c) => match &**c { C::Undef(_) | C::Zero(_) => Self::zero(aty), c => Self::cval(c, aty) }, r => o!(r, aty) };
                let x = o!(v, &Ty::Other);
                fn ins_at(a: &V, idx: &[u64], x: V) -> V { if idx.is_empty() { return x; } if let V::Agg(v) = a { let mut v = (**v).clone(); v[idx[0] as usize] = ins_at(&v[idx[0] as usize], &idx[1..], x); V::Agg(Arc::new(v)) } else { a.clone() } }
                set!(ins_at(&a, idx, x))
            }
            I::ExtractElem { ty, v, i } => { let v = o!(v, ty); let i = o!(i, &Ty::Int(64)); let i = self.conc(s, &i)? as usize; let r = match &v { V::Agg(x) => x[i].clone(), _ => return Err(eng!("extractelement")) }; set!(r) }
            I::InsertElem { ty, v, e, i } => { let v = o!(v, ty); let e = o!(e, &Ty::Other); let i = o!(i, &Ty::Int(64)); let i = self.conc(s, &i)? as usize; let r = match &v { V::Agg(x) => { let mut x = (**x).clone(); x[i] = e; V::Agg(Arc::new(x)) } _ => return Err(eng!("insertelement")) }; set!(r) }
            I::Shuffle { ty, a, b, m, n } => {
                let (a, b) = (o!(a, ty), o!(b, ty));
                let (a, b) = match (a, b) { (V::Agg(a), V::Agg(b)) => (a, b), _ => return Err(eng!("shuffle")) };
                let mv = match Self::cval(m, &Ty::Vec(*n, Box::new(Ty::Int(32)))) { V::Agg(v) => v, _ => return Err(eng!("shuffle mask")) };
                let mut r = vec![];
                for k in mv.iter() { if let V::I(k, _) = k { let k = *k as usize; r.push(if k < a.len() { a[k].clone() } else { b.get(k - a.len()).cloned().unwrap_or(a[0].clone()) }); } }
                set!(V::Agg(Arc::new(r)))
            }
            I::Freeze { a } => { let v = o!(a, &Ty::Int(64)); set!(v) }
            I::AtomicRmw { op, ty, p, v } => {
                let (p, v) = (o!(p, &Ty::Ptr), o!(v, ty));
                let a = self.conc(s, &p)?;
                let old = self.load(s, ty, a)?;
                let new = match op.as_str() { "add" => self.bin_v(s, B::Add, &old, &v)?, "sub" => self.bin_v(s, B::Sub, &old, &v)?, "xchg" => v, "or" => self.bin_v(s, B::Or, &old, &v)?, "and" => self.bin_v(s, B::And, &old, &v)?, "xor" => self.bin_v(s, B::Xor, &old, &v)?, "nand" => V::from(bin(B::Xor, &bin(B::And, &old.ex(), &v.ex()), &cst(mask(ty.bits()), ty.bits()))), "umax" | "umin" | "max" | "min" => { let k = match op.as_str() { "max" => "smax", "min" => "smin", k => k }; self.scalar_intrinsic(op, k, &[old.clone(), v], ty.bits())? } o => return Err(eng!("atomicrmw {}", o)) };
                self.store(s, ty, &new, a)?;
                set!(old)
            }
            I::CmpXchg { ty, p, c, n } => {
                let (p, c, nv) = (o!(p, &Ty::Ptr), o!(c, ty), o!(n, ty));
                let a = self.conc(s, &p)?;
                let old = self.load(s, ty, a)?;
                let eq = Self::icmp(Pred::Eq, &old, &c);
                let ok = self.conc(s, &eq)? != 0;
                if ok { self.store(s, ty, &nv, a)?; }
                set!(V::Agg(Arc::new(vec![old, V::I(ok as u128, 1)])))
            }
            I::Nop => set!(V::I(0, 1)),
            I::Unsupported(t) => return Err(eng!("unsupported instruction in {}: {}", f.name, t)),
            I::Call { ret, callee, args, normal } => {
                let name: String = match callee {
                    Callee::Direct(n) => n.clone(),
                    Callee::Indirect(p) => { let p = o!(p, &Ty::Ptr); let a = self.conc(s, &p)?; self.e.m.fn_addr.get(&a).cloned().ok_or_else(|| eng!("indirect call to {:#x}", a))? }
                    Callee::Asm(t) => { if t.is_empty() { if *ret != Ty::Void { return Err(eng!("asm with result")); } set!(V::I(0, 1)); return Ok(Flow::Go); } 
                        // a processor that reports no optional features: std then picks its portable code
                        if t.contains("cpuid") { set!(V::Agg(Arc::new(vec![V::I(0, 32); 4]))); return Ok(Flow::Go); }
                        return Err(eng!("inline asm {}", t)); }
                };
                let vals: Vec<V> = args.iter().map(|(t, a)| o!(a, t)).collect();
                if self.e.is_panic(&name) { let m = self.panic_msg(s, &name, &vals); return Ok(Flow::End(End::Panic(m))); }
                if let Some(fun) = self.e.m.funcs.get(&name) {
                    if !name.starts_with("llvm.") && !LIBC.contains(&name.as_str()) {
                        self.e.covered[fun.id].store(true, Relaxed);
                        let mut regs = vec![V::I(0, 64); fun.nregs as usize];
                        for ((_, r), v) in fun.params.iter().zip(vals) { regs[*r as usize] = v; }
                        if s.stack.len() > 400 { return Err(End::Limit); }
                        s.stack.push(Arc::new(Frame { f: fun.clone(), bb: 0, ip: 0, prev: 0, regs, allocas: vec![], dst: ins.dst, normal: *normal }));
                        return Ok(Flow::Go);
                    }
                }
                match self.builtin(s, &name, vals, ret, args)? {
                    Ok(v) => { if let Some(n) = normal { let fr = Arc::make_mut(s.stack.last_mut().unwrap()); if let Some(d) = ins.dst { fr.regs[d as usize] = v; } self.jump(s, *n); } else { set!(v) } }
                    Err(e) => return Ok(Flow::End(e)),
                }
            }
        }
        Ok(Flow::Go)
    }

    fn table_load(&mut self, s: &mut State, e: &Ex, ty: &Ty) -> R<Option<V>> {
        if !matches!(ty, Ty::Int(_)) { return Ok(None); }
        let e = subst(e, &s.fixed);
        let (idx, scale, base) = match &e.k {
            K::Bin(B::Add, x, c) if as_const(c).is_some() => match &x.k {
                K::Bin(B::Mul, i, m) if as_const(m).is_some() => (i.clone(), as_const(m).unwrap() as u64, as_const(c).unwrap() as u64),
                _ => (x.clone(), 1, as_const(c).unwrap() as u64),
            },
            _ => return Ok(None),
        };
        if base >= HEAP { return Ok(None); }
        let n = umax(&idx);
        if n > 1024 { return Ok(None); }
        let (b, size) = match self.find(s, base) { Some((b, o)) if o.ro => (b, o.size), _ => return Ok(None) };
        let cnt = ((b + size - base) / scale.max(1)) as u128;
        let in_range = bin(B::Ult, &idx, &cst(cnt, idx.w));
        if let Feas::Yes(_) = self.feasible(s, &not(&in_range))? { return Ok(None); }
        let mut groups: Vec<(u128, Ex)> = vec![];
        for k in 0..cnt.min(n + 1) {
            let v = match self.load(s, ty, base + k as u64 * scale)? { V::I(v, _) => v, _ => return Ok(None) };
            let c = bin(B::Eq, &idx, &cst(k, idx.w));
            match groups.iter_mut().find(|(x, _)| *x == v) { Some((_, g)) => *g = bin(B::Or, g, &c), None => groups.push((v, c)) }
        }
        if groups.len() > 40 { return Ok(None); }
        let w = ty.bits();
        let mut r = cst(groups[0].0, w);
        for (v, c) in groups.iter().skip(1) { r = ite(c, &cst(*v, w), &r); }
        Ok(Some(V::from(r)))
    }

    fn panic_msg(&self, s: &State, name: &str, args: &[V]) -> String {
        // the last pointer argument of the panic entry points is a &core::panic::Location
        let mut loc = String::new();
        for a in args.iter().rev() {
            if let V::I(p, 64) = a {
                let p = *p as u64;
                if p < HEAP && p >= 0x1000_0000 {
                    if let (Ok(V::I(fp, _)), Ok(V::I(fl, _)), Ok(V::I(ln, _))) = (self.load_bits(s, p, 8), self.load_bits(s, p + 8, 8), self.load_bits(s, p + 16, 4)) {
                        if fl < 300 { if let Ok(t) = self.cstr(s, fp as u64, fl as u64) { if t.ends_with(".rs") { loc = format!(" at {}:{}", t, ln); break; } } }
                    }
                }
            }
        }
        format!("{}{}", name, loc)
    }

    fn new_var(&mut self, s: &mut State, w: u16, init: u128) -> R<Ex> {
        let i = s.widths.len();
        if i >= 128 { return Err(eng!("more than 128 symbolic inputs")); }
        s.widths.push(w);
        if let Some(v) = self.cfg.fixed_inputs.get(i) { s.model.push(v & mask(w)); if self.cfg.fixed_const { return Ok(cst(*v, w)); } let e = var(i as u32, w); self.add(s, &bin(B::Eq, &var(i as u32, w), &cst(*v, w))); return Ok(e); }
        s.model.push(init & mask(w));
        Ok(var(i as u32, w))
    }

    fn builtin(&mut self, s: &mut State, name: &str, a: Vec<V>, ret: &Ty, args: &[(Ty, Opnd)]) -> R<Result<V, End>> {
        let unit = V::I(0, 1);
        let w = ret.bits();
        // harness interface
        if let Some(x) = name.strip_prefix("sym_") {
            match x {
                "u8" => return Ok(Ok(V::E(self.new_var(s, 8, 0)?))),
                "u16" => return Ok(Ok(V::E(self.new_var(s, 16, 0)?))),
                "u32" => return Ok(Ok(V::E(self.new_var(s, 32, 0)?))),
                "u64" | "usize" => return Ok(Ok(V::E(self.new_var(s, 64, 0)?))),
                "bool" => { let v = self.new_var(s, 1, 0)?; return Ok(Ok(V::from(zext(&v, w.max(1))))) }
                "range" => {
                    // lo..=hi with concrete bounds; encoded in the narrowest width
                    let (lo, hi) = (self.conc(s, &a[0])?, self.conc(s, &a[1])?);
                    if lo > hi { return Ok(Err(End::Killed)); }
                    let d = hi - lo;
                    let bw = (64 - d.leading_zeros()).max(1) as u16;
                    let v = self.new_var(s, bw, 0)?;
                    if d == 0 { let i = (s.widths.len() - 1) as u32; self.fix(s, i, 0); return Ok(Ok(V::I(lo as u128, 64))); }
                    let c = bin(B::Ule, &v, &cst(d as u128, bw));
                    self.add(s, &c);
                    return Ok(Ok(V::from(bin(B::Add, &zext(&v, 64), &cst(lo as u128, 64)))));
                }
                "concretize" => { let v = self.conc(s, &a[0])?; return Ok(Ok(V::I(v as u128, 64))); }
                "assume" => {
                    let c = match &a[0] { V::I(x, _) => cst(*x & 1, 1), V::E(e) => extract(e, 0, 1), _ => return Err(eng!("assume")) };
                    let c = subst(&c, &s.fixed);
                    return Ok(match self.feasible(s, &c)? { Feas::No => Err(End::Killed), Feas::Yes(m) => { s.model = m; self.add(s, &c); Ok(unit) } });
                }
                "check" => {
                    let (p, n) = (self.conc(s, &a[1])?, self.conc(s, &a[2])?);
                    let label = self.cstr(s, p, n)?;
                    let c = match &a[0] { V::I(x, _) => cst(*x & 1, 1), V::E(e) => extract(e, 0, 1), _ => return Err(eng!("check")) };
                    let c = subst(&c, &s.fixed);
                    s.checks += 1;
                    match as_const(&c) {
                        Some(1) => self.st.checks_simplified += 1,
                        Some(_) => return Ok(Err(End::Check(label))),
                        None => {
                            self.st.checks_solver += 1;
                            match self.feasible(s, &not(&c))? {
                                Feas::Yes(m) => { s.model = m; return Ok(Err(End::Check(label))); }
                                Feas::No => {}
                            }
                        }
                    }
                    s.events.push((0, label, None));
                    return Ok(Ok(unit));
                }
                "reach" => { let (p, n) = (self.conc(s, &a[0])?, self.conc(s, &a[1])?); let l = self.cstr(s, p, n)?; s.events.push((1, l, None)); return Ok(Ok(unit)); }
                "expect" => { let (p, n) = (self.conc(s, &a[0])?, self.conc(s, &a[1])?); let l = self.cstr(s, p, n)?; self.st.expected.insert(l); return Ok(Ok(unit)); }
                "observe" => { let e = a[0].ex(); s.events.push((2, String::new(), Some(e))); return Ok(Ok(unit)); }
                "allow_panic" => { s.allow_panic = match &a[0] { V::I(x, _) => *x != 0, _ => return Err(eng!("allow_panic")) }; return Ok(Ok(unit)); }
                "stop" => return Ok(Err(End::Done)),
                "kill" => return Ok(Err(End::Killed)),
                _ => return Err(eng!("unknown harness function {}", name)),
            }
        }
        if name.starts_with("llvm.") {
            let n = &name[5..];
            if n.starts_with("lifetime") || n.starts_with("experimental.noalias") || n.starts_with("assume") || n.starts_with("dbg.") || n.starts_with("prefetch") || n.starts_with("x86.sse2.pause") { return Ok(Ok(unit)); }
            if n.starts_with("memcpy") || n.starts_with("memmove") {
                let len = self.conc(s, &a[2])?; if len == 0 { return Ok(Ok(unit)); }
                let (d, p) = (self.conc(s, &a[0])?, self.conc(s, &a[1])?);
                self.memcpy(s, d, p, len)?; return Ok(Ok(unit));
            }
            if n.starts_with("memset") {
                let len = self.conc(s, &a[2])?; if len == 0 { return Ok(Ok(unit)); }
                let d = self.conc(s, &a[0])?;
                self.obj_mut(s, d, len)?;
                for i in 0..len { self.store(s, &Ty::Int(8), &a[1], d + i)?; }
                return Ok(Ok(unit));
            }
            if n.starts_with("expect.") { return Ok(Ok(a[0].clone())); }
            if n.starts_with("is.constant") { return Ok(Ok(V::I(0, 1))); }
            if n.starts_with("objectsize") { return Ok(Ok(V::I(mask(w), w))); }
            if n.starts_with("threadlocal.address") || n.starts_with("launder") || n.starts_with("strip") || n.starts_with("ptrmask") && false { return Ok(Ok(a[0].clone())); }
            if n == "trap" || n.starts_with("ubsantrap") || n == "debugtrap" { return Ok(Err(End::Panic("llvm.trap".into()))); }
            if n.starts_with("load.relative") {
                let (p, o) = (self.conc(s, &a[0])?, self.conc(s, &a[1])?);
                let v = self.load(s, &Ty::Int(32), p.wrapping_add(o))?;
                let v = self.conc(s, &v)?;
                return Ok(Ok(V::I(p.wrapping_add(sext128(v as u128, 32) as u64) as u128, 64)));
            }
            if n.contains(".with.overflow.") {
                let (x, y) = (a[0].ex(), a[1].ex());
                let bw = x.w;
                let (r, o) = match &n[..4] {
                    "uadd" => { let r = bin(B::Add, &x, &y); let o = match umax(&x).checked_add(umax(&y)) { Some(v) if v <= mask(bw) => cst(0, 1), _ => bin(B::Ult, &r, &x) }; (r, o) }
                    "usub" => (bin(B::Sub, &x, &y), bin(B::Ult, &x, &y)),
                    "umul" => {
                        let o = match umax(&x).checked_mul(umax(&y)) { Some(v) if v <= mask(bw) => cst(0, 1), _ => {
                            if bw > 64 { return Err(eng!("umul.with.overflow.i{}", bw)); }
                            let p = bin(B::Mul, &zext(&x, bw * 2), &zext(&y, bw * 2));
                            not(&bin(B::Eq, &extract(&p, bw, bw), &cst(0, bw)))
                        } };
                        (bin(B::Mul, &x, &y), o)
                    }
                    k @ ("sadd" | "ssub" | "smul") => {
                        if bw > 63 && k == "smul" && bw * 2 > 128 { return Err(eng!("smul")); }
                        let ww = if k == "smul" { bw * 2 } else { bw + 1 };
                        if ww > 128 { return Err(eng!("{} i{}", k, bw)); }
                        let p = bin(match k { "sadd" => B::Add, "ssub" => B::Sub, _ => B::Mul }, &sext(&x, ww), &sext(&y, ww));
                        let r = extract(&p, 0, bw);
                        let o = not(&bin(B::Eq, &sext(&r, ww), &p));
                        (r, o)
                    }
                    _ => return Err(eng!("{}", name)),
                };
                return Ok(Ok(V::Agg(Arc::new(vec![V::from(r), V::from(o)]))));
            }
            if n.starts_with("vector.reduce.") {
                let v = match &a[0] { V::Agg(v) => v.clone(), _ => return Err(eng!("{}", name)) };
                let op = match n[14..].split('.').next().unwrap() { "add" => B::Add, "or" => B::Or, "and" => B::And, "xor" => B::Xor, _ => return Err(eng!("{}", name)) };
                let mut r = v[0].clone();
                for x in &v[1..] { r = self.bin_v(s, op, &r, x)?; }
                return Ok(Ok(r));
            }
            // floating point: the operands are enumerated, the result is computed natively
            if args.iter().any(|(t, _)| t.is_float()) || ret.is_float() {
                let from = args.iter().map(|(t, _)| t).find(|t| t.is_float()).unwrap_or(&args[0].0);
                return Ok(Ok(self.float_v(s, n.split(".f").next().unwrap().split(".i").next().unwrap().split(".v").next().unwrap(), from, ret, &a)?));
            }
            // element-wise intrinsics
            let base = n.split('.').take_while(|p| !(p.starts_with('i') && p[1..].bytes().all(|c| c.is_ascii_digit())) && !(p.starts_with('v') && p[1..2].bytes().all(|c| c.is_ascii_digit()))).collect::<Vec<_>>().join(".");
            if let V::Agg(x0) = &a[0] {
                let cnt = x0.len();
                let mut r = vec![];
                for i in 0..cnt {
                    let ai: Vec<V> = a.iter().map(|v| match v { V::Agg(x) => x[i].clone(), v => v.clone() }).collect();
                    let ew = match ret { Ty::Vec(_, t) => t.bits(), _ => return Err(eng!("{}", name)) };
                    r.push(self.scalar_intrinsic(name, &base, &ai, ew)?);
                }
                return Ok(Ok(V::Agg(Arc::new(r))));
            }
            return Ok(Ok(self.scalar_intrinsic(name, &base, &a, w)?));
        }
        match name {
            "malloc" | "calloc" | "aligned_alloc" => {
                let (size, align) = match name { "malloc" => (self.conc(s, &a[0])?, 16), "calloc" => (self.conc(s, &a[0])?.wrapping_mul(self.conc(s, &a[1])?), 16), _ => { let al = self.conc(s, &a[0])?; (self.conc(s, &a[1])?, al) } };
                if size > 1 << 28 { return Ok(Ok(V::I(0, 64))); }
                let p = self.alloc(s, size, align, false);
                Ok(Ok(V::I(p as u128, 64)))
            }
            "posix_memalign" => {
                let (pp, al, size) = (self.conc(s, &a[0])?, self.conc(s, &a[1])?, self.conc(s, &a[2])?);
                if size > 1 << 28 { return Ok(Ok(V::I(12, 32))); }
                let p = self.alloc(s, size, al, false);
                self.store(s, &Ty::Ptr, &V::I(p as u128, 64), pp)?;
                Ok(Ok(V::I(0, 32)))
            }
            "free" => {
                let p = self.conc(s, &a[0])?;
                if p == 0 { return Ok(Ok(unit)); }
                match s.mem.get(&p) { Some(o) if !o.stack && p >= HEAP => {} _ => return Err(eng!("invalid free of {:#x}", p)) }
                s.mem.remove(&p);
                Ok(Ok(unit))
            }
            "realloc" => {
                let (p, n) = (self.conc(s, &a[0])?, self.conc(s, &a[1])?);
                if n > 1 << 28 { return Ok(Ok(V::I(0, 64))); }
                let o = s.mem.get(&p).cloned().ok_or_else(|| eng!("invalid realloc"))?;
                let q = self.alloc(s, n, 16, false);
                self.memcpy(s, q, p, o.size.min(n))?;
                s.mem.remove(&p);
                Ok(Ok(V::I(q as u128, 64)))
            }
            "memcpy" | "memmove" => { let n = self.conc(s, &a[2])?; let (d, p) = (self.conc(s, &a[0])?, self.conc(s, &a[1])?); self.memcpy(s, d, p, n)?; Ok(Ok(a[0].clone())) }
            "bcmp" | "memcmp" => {
                let n = self.conc(s, &a[2])?;
                if n == 0 { return Ok(Ok(V::I(0, 32))); }
                let (p, q) = (self.conc(s, &a[0])?, self.conc(s, &a[1])?);
                if name == "bcmp" {
                    let mut all = cst(1, 1);
                    for i in 0..n { all = bin(B::And, &all, &bin(B::Eq, &self.byte(s, p + i)?, &self.byte(s, q + i)?)); }
                    Ok(Ok(V::from(ite(&all, &cst(0, 32), &cst(1, 32)))))
                } else {
                    let mut r = cst(0, 32);
                    for i in (0..n).rev() {
                        let (x, y) = (self.byte(s, p + i)?, self.byte(s, q + i)?);
                        let lt = ite(&bin(B::Ult, &x, &y), &cst(0xffff_ffff, 32), &cst(1, 32));
                        r = ite(&bin(B::Eq, &x, &y), &r, &lt);
                    }
                    Ok(Ok(V::from(r)))
                }
            }
            "strlen" => { let p = self.conc(s, &a[0])?; let mut n = 0; loop { match self.load_bits(s, p + n, 1)? { V::I(0, _) => break, V::I(..) => n += 1, _ => return Err(eng!("strlen of symbolic data")) } } Ok(Ok(V::I(n as u128, 64))) }
            "getrandom" => {
                let (p, n) = (self.conc(s, &a[0])?, self.conc(s, &a[1])?);
                for i in 0..n { self.store(s, &Ty::Int(8), &V::I((i * 37 + 11) as u128 & 255, 8), p + i)?; }
                Ok(Ok(V::I(n as u128, 64)))
            }
            "__cxa_thread_atexit_impl" => Ok(Ok(V::I(0, 32))),
            // output of the code under test goes nowhere
            "write" => { let n = self.conc(s, &a[2])?; Ok(Ok(V::I(n as u128, 64))) }
            "writev" => {
                let (p, n) = (self.conc(s, &a[1])?, self.conc(s, &a[2])?);
                let mut t = 0;
                for i in 0..n { let l = self.load(s, &Ty::Int(64), p + i * 16 + 8)?; t += self.conc(s, &l)?; }
                Ok(Ok(V::I(t as u128, 64)))
            }
            "isatty" | "fflush" | "pthread_key_create" | "sched_yield" => Ok(Ok(V::I(0, 32))),
            "getenv" => Ok(Ok(V::I(0, 64))),
            "gettid" | "pthread_self" => Ok(Ok(V::I(1, w))),
            "exit" | "_exit" => Ok(Err(End::Panic("exit".into()))),
            _ => { let _ = args; Err(eng!("call to external function {}", name)) }
        }
    }

    /// Floating-point operations: every operand is enumerated with the solver and the result computed natively.
    fn float_v(&mut self, s: &mut State, op: &str, from: &Ty, to: &Ty, a: &[V]) -> R<V> {
        if let Some(n) = a.iter().find_map(|v| match v { V::Agg(x) => Some(x.len()), _ => None }) {
            let el = |t: &Ty| match t { Ty::Vec(_, t) => (**t).clone(), t => t.clone() };
            let (f, t) = (el(from), el(to));
            let mut r = vec![];
            for i in 0..n {
                let ai: Vec<V> = a.iter().map(|v| match v { V::Agg(x) => x[i].clone(), v => v.clone() }).collect();
                r.push(self.float_v(s, op, &f, &t, &ai)?);
            }
            return Ok(V::Agg(Arc::new(r)));
        }
        let fw = from.bits();
        let tw = to.bits();
        let mut raw = vec![];
        for v in a { raw.push(match v { V::I(x, _) => *x, V::E(e) => self.concretize(s, e)?, _ => return Err(eng!("float operand")) }); }
        let float = |k: usize| if fw == 32 { f32::from_bits(raw[k] as u32) as f64 } else { f64::from_bits(raw[k] as u64) };
        if (from.is_float() && fw != 32 && fw != 64) || (to.is_float() && tw != 32 && tw != 64) { return Err(eng!("float width in {}", op)); }
        // double rounding is harmless for + - * / sqrt and the conversions below (53 >= 2 * 24 + 2)
        let out = |v: f64| V::I(if tw == 32 { (v as f32).to_bits() as u128 } else { v.to_bits() as u128 }, tw);
        let sx = |v: u128, w: u16| sext128(v, w) as i128;
        Ok(match op {
            "fadd" => out(float(0) + float(1)), "fsub" => out(float(0) - float(1)), "fmul" => out(float(0) * float(1)), "fdiv" => out(float(0) / float(1)), "frem" => out(float(0) % float(1)),
            "fneg" => V::I(raw[0] ^ (1u128 << (fw - 1)), fw),
            "fabs" => V::I(raw[0] & mask(fw - 1), fw),
            "copysign" => V::I((raw[0] & mask(fw - 1)) | (raw[1] & (1u128 << (fw - 1))), fw),
            "floor" => out(float(0).floor()), "ceil" => out(float(0).ceil()), "trunc" => out(float(0).trunc()), "round" => out(float(0).round()),
            "rint" | "nearbyint" | "roundeven" => out(float(0).round_ties_even()), "sqrt" => out(float(0).sqrt()),
            "minnum" => out(float(0).min(float(1))), "maxnum" => out(float(0).max(float(1))),
            "fma" | "fmuladd" if fw == 64 => out(float(0).mul_add(float(1), float(2))),
            "fptrunc" | "fpext" => out(float(0)),
            "uitofp" => if tw == 32 { V::I((raw[0] as f32).to_bits() as u128, 32) } else { V::I((raw[0] as f64).to_bits() as u128, 64) },
            "sitofp" => { let v = sx(raw[0], fw); if tw == 32 { V::I((v as f32).to_bits() as u128, 32) } else { V::I((v as f64).to_bits() as u128, 64) } }
            "fptoui" | "fptoui.sat" => V::I((float(0) as u128).min(mask(tw)), tw),
            "fptosi" | "fptosi.sat" => { let m = (mask(tw) >> 1) as i128; V::I((float(0) as i128).clamp(-m - 1, m) as u128 & mask(tw), tw) }
            _ => match op.strip_prefix("fcmp.") {
                Some(p) => {
                    let (x, y) = (float(0), float(1));
                    let un = x.is_nan() || y.is_nan();
                    let r = match p { "false" => false, "true" => true, "ord" => !un, "uno" => un,
                        _ => { let c = match &p[1..] { "eq" => x == y, "gt" => x > y, "ge" => x >= y, "lt" => x < y, "le" => x <= y, "ne" => x < y || x > y, _ => return Err(eng!("{}", op)) }; if p.starts_with('u') { un || c } else { c } } };
                    V::I(r as u128, 1)
                }
                None => return Err(eng!("floating-point {}", op)),
            },
        })
    }

    fn scalar_intrinsic(&mut self, name: &str, base: &str, a: &[V], w: u16) -> R<V> {
        let x = a[0].ex();
        let y = || a[1].ex();
        let pick = |c: Ex, p: &Ex, q: &Ex| V::from(ite(&c, p, q));
        let bw = x.w;
        Ok(match base {
            "umax" => { let y = y(); pick(bin(B::Ult, &x, &y), &y, &x) }
            "umin" => { let y = y(); pick(bin(B::Ult, &x, &y), &x, &y) }
            "smax" => { let y = y(); pick(bin(B::Slt, &x, &y), &y, &x) }
            "smin" => { let y = y(); pick(bin(B::Slt, &x, &y), &x, &y) }
            "usub.sat" => { let y = y(); pick(bin(B::Ult, &x, &y), &cst(0, bw), &bin(B::Sub, &x, &y)) }
            "uadd.sat" => { let y = y(); let r = bin(B::Add, &x, &y); pick(bin(B::Ult, &r, &x), &cst(mask(bw), bw), &r) }
            "abs" => { let n = bin(B::Sub, &cst(0, bw), &x); pick(bin(B::Slt, &x, &cst(0, bw)), &n, &x) }
            "ucmp" | "scmp" => {
                let y = y();
                let lt = bin(if base == "ucmp" { B::Ult } else { B::Slt }, &x, &y);
                let eq = bin(B::Eq, &x, &y);
                V::from(ite(&lt, &cst(mask(w), w), &ite(&eq, &cst(0, w), &cst(1, w))))
            }
            "bswap" => { let mut r = extract(&x, 0, 8); for i in 1..bw / 8 { r = concat(&r, &extract(&x, i * 8, 8)); } V::from(r) }
            "bitreverse" => { let mut r = extract(&x, 0, 1); for i in 1..bw { r = concat(&r, &extract(&x, i, 1)); } V::from(r) }
            "ctpop" => { let mut r = cst(0, bw); for i in 0..bw { r = bin(B::Add, &r, &zext(&extract(&x, i, 1), bw)); } V::from(r) }
            "ctlz" => { let mut r = cst(bw as u128, bw); for i in 0..bw { r = ite(&extract(&x, i, 1), &cst((bw - 1 - i) as u128, bw), &r); } V::from(r) }
            "cttz" => { let mut r = cst(bw as u128, bw); for i in (0..bw).rev() { r = ite(&extract(&x, i, 1), &cst(i as u128, bw), &r); } V::from(r) }
            "fshl" | "fshr" => {
                let (y, z) = (y(), a[2].ex());
                let sh = match as_const(&z) { Some(v) => (v % bw as u128) as u16, None => return Err(eng!("{} symbolic shift", name)) };
                let c = if bw * 2 <= 128 { concat(&x, &y) } else { return Err(eng!("{}", name)) };
                V::from(if base == "fshl" { extract(&c, bw - sh, bw) } else { extract(&c, sh, bw) })
            }
            _ => return Err(eng!("intrinsic {}", name)),
        })
    }
}

const LIBC: &[&str] = &["malloc", "free", "realloc", "calloc", "memcpy", "memmove", "memset", "bcmp", "memcmp", "strlen", "posix_memalign"];
