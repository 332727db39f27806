//! Parser for the subset of textual LLVM IR that rustc emits.
use crate::expr::mask;
use std::collections::HashMap;
use std::sync::Arc;

#[derive(Clone, Debug, PartialEq)]
pub enum Ty {
    Void,
    Int(u16),
    Ptr,
    Float(u16),
    Vec(u32, Box<Ty>),
    Arr(u64, Box<Ty>),
    Struct(Vec<Ty>, bool),
    Other,
}
impl Ty {
    /// the bytes a load or store of this type touches
    pub fn store_size(&self) -> u64 { match self { Ty::Int(w) => (*w as u64 + 7) / 8, t => t.size() } }
    pub fn is_float(&self) -> bool { match self { Ty::Float(_) => true, Ty::Vec(_, t) => t.is_float(), _ => false } }
    pub fn size(&self) -> u64 {
        match self {
            Ty::Void | Ty::Other => 0,
            Ty::Int(w) => match *w { 0..=8 => 1, 9..=16 => 2, 17..=32 => 4, 33..=64 => 8, _ => (*w as u64 + 127) / 128 * 16 },
            Ty::Ptr => 8,
            Ty::Float(w) => *w as u64 / 8,
            Ty::Vec(n, t) => ((*n as u64 * t.bits() as u64 + 7) / 8).next_power_of_two(),
            Ty::Arr(n, t) => n * t.size(),
            Ty::Struct(ts, packed) => {
                let mut o = 0;
                for t in ts { if !packed { o = align_up(o, t.align()); } o += t.size(); }
                if *packed { o } else { align_up(o, self.align()) }
            }
        }
    }
    pub fn bits(&self) -> u16 {
        match self { Ty::Int(w) => *w, Ty::Ptr => 64, Ty::Float(w) => *w, _ => (self.size() * 8) as u16 }
    }
    pub fn align(&self) -> u64 {
        match self {
            Ty::Arr(_, t) => t.align(),
            Ty::Struct(ts, packed) => if *packed { 1 } else { ts.iter().map(|t| t.align()).max().unwrap_or(1) },
            Ty::Void | Ty::Other => 1,
            _ => self.size().max(1).min(16),
        }
    }
    pub fn field_off(&self, i: usize) -> u64 {
        match self {
            Ty::Struct(ts, packed) => {
                let mut o = 0;
                for (j, t) in ts.iter().enumerate() {
                    if !packed { o = align_up(o, t.align()); }
                    if j == i { return o; }
                    o += t.size();
                }
                o
            }
            Ty::Arr(_, t) => t.size() * i as u64,
            Ty::Vec(_, t) => t.size() * i as u64,
            _ => 0,
        }
    }
    pub fn field(&self, i: usize) -> Ty {
        match self { Ty::Struct(ts, _) => ts[i].clone(), Ty::Arr(_, t) | Ty::Vec(_, t) => (**t).clone(), _ => Ty::Other }
    }
}
pub fn align_up(x: u64, a: u64) -> u64 { if a <= 1 { x } else { (x + a - 1) / a * a } }

/// Constants (fully resolved: addresses of globals are known integers).
#[derive(Clone, Debug)]
pub enum C {
    Int(u128, u16),
    Agg(Vec<C>),
    Zero(Ty),
    Undef(Ty),
    Bytes(Vec<u8>),
}

#[derive(Clone, Debug)]
pub enum Opnd { Reg(u32), Const(Arc<C>) }

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Cast { Trunc, ZExt, SExt, Same, Bits }

#[derive(Clone, Debug)]
pub enum Callee { Direct(String), Indirect(Opnd), Asm(String) }

#[derive(Clone, Debug)]
pub enum I {
    Bin { op: crate::expr::B, ty: Ty, a: Opnd, b: Opnd },
    ICmp { pred: Pred, ty: Ty, a: Opnd, b: Opnd },
    Float { op: String, from: Ty, to: Ty, args: Vec<Opnd> },
    Cast { op: Cast, from: Ty, to: Ty, a: Opnd },
    Gep { base: Opnd, off: i64, terms: Vec<(Opnd, Ty, u64)> },
    Load { ty: Ty, p: Opnd },
    Store { ty: Ty, v: Opnd, p: Opnd },
    Alloca { size: u64, align: u64 },
    Select { cty: Ty, c: Opnd, a: Opnd, b: Opnd, ty: Ty },
    Phi { ty: Ty, inc: Vec<(Opnd, u32)> },
    Call { ret: Ty, callee: Callee, args: Vec<(Ty, Opnd)>, normal: Option<u32> },
    Br(u32),
    CondBr { c: Opnd, t: u32, f: u32 },
    Switch { ty: Ty, v: Opnd, default: u32, cases: Vec<(u128, u32)> },
    Ret(Option<(Ty, Opnd)>),
    Unreachable,
    Extract { agg: Opnd, idx: Vec<u64> },
    Insert { agg: Opnd, v: Opnd, idx: Vec<u64>, aty: Ty },
    ExtractElem { ty: Ty, v: Opnd, i: Opnd },
    InsertElem { ty: Ty, v: Opnd, e: Opnd, i: Opnd },
    Shuffle { ty: Ty, a: Opnd, b: Opnd, m: Arc<C>, n: u32 },
    Freeze { a: Opnd },
    AtomicRmw { op: String, ty: Ty, p: Opnd, v: Opnd },
    CmpXchg { ty: Ty, p: Opnd, c: Opnd, n: Opnd },
    Nop,
    Unsupported(String),
}
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Pred { Eq, Ne, Ugt, Uge, Ult, Ule, Sgt, Sge, Slt, Sle }

#[derive(Debug)]
pub struct Inst { pub dst: Option<u32>, pub i: I }
#[derive(Debug)]
pub struct Block { pub insts: Vec<Inst>, pub nphi: usize }
#[derive(Debug)]
pub struct Func { pub name: String, pub params: Vec<(Ty, u32)>, pub ret: Ty, pub blocks: Vec<Block>, pub nregs: u32, pub id: usize }

pub struct Global { pub name: String, pub addr: u64, pub size: u64, pub constant: bool, pub bytes: Vec<u8>, pub tls: bool }

pub struct Module {
    pub funcs: HashMap<String, Arc<Func>>,
    pub fn_addr: HashMap<u64, String>,
    pub globals: Vec<Global>,
    pub declared: Vec<String>,
}

#[derive(Clone, Debug, PartialEq)]
enum T { Id(String), Local(String), Global(String), Meta, Attr, Int(String), Str(Vec<u8>), CStr(Vec<u8>), P(char), Ell }

fn lex(s: &str) -> Result<Vec<T>, String> {
    let b = s.as_bytes();
    let mut i = 0;
    let mut out = vec![];
    let isid = |c: u8| c.is_ascii_alphanumeric() || c == b'.' || c == b'_' || c == b'$' || c == b'-';
    while i < b.len() {
        let c = b[i];
        match c {
            b' ' | b'\t' | b'\n' | b'\r' => i += 1,
            b';' => { while i < b.len() && b[i] != b'\n' { i += 1; } }
            b'%' | b'@' => {
                i += 1;
                let name;
                if i < b.len() && b[i] == b'"' {
                    let st = i + 1; i += 1;
                    while b[i] != b'"' { i += 1; }
                    name = s[st..i].to_string(); i += 1;
                } else {
                    let st = i;
                    while i < b.len() && isid(b[i]) { i += 1; }
                    name = s[st..i].to_string();
                }
                out.push(if c == b'%' { T::Local(name) } else { T::Global(name) });
            }
            b'!' => {
                i += 1;
                if i < b.len() && b[i] == b'"' { i += 1; while b[i] != b'"' { i += 1; } i += 1; }
                else { while i < b.len() && isid(b[i]) { i += 1; } }
                out.push(T::Meta);
            }
            b'#' => { i += 1; while i < b.len() && isid(b[i]) { i += 1; } out.push(T::Attr); }
            b'c' if i + 1 < b.len() && b[i + 1] == b'"' => { let (v, n) = lex_str(b, i + 1)?; out.push(T::CStr(v)); i = n; }
            b'"' => { let (v, n) = lex_str(b, i)?; out.push(T::Str(v)); i = n; }
            b'.' if s[i..].starts_with("...") => { i += 3; out.push(T::Ell); }
            b'0'..=b'9' | b'-' => {
                let st = i; i += 1;
                while i < b.len() && (isid(b[i]) || b[i] == b'+') { i += 1; }
                out.push(T::Int(s[st..i].to_string()));
            }
            c if isid(c) => {
                let st = i;
                while i < b.len() && isid(b[i]) { i += 1; }
                out.push(T::Id(s[st..i].to_string()));
            }
            _ => { out.push(T::P(c as char)); i += 1; }
        }
    }
    Ok(out)
}
fn lex_str(b: &[u8], q: usize) -> Result<(Vec<u8>, usize), String> {
    let mut i = q + 1;
    let mut v = vec![];
    while i < b.len() && b[i] != b'"' {
        if b[i] == b'\\' {
            if b[i + 1] == b'\\' { v.push(b'\\'); i += 2; }
            else {
                let h = std::str::from_utf8(&b[i + 1..i + 3]).unwrap();
                v.push(u8::from_str_radix(h, 16).map_err(|e| e.to_string())?);
                i += 3;
            }
        } else { v.push(b[i]); i += 1; }
    }
    Ok((v, i + 1))
}

struct Ctx { types: HashMap<String, Ty>, gaddr: HashMap<String, u64> }

struct P<'a> { t: Vec<T>, i: usize, cx: &'a Ctx, regs: Option<&'a mut HashMap<String, u32>>, blocks: Option<&'a HashMap<String, u32>> }

type R<X> = Result<X, String>;

impl<'a> P<'a> {
    fn peek(&self) -> Option<&T> { self.t.get(self.i) }
    fn next(&mut self) -> R<T> { let t = self.t.get(self.i).cloned().ok_or("eof")?; self.i += 1; Ok(t) }
    fn is_p(&self, c: char) -> bool { self.peek() == Some(&T::P(c)) }
    fn eat_p(&mut self, c: char) -> bool { if self.is_p(c) { self.i += 1; true } else { false } }
    fn exp_p(&mut self, c: char) -> R<()> { if self.eat_p(c) { Ok(()) } else { Err(format!("expected {} got {:?} in {:?}", c, self.peek(), self.t)) } }
    fn is_id(&self, s: &str) -> bool { matches!(self.peek(), Some(T::Id(x)) if x == s) }
    fn eat_id(&mut self, s: &str) -> bool { if self.is_id(s) { self.i += 1; true } else { false } }
    fn int(&mut self) -> R<u64> { match self.next()? { T::Int(s) => s.parse().map_err(|_| format!("int {}", s)), t => Err(format!("int? {:?}", t)) } }

    fn try_ty(&mut self) -> R<Option<Ty>> {
        let save = self.i;
        let t = match self.peek() {
            Some(T::Id(s)) => {
                let r = match s.as_str() {
                    "void" => Some(Ty::Void),
                    "ptr" => Some(Ty::Ptr),
                    "float" => Some(Ty::Float(32)),
                    "double" => Some(Ty::Float(64)),
                    "half" => Some(Ty::Float(16)),
                    "fp128" | "x86_fp80" => Some(Ty::Float(128)),
                    "metadata" | "label" | "token" | "opaque" => Some(Ty::Other),
                    _ if s.len() > 1 && s.starts_with('i') && s[1..].bytes().all(|c| c.is_ascii_digit()) => Some(Ty::Int(s[1..].parse().unwrap())),
                    _ => None,
                };
                if r.is_some() { self.i += 1; }
                r
            }
            Some(T::Local(n)) => match self.cx.types.get(n) { Some(t) => { let t = t.clone(); self.i += 1; Some(t) } None => None },
            Some(T::P('[')) => {
                self.i += 1;
                let n = self.int()?;
                if !self.eat_id("x") { return Err("x".into()); }
                let t = self.ty()?;
                self.exp_p(']')?;
                Some(Ty::Arr(n, Box::new(t)))
            }
            Some(T::P('{')) => { self.i += 1; let f = self.fields('}')?; Some(Ty::Struct(f, false)) }
            Some(T::P('<')) => {
                self.i += 1;
                if self.eat_p('{') { let f = self.fields('}')?; self.exp_p('>')?; Some(Ty::Struct(f, true)) }
                else {
                    let n = self.int()?;
                    if !self.eat_id("x") { return Err("x".into()); }
                    let t = self.ty()?;
                    self.exp_p('>')?;
                    Some(Ty::Vec(n as u32, Box::new(t)))
                }
            }
            _ => None,
        };
        if t.is_none() { self.i = save; }
        Ok(t)
    }
    fn fields(&mut self, end: char) -> R<Vec<Ty>> {
        let mut v = vec![];
        if self.eat_p(end) { return Ok(v); }
        loop { v.push(self.ty()?); if self.eat_p(end) { return Ok(v); } self.exp_p(',')?; }
    }
    fn ty(&mut self) -> R<Ty> { self.try_ty()?.ok_or_else(|| format!("type expected at {:?}", &self.t[self.i..(self.i + 3).min(self.t.len())])) }

    fn skip_group(&mut self) -> R<()> {
        let mut d = 0;
        loop {
            match self.next()? { T::P('(') => d += 1, T::P(')') => { d -= 1; if d == 0 { return Ok(()); } } _ => {} }
        }
    }
    /// skip parameter / return attributes
    fn skip_attrs(&mut self) -> R<()> {
        loop {
            match self.peek() {
                Some(T::Id(s)) => {
                    let s = s.clone();
                    if ["true", "false", "null", "undef", "poison", "zeroinitializer", "getelementptr", "ptrtoint", "inttoptr", "none", "asm", "sub", "add", "trunc", "bitcast", "dso_local_equivalent", "no_cfi", "blockaddress", "xor"].contains(&s.as_str()) { return Ok(()); }
                    let save = self.i;
                    if self.try_ty()?.is_some() { self.i = save; return Ok(()); }
                    self.i += 1;
                    if s == "align" && matches!(self.peek(), Some(T::Int(_))) { self.i += 1; }
                    else if self.is_p('(') { self.skip_group()?; }
                }
                Some(T::Str(_)) => { self.i += 1; if self.eat_p('=') { self.i += 1; } }
                Some(T::Attr) => self.i += 1,
                _ => return Ok(()),
            }
        }
    }

    fn konst(&mut self, ty: &Ty) -> R<C> {
        match self.next()? {
            T::Int(s) => {
                match ty {
                    Ty::Float(w) => {
                        if let Some(h) = s.strip_prefix("0x") {
                            let v = u64::from_str_radix(h, 16).map_err(|e| e.to_string())?;
                            if *w == 32 { Ok(C::Int((f64::from_bits(v) as f32).to_bits() as u128, 32)) } else { Ok(C::Int(v as u128, *w)) }
                        } else {
                            let f: f64 = s.parse().map_err(|_| format!("float {}", s))?;
                            if *w == 32 { Ok(C::Int((f as f32).to_bits() as u128, 32)) } else { Ok(C::Int(f.to_bits() as u128, *w)) }
                        }
                    }
                    _ => {
                        let w = ty.bits();
                        let v: i128 = match s.parse::<i128>() { Ok(v) => v, Err(_) => s.parse::<u128>().map_err(|_| format!("int {}", s))? as i128 };
                        Ok(C::Int(v as u128 & mask(w), w))
                    }
                }
            }
            T::Id(s) => match s.as_str() {
                "true" => Ok(C::Int(1, 1)),
                "false" => Ok(C::Int(0, 1)),
                "null" | "none" => Ok(C::Int(0, 64)),
                "undef" | "poison" => Ok(C::Undef(ty.clone())),
                "zeroinitializer" => Ok(C::Zero(ty.clone())),
                "splat" => {
                    self.exp_p('(')?; let et = self.ty()?; let c = self.konst(&et)?; self.exp_p(')')?;
                    if let Ty::Vec(n, _) = ty { Ok(C::Agg(vec![c; *n as usize])) } else { Err("splat".into()) }
                }
                "getelementptr" => {
                    while matches!(self.peek(), Some(T::Id(x)) if ["inbounds", "nuw", "nusw"].contains(&x.as_str())) || self.is_id("inrange") {
                        let r = self.is_id("inrange"); self.i += 1; if r && self.is_p('(') { self.skip_group()?; }
                    }
                    self.exp_p('(')?;
                    let bt = self.ty()?;
                    self.exp_p(',')?;
                    let (_, base) = self.tconst()?;
                    let mut addr = cint(&base)? as i128;
                    let mut cur = bt;
                    let mut first = true;
                    while self.eat_p(',') {
                        if self.is_id("inrange") { self.i += 1; if self.is_p('(') { self.skip_group()?; } }
                        let (it, ix) = self.tconst()?;
                        let ix = crate::expr::sext128(cint(&ix)?, it.bits());
                        if first { addr += ix * cur.size() as i128; first = false; }
                        else { addr += match &cur { Ty::Struct(..) => cur.field_off(ix as usize) as i128, Ty::Arr(_, t) | Ty::Vec(_, t) => ix * t.size() as i128, _ => return Err("gep".into()) }; cur = cur.field(ix.max(0) as usize); }
                    }
                    self.exp_p(')')?;
                    Ok(C::Int(addr as u128 & mask(64), 64))
                }
                "ptrtoint" | "inttoptr" | "trunc" | "bitcast" | "zext" => {
                    self.exp_p('(')?;
                    let (_, c) = self.tconst()?;
                    if !self.eat_id("to") { return Err("to".into()); }
                    let t = self.ty()?;
                    self.exp_p(')')?;
                    Ok(C::Int(cint(&c)? & mask(t.bits()), t.bits()))
                }
                "sub" | "add" | "xor" => {
                    while matches!(self.peek(), Some(T::Id(_))) { self.i += 1; }
                    self.exp_p('(')?;
                    let (t, a) = self.tconst()?;
                    self.exp_p(',')?;
                    let (_, b) = self.tconst()?;
                    self.exp_p(')')?;
                    let (a, b) = (cint(&a)?, cint(&b)?);
                    let v = match s.as_str() { "sub" => a.wrapping_sub(b), "add" => a.wrapping_add(b), _ => a ^ b };
                    Ok(C::Int(v & mask(t.bits()), t.bits()))
                }
                _ => Err(format!("const {}", s)),
            },
            T::Global(g) => self.cx.gaddr.get(&g).map(|a| C::Int(*a as u128, 64)).ok_or_else(|| format!("global {}", g)),
            T::CStr(b) => Ok(C::Bytes(b)),
            T::P('[') => { let mut v = vec![]; if self.eat_p(']') { return Ok(C::Agg(v)); } loop { v.push(self.tconst()?.1); if self.eat_p(']') { return Ok(C::Agg(v)); } self.exp_p(',')?; } }
            T::P('{') => { let mut v = vec![]; if self.eat_p('}') { return Ok(C::Agg(v)); } loop { v.push(self.tconst()?.1); if self.eat_p('}') { return Ok(C::Agg(v)); } self.exp_p(',')?; } }
            T::P('<') => {
                let br = self.eat_p('{');
                let mut v = vec![];
                loop {
                    if br && self.eat_p('}') { break; }
                    v.push(self.tconst()?.1);
                    if br { if self.eat_p('}') { break; } } else if self.is_p('>') { break; }
                    self.exp_p(',')?;
                }
                self.exp_p('>')?;
                Ok(C::Agg(v))
            }
            t => Err(format!("const? {:?}", t)),
        }
    }
    fn tconst(&mut self) -> R<(Ty, C)> { let t = self.ty()?; self.skip_attrs()?; let c = self.konst(&t)?; Ok((t, c)) }
    fn opnd(&mut self, ty: &Ty) -> R<Opnd> {
        if let Some(T::Local(n)) = self.peek() {
            let n = n.clone(); self.i += 1;
            let regs = self.regs.as_mut().ok_or("no regs")?;
            let k = regs.len() as u32;
            return Ok(Opnd::Reg(*regs.entry(n).or_insert(k)));
        }
        Ok(Opnd::Const(Arc::new(self.konst(ty)?)))
    }
    fn topnd(&mut self) -> R<(Ty, Opnd)> { let t = self.ty()?; self.skip_attrs()?; let o = self.opnd(&t)?; Ok((t, o)) }
    fn label(&mut self) -> R<u32> {
        if !self.eat_id("label") { return Err(format!("label expected {:?}", self.peek())); }
        match self.next()? { T::Local(n) => self.blocks.unwrap().get(&n).copied().ok_or(format!("no block {}", n)), t => Err(format!("label {:?}", t)) }
    }
    fn indices(&mut self) -> R<Vec<u64>> { let mut v = vec![]; while self.eat_p(',') { if matches!(self.peek(), Some(T::Int(_))) { v.push(self.int()?); } else { self.i -= 1; break; } } Ok(v) }

    fn inst(&mut self) -> R<(Option<u32>, I)> {
        let mut dst = None;
        if let (Some(T::Local(n)), Some(T::P('='))) = (self.t.get(self.i), self.t.get(self.i + 1)) {
            let n = n.clone();
            let regs = self.regs.as_mut().unwrap();
            let k = regs.len() as u32;
            dst = Some(*regs.entry(n).or_insert(k));
            self.i += 2;
        }
        let op = match self.next()? { T::Id(s) => s, t => return Err(format!("op {:?}", t)) };
        use crate::expr::B;
        let i = match op.as_str() {
            "add" | "sub" | "mul" | "udiv" | "sdiv" | "urem" | "srem" | "and" | "or" | "xor" | "shl" | "lshr" | "ashr" => {
                while matches!(self.peek(), Some(T::Id(s)) if ["nuw", "nsw", "exact", "disjoint"].contains(&s.as_str())) { self.i += 1; }
                let (ty, a) = self.topnd()?;
                self.exp_p(',')?;
                let b = self.opnd(&ty)?;
                let o = match op.as_str() { "add" => B::Add, "sub" => B::Sub, "mul" => B::Mul, "udiv" => B::UDiv, "sdiv" => B::SDiv, "urem" => B::URem, "srem" => B::SRem, "and" => B::And, "or" => B::Or, "xor" => B::Xor, "shl" => B::Shl, "lshr" => B::LShr, _ => B::AShr };
                I::Bin { op: o, ty, a, b }
            }
            "fadd" | "fsub" | "fmul" | "fdiv" | "frem" | "fneg" | "fcmp" => {
                while matches!(self.peek(), Some(T::Id(s)) if ["fast", "nnan", "ninf", "nsz", "arcp", "contract", "afn", "reassoc"].contains(&s.as_str())) { self.i += 1; }
                let mut name = op.clone();
                if op == "fcmp" { match self.next()? { T::Id(p) => name = format!("fcmp.{}", p), _ => return Err("fcmp".into()) } }
                let (ty, a) = self.topnd()?;
                let mut args = vec![a];
                if op != "fneg" { self.exp_p(',')?; args.push(self.opnd(&ty)?); }
                let to = match (&ty, op == "fcmp") { (Ty::Vec(n, _), true) => Ty::Vec(*n, Box::new(Ty::Int(1))), (_, true) => Ty::Int(1), _ => ty.clone() };
                I::Float { op: name, from: ty, to, args }
            }
            "uitofp" | "sitofp" | "fptoui" | "fptosi" | "fptrunc" | "fpext" => {
                while matches!(self.peek(), Some(T::Id(s)) if ["nneg", "fast", "nnan", "ninf", "nsz", "arcp", "contract", "afn", "reassoc"].contains(&s.as_str())) { self.i += 1; }
                let (from, a) = self.topnd()?;
                if !self.eat_id("to") { return Err("to".into()); }
                let to = self.ty()?;
                I::Float { op: op.clone(), from, to, args: vec![a] }
            }
            "icmp" => {
                self.eat_id("samesign");
                let p = match self.next()? { T::Id(s) => s, _ => return Err("pred".into()) };
                let pred = match p.as_str() { "eq" => Pred::Eq, "ne" => Pred::Ne, "ugt" => Pred::Ugt, "uge" => Pred::Uge, "ult" => Pred::Ult, "ule" => Pred::Ule, "sgt" => Pred::Sgt, "sge" => Pred::Sge, "slt" => Pred::Slt, "sle" => Pred::Sle, _ => return Err("pred".into()) };
                let (ty, a) = self.topnd()?;
                self.exp_p(',')?;
                let b = self.opnd(&ty)?;
                I::ICmp { pred, ty, a, b }
            }
            "trunc" | "zext" | "sext" | "ptrtoint" | "inttoptr" | "bitcast" => {
                while matches!(self.peek(), Some(T::Id(s)) if ["nuw", "nsw", "nneg"].contains(&s.as_str())) { self.i += 1; }
                let (from, a) = self.topnd()?;
                if !self.eat_id("to") { return Err("to".into()); }
                let to = self.ty()?;
                let fb = from.bits(); let tb = to.bits();
                let o = match op.as_str() { "trunc" => Cast::Trunc, "zext" => Cast::ZExt, "sext" => Cast::SExt,
                    "bitcast" => if from == to || (matches!(from, Ty::Int(_)|Ty::Ptr|Ty::Float(_)) && matches!(to, Ty::Int(_)|Ty::Ptr|Ty::Float(_))) { Cast::Same } else { Cast::Bits },
                    _ => if fb > tb { Cast::Trunc } else if fb < tb { Cast::ZExt } else { Cast::Same } };
                I::Cast { op: o, from, to, a }
            }
            "getelementptr" => {
                while matches!(self.peek(), Some(T::Id(s)) if ["inbounds", "nuw", "nusw"].contains(&s.as_str())) { self.i += 1; }
                let bt = self.ty()?;
                self.exp_p(',')?;
                let (pt, base) = self.topnd()?;
                if matches!(pt, Ty::Vec(..)) { return Ok((dst, I::Unsupported("vector gep".into()))); }
                let mut cur = bt;
                let mut first = true;
                let mut off: i64 = 0;
                let mut terms = vec![];
                while self.eat_p(',') {
                    if matches!(self.peek(), Some(T::Meta)) { break; }
                    let (it, ix) = self.topnd()?;
                    let (scale, next) = if first { (cur.size(), cur.clone()) } else {
                        match &cur {
                            Ty::Struct(..) => {
                                let k = match &ix { Opnd::Const(c) => cint(c)? as usize, _ => return Err("struct idx".into()) };
                                off += cur.field_off(k) as i64;
                                cur = cur.field(k);
                                continue;
                            }
                            Ty::Arr(_, t) | Ty::Vec(_, t) => (t.size(), (**t).clone()),
                            _ => return Err("gep ty".into()),
                        }
                    };
                    first = false;
                    match &ix {
                        Opnd::Const(c) => off += crate::expr::sext128(cint(c)?, it.bits()) as i64 * scale as i64,
                        _ => terms.push((ix, it, scale)),
                    }
                    cur = next;
                }
                I::Gep { base, off, terms }
            }
            "load" => {
                while self.eat_id("atomic") || self.eat_id("volatile") {}
                let ty = self.ty()?;
                self.exp_p(',')?;
                let (_, p) = self.topnd()?;
                I::Load { ty, p }
            }
            "store" => {
                while self.eat_id("atomic") || self.eat_id("volatile") {}
                let (ty, v) = self.topnd()?;
                self.exp_p(',')?;
                let (_, p) = self.topnd()?;
                I::Store { ty, v, p }
            }
            "alloca" => {
                self.eat_id("inalloca");
                let ty = self.ty()?;
                let mut align = ty.align();
                let mut n = 1;
                while self.eat_p(',') {
                    if self.eat_id("align") { align = self.int()?; }
                    else if matches!(self.peek(), Some(T::Meta)) { break; }
                    else { let (_, c) = self.topnd()?; n = match c { Opnd::Const(c) => cint(&c)? as u64, _ => return Ok((dst, I::Unsupported("dynamic alloca".into()))) }; }
                }
                I::Alloca { size: ty.size() * n, align }
            }
            "select" => {
                let (cty, c) = self.topnd()?;
                self.exp_p(',')?;
                let (ty, a) = self.topnd()?;
                self.exp_p(',')?;
                let (_, b) = self.topnd()?;
                I::Select { cty, c, a, b, ty }
            }
            "phi" => {
                let ty = self.ty()?;
                let mut inc = vec![];
                loop {
                    self.exp_p('[')?;
                    let v = self.opnd(&ty)?;
                    self.exp_p(',')?;
                    let l = match self.next()? { T::Local(n) => *self.blocks.unwrap().get(&n).ok_or("phi blk")?, _ => return Err("phi".into()) };
                    self.exp_p(']')?;
                    inc.push((v, l));
                    if !(self.is_p(',') && self.t.get(self.i + 1) == Some(&T::P('['))) { break; }
                    self.i += 1;
                }
                I::Phi { ty, inc }
            }
            "tail" | "musttail" | "notail" | "call" | "invoke" => {
                if op != "call" && op != "invoke" { if !self.eat_id("call") { return Err("call".into()); } }
                self.skip_attrs()?;
                let ret = self.ty()?;
                // optional function type
                if self.is_p('(') { self.skip_group()?; }
                let callee = if self.eat_id("asm") {
                    let mut txt = String::new();
                    while let Some(T::Id(_)) = self.peek() { self.i += 1; }
                    if let T::Str(b) = self.next()? { txt = String::from_utf8_lossy(&b).into_owned(); }
                    if self.eat_p(',') { self.next()?; }
                    Callee::Asm(txt)
                } else {
                    match self.peek() {
                        Some(T::Global(g)) => { let g = g.clone(); self.i += 1; Callee::Direct(g) }
                        _ => Callee::Indirect(self.opnd(&Ty::Ptr)?),
                    }
                };
                self.exp_p('(')?;
                let mut args = vec![];
                if !self.eat_p(')') {
                    loop {
                        let t = self.ty()?;
                        if t == Ty::Other {
                            // metadata argument
                            let mut d = 0;
                            while !(d == 0 && (self.is_p(',') || self.is_p(')'))) { match self.next()? { T::P('(') => d += 1, T::P(')') => d -= 1, _ => {} } }
                        } else {
                            self.skip_attrs()?;
                            let o = self.opnd(&t)?;
                            args.push((t, o));
                        }
                        if self.eat_p(')') { break; }
                        self.exp_p(',')?;
                    }
                }
                let mut normal = None;
                if op == "invoke" {
                    while !self.is_id("to") { self.next()?; }
                    self.i += 1;
                    normal = Some(self.label()?);
                }
                I::Call { ret, callee, args, normal }
            }
            "br" => {
                if self.is_id("label") { I::Br(self.label()?) } else {
                    let (_, c) = self.topnd()?;
                    self.exp_p(',')?;
                    let t = self.label()?;
                    self.exp_p(',')?;
                    let f = self.label()?;
                    I::CondBr { c, t, f }
                }
            }
            "switch" => {
                let (ty, v) = self.topnd()?;
                self.exp_p(',')?;
                let default = self.label()?;
                self.exp_p('[')?;
                let mut cases = vec![];
                while !self.eat_p(']') {
                    let (_, c) = self.tconst()?;
                    self.exp_p(',')?;
                    cases.push((cint(&c)?, self.label()?));
                }
                I::Switch { ty, v, default, cases }
            }
            "ret" => { let t = self.ty()?; if t == Ty::Void { I::Ret(None) } else { self.skip_attrs()?; let o = self.opnd(&t)?; I::Ret(Some((t, o))) } }
            "unreachable" => I::Unreachable,
            "extractvalue" => { let (_, agg) = self.topnd()?; let idx = self.indices()?; I::Extract { agg, idx } }
            "insertvalue" => { let (aty, agg) = self.topnd()?; self.exp_p(',')?; let (_, v) = self.topnd()?; let idx = self.indices()?; I::Insert { agg, v, idx, aty } }
            "extractelement" => { let (ty, v) = self.topnd()?; self.exp_p(',')?; let (_, i) = self.topnd()?; I::ExtractElem { ty, v, i } }
            "insertelement" => { let (ty, v) = self.topnd()?; self.exp_p(',')?; let (_, e) = self.topnd()?; self.exp_p(',')?; let (_, i) = self.topnd()?; I::InsertElem { ty, v, e, i } }
            "shufflevector" => { let (ty, a) = self.topnd()?; self.exp_p(',')?; let (_, b) = self.topnd()?; self.exp_p(',')?; let (mt, m) = self.tconst()?; let n = match mt { Ty::Vec(n, _) => n, _ => return Err("shuf".into()) }; I::Shuffle { ty, a, b, m: Arc::new(m), n } }
            "freeze" => { let (_, a) = self.topnd()?; I::Freeze { a } }
            "fence" => I::Nop,
            "landingpad" | "resume" => I::Unsupported(op),
            "atomicrmw" => {
                self.eat_id("volatile");
                let o = match self.next()? { T::Id(s) => s, _ => return Err("armw".into()) };
                let (_, p) = self.topnd()?; self.exp_p(',')?; let (ty, v) = self.topnd()?;
                I::AtomicRmw { op: o, ty, p, v }
            }
            "cmpxchg" => {
                while self.eat_id("weak") || self.eat_id("volatile") {}
                let (_, p) = self.topnd()?; self.exp_p(',')?; let (ty, c) = self.topnd()?; self.exp_p(',')?; let (_, n) = self.topnd()?;
                I::CmpXchg { ty, p, c, n }
            }
            _ => return Err(format!("instruction {}", op)),
        };
        Ok((dst, i))
    }
}

pub fn cint(c: &C) -> R<u128> { match c { C::Int(v, _) => Ok(*v), C::Zero(_) | C::Undef(_) => Ok(0), _ => Err("not int".into()) } }

pub fn const_bytes(c: &C, ty: &Ty, out: &mut Vec<u8>) {
    let n = ty.size() as usize;
    let start = out.len();
    match c {
        C::Int(v, _) => out.extend_from_slice(&v.to_le_bytes()[..n.min(16)]),
        C::Zero(_) | C::Undef(_) => {}
        C::Bytes(b) => out.extend_from_slice(b),
        C::Agg(v) => for (i, x) in v.iter().enumerate() {
            let o = start + ty.field_off(i) as usize;
            out.resize(o, 0);
            const_bytes(x, &ty.field(i), out);
        },
    }
    out.resize(start + n, 0);
}

const GLOBAL_BASE: u64 = 0x1000_0000;
const FN_BASE: u64 = 0x0800_0000;

pub fn parse(text: &str) -> Result<Module, String> {
    let mut cx = Ctx { types: HashMap::new(), gaddr: HashMap::new() };
    let mut type_lines = vec![];
    let mut glob_lines: Vec<(&str, &str)> = vec![];
    let mut defs: Vec<(usize, usize)> = vec![]; // line ranges
    let mut fn_names = vec![];
    let mut declared = vec![];
    let mut aliases: Vec<(String, String)> = vec![];
    let lines: Vec<&str> = text.lines().collect();
    let gname = |l: &str| -> String {
        let a = l.find('@').unwrap() + 1;
        let b = l.as_bytes();
        if b[a] == b'"' { let e = l[a + 1..].find('"').unwrap(); l[a + 1..a + 1 + e].to_string() }
        else { let e = l[a..].find(|c: char| !(c.is_ascii_alphanumeric() || "._$-".contains(c))).unwrap_or(l.len() - a); l[a..a + e].to_string() }
    };
    let mut i = 0;
    while i < lines.len() {
        let l = lines[i];
        if l.starts_with('%') { type_lines.push(l); }
        else if l.starts_with('@') {
            let n = gname(l);
            let skip = if l.as_bytes()[1] == b'"' { n.len() + 3 } else { n.len() + 1 };
            glob_lines.push((l, &l[skip..]));
        }
        else if l.starts_with("define") {
            fn_names.push(gname(l));
            let s = i;
            while lines[i] != "}" { i += 1; }
            defs.push((s, i));
        }
        else if l.starts_with("declare") { declared.push(gname(l)); }
        i += 1;
    }
    // named types: iterate until resolved
    let mut pending: Vec<&str> = type_lines;
    while !pending.is_empty() {
        let mut rest = vec![];
        let n0 = pending.len();
        for l in pending {
            let toks = lex(l)?;
            let name = match &toks[0] { T::Local(n) => n.clone(), _ => return Err("type".into()) };
            let mut p = P { t: toks, i: 3, cx: &cx, regs: None, blocks: None };
            match p.ty() { Ok(t) => { cx.types.insert(name, t); } Err(_) => rest.push(l) }
        }
        if rest.len() == n0 { for l in &rest { let n = match &lex(l)?[0] { T::Local(n) => n.clone(), _ => String::new() }; cx.types.insert(n, Ty::Other); } break; }
        pending = rest;
    }
    // function addresses
    let mut fn_addr = HashMap::new();
    for (k, n) in fn_names.iter().chain(declared.iter()).enumerate() {
        let a = FN_BASE + 16 * k as u64;
        cx.gaddr.insert(n.clone(), a);
        fn_addr.insert(a, n.clone());
    }
    // globals: pass 1 addresses
    struct G { name: String, ty: Ty, toks: Vec<T>, at: usize, constant: bool, external: bool, addr: u64, tls: bool }
    let mut gs: Vec<G> = vec![];
    let mut addr = GLOBAL_BASE;
    for (l, rest) in &glob_lines {
        let name = gname(l);
        let toks = lex(rest)?;
        let mut j = 1; // '='
        let (mut constant, mut external, mut tls) = (false, false, false);
        let mut alias = false;
        loop {
            match &toks[j] {
                T::Id(s) if s == "global" => { j += 1; break; }
                T::Id(s) if s == "constant" => { constant = true; j += 1; break; }
                T::Id(s) if s == "alias" => { alias = true; j += 1; break; }
                T::Id(s) if s == "external" || s == "extern_weak" => { external = true; j += 1; }
                T::Id(s) if s == "thread_local" => { tls = true; j += 1; if toks[j] == T::P('(') { while toks[j] != T::P(')') { j += 1; } j += 1; } }
                _ => j += 1,
            }
        }
        if alias {
            if let Some(T::Global(g)) = toks.iter().rev().find(|t| matches!(t, T::Global(_))) { aliases.push((name, g.clone())); }
            continue;
        }
        let mut p = P { t: toks, i: j, cx: &cx, regs: None, blocks: None };
        let ty = p.ty().map_err(|e| format!("{} in {}", e, l))?;
        let at = p.i;
        let toks = std::mem::take(&mut p.t);
        let mut al = ty.align().max(16);
        for k in at..toks.len() { if toks[k] == T::Id("align".into()) { if let Some(T::Int(s)) = toks.get(k + 1) { al = al.max(s.parse().unwrap_or(16)); } } }
        addr = align_up(addr + 32, al);
        gs.push(G { name: name.clone(), ty: ty.clone(), toks, at, constant, external, addr, tls });
        cx.gaddr.insert(name, addr);
        addr += ty.size();
    }
    for (a, t) in aliases { if let Some(x) = cx.gaddr.get(&t) { let x = *x; cx.gaddr.insert(a, x); } }
    // pass 2 initialisers
    let mut globals = vec![];
    for g in gs {
        let mut bytes = vec![];
        if g.external { bytes = vec![0; g.ty.size() as usize]; }
        else {
            let mut p = P { t: g.toks, i: g.at, cx: &cx, regs: None, blocks: None };
            let c = p.konst(&g.ty).map_err(|e| format!("global {}: {}", g.name, e))?;
            const_bytes(&c, &g.ty, &mut bytes);
        }
        globals.push(Global { name: g.name, addr: g.addr, size: g.ty.size(), constant: g.constant, bytes, tls: g.tls });
    }
    // functions
    let mut funcs = HashMap::new();
    for (id, (s, e)) in defs.iter().enumerate() {
        let f = parse_fn(&lines[*s..*e], &cx, id)?;
        funcs.insert(f.name.clone(), Arc::new(f));
    }
    Ok(Module { funcs, fn_addr, globals, declared })
}

fn label_of(l: &str) -> Option<String> {
    // "name:" possibly quoted, at column 0
    if l.is_empty() || l.starts_with(' ') || l.starts_with('}') || l.starts_with(';') { return None; }
    if let Some(r) = l.strip_prefix('"') { let e = r.find('"')?; return Some(r[..e].to_string()); }
    let e = l.find(':')?;
    Some(l[..e].to_string())
}

fn parse_fn(lines: &[&str], cx: &Ctx, id: usize) -> Result<Func, String> {
    let head = lines[0];
    let mut regs: HashMap<String, u32> = HashMap::new();
    // header
    let toks = lex(head)?;
    let mut k = 1;
    let mut name = String::new();
    // find the Global token that is the function name; return type precedes it
    while k < toks.len() { if let T::Global(g) = &toks[k] { if toks.get(k + 1) == Some(&T::P('(')) { name = g.clone(); break; } } k += 1; }
    let mut p = P { t: toks, i: 1, cx, regs: None, blocks: None };
    let mut ret = Ty::Void;
    while p.i < k {
        // linkage words and attributes until the type
        if let Some(t) = p.try_ty()? { ret = t; p.skip_attrs().ok(); if p.i >= k { break; } continue; }
        match p.next()? { T::Id(_) => { if p.is_p('(') { p.skip_group()?; } } _ => {} }
    }
    p.i = k + 2;
    let mut params = vec![];
    let mut nunnamed = 0u32;
    if !p.eat_p(')') {
        let mut unnamed = 0;
        loop {
            if p.peek() == Some(&T::Ell) { p.i += 1; p.exp_p(')')?; break; }
            let t = p.ty()?;
            p.skip_attrs()?;
            let n = if let Some(T::Local(n)) = p.peek() { let n = n.clone(); p.i += 1; n } else { let n = format!("{}", unnamed); n };
            unnamed += 1;
            if n.bytes().all(|c| c.is_ascii_digit()) { nunnamed += 1; }
            let r = regs.len() as u32;
            regs.insert(n, r);
            params.push((t, r));
            if p.eat_p(')') { break; }
            p.exp_p(',')?;
        }
    }
    // blocks
    let mut blocks_names: HashMap<String, u32> = HashMap::new();
    let mut chunks: Vec<Vec<String>> = vec![];
    let mut cur: Option<Vec<String>> = None;
    let mut j = 1;
    while j < lines.len() {
        let l = lines[j];
        j += 1;
        if l.trim().is_empty() || l.trim_start().starts_with(';') { continue; }
        if let Some(n) = label_of(l) {
            if let Some(c) = cur.take() { chunks.push(c); }
            blocks_names.insert(n, chunks.len() as u32);
            cur = Some(vec![]);
            continue;
        }
        if l.trim_start().starts_with("#dbg_") { continue; }
        if cur.is_none() {
            // unnamed entry block: implicit number = number of unnamed params
            blocks_names.insert(format!("{}", nunnamed), 0);
            cur = Some(vec![]);
        }
        let mut s = l.to_string();
        let t = l.trim_start();
        if t.starts_with("switch ") { while !s.contains(']') { s.push(' '); s.push_str(lines[j]); j += 1; } }
        else if t.contains("invoke ") && !t.contains(" unwind label ") { s.push(' '); s.push_str(lines[j]); j += 1; }
        else if t.contains("= landingpad ") { while lines[j].trim_start().starts_with("catch") || lines[j].trim_start().starts_with("filter") || lines[j].trim_start().starts_with("cleanup") { j += 1; } }
        cur.as_mut().unwrap().push(s);
    }
    if let Some(c) = cur.take() { chunks.push(c); }
    let mut blocks = vec![];
    for c in &chunks {
        let mut insts = vec![];
        for l in c {
            let toks = lex(l)?;
            let mut p = P { t: toks, i: 0, cx, regs: Some(&mut regs), blocks: Some(&blocks_names) };
            match p.inst() {
                Ok((dst, i)) => insts.push(Inst { dst, i }),
                Err(e) => { insts.push(Inst { dst: None, i: I::Unsupported(format!("{} :: {}", e, l.trim())) }) }
            }
        }
        let nphi = insts.iter().take_while(|i| matches!(i.i, I::Phi { .. })).count();
        blocks.push(Block { insts, nphi });
    }
    Ok(Func { name, params, ret, blocks, nregs: regs.len() as u32, id })
}
