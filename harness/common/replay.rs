//! Native driver: runs harnesses on recorded inputs against the compiled code.
//! stdin: one case per line, `<harness> <value>,<value>,...` (the solver variables in order of creation).
//! stdout, per line: `OK <digest> <events>` | `FAIL <label>` | `PANIC <message>` | `KILLED` | `EXHAUSTED`
use std::cell::RefCell;
use std::panic::{catch_unwind, panic_any, AssertUnwindSafe};

enum Stop { Kill, Done, Fail(String), Exhausted }

#[derive(Default)]
struct Run { inputs: Vec<u128>, next: usize, events: Vec<(u8, String, Option<u64>)>, allow: bool, msg: String }
thread_local! { static RUN: RefCell<Run> = RefCell::new(Run::default()); }

fn input() -> u128 {
    let v = RUN.with(|r| { let mut r = r.borrow_mut(); let v = r.inputs.get(r.next).copied(); r.next += 1; v });
    match v { Some(v) => v, None => panic_any(Stop::Exhausted) }
}
fn text(p: *const u8, n: usize) -> String { String::from_utf8_lossy(unsafe { std::slice::from_raw_parts(p, n) }).into_owned() }

#[no_mangle] pub extern "C-unwind" fn sym_u8() -> u8 { input() as u8 }
#[no_mangle] pub extern "C-unwind" fn sym_u16() -> u16 { input() as u16 }
#[no_mangle] pub extern "C-unwind" fn sym_u32() -> u32 { input() as u32 }
#[no_mangle] pub extern "C-unwind" fn sym_usize() -> usize { input() as usize }
#[no_mangle] pub extern "C-unwind" fn sym_bool() -> bool { input() & 1 == 1 }
#[no_mangle] pub extern "C-unwind" fn sym_range(lo: usize, hi: usize) -> usize {
    if lo > hi { panic_any(Stop::Kill) }
    let v = input() as usize;
    if v > hi - lo { panic_any(Stop::Kill) }
    lo + v
}
#[no_mangle] pub extern "C-unwind" fn sym_concretize(v: usize) -> usize { v }
#[no_mangle] pub extern "C-unwind" fn sym_assume(b: bool) { if !b { panic_any(Stop::Kill) } }
#[no_mangle] pub extern "C-unwind" fn sym_check(b: bool, p: *const u8, n: usize) {
    if !b { panic_any(Stop::Fail(text(p, n))) }
    RUN.with(|r| r.borrow_mut().events.push((0, text(p, n), None)));
}
#[no_mangle] pub extern "C-unwind" fn sym_reach(p: *const u8, n: usize) { RUN.with(|r| r.borrow_mut().events.push((1, text(p, n), None))); }
#[no_mangle] pub extern "C-unwind" fn sym_expect(_: *const u8, _: usize) {}
#[no_mangle] pub extern "C-unwind" fn sym_observe(v: u64) { RUN.with(|r| r.borrow_mut().events.push((2, String::new(), Some(v)))); }
#[no_mangle] pub extern "C-unwind" fn sym_allow_panic(b: bool) { RUN.with(|r| r.borrow_mut().allow = b); }
#[no_mangle] pub extern "C-unwind" fn sym_stop() { panic_any(Stop::Done) }
#[no_mangle] pub extern "C-unwind" fn sym_kill() { panic_any(Stop::Kill) }

fn digest() -> (u64, usize) {
    RUN.with(|r| {
        let r = r.borrow();
        let mut h = 0xcbf29ce484222325u64;
        let mut add = |s: &str| for b in s.bytes() { h ^= b as u64; h = h.wrapping_mul(0x100000001b3); };
        for (k, s, v) in &r.events {
            add(match k { 0 => "C", 1 => "R", _ => "O" });
            add(s);
            if let Some(v) = v { add(&v.to_string()); }
        }
        (h, r.events.len())
    })
}

extern "C" { fn fork() -> i32; fn waitpid(p: i32, status: *mut i32, options: i32) -> i32; fn _exit(code: i32) -> !; fn prctl(op: i32, ...) -> i32; fn setrlimit(what: i32, l: *const [u64; 2]) -> i32; fn dup(fd: i32) -> i32; fn dup2(a: i32, b: i32) -> i32; fn open(p: *const u8, flags: i32, ...) -> i32; }

pub fn main_with(table: &[(&str, fn())]) {
    // what the code under test prints goes nowhere; the outcomes have their own file descriptor
    use std::{io::Write, os::fd::FromRawFd};
    let mut out = unsafe { let fd = dup(1); let null = open(b"/dev/null\0".as_ptr(), 1); dup2(null, 1); dup2(null, 2); std::fs::File::from_raw_fd(fd) };
    macro_rules! say { ($($a:tt)*) => { writeln!(out, $($a)*).unwrap() } }
    std::panic::set_hook(Box::new(|i| {
        let m = if let Some(s) = i.payload().downcast_ref::<&str>() { s.to_string() } else if let Some(s) = i.payload().downcast_ref::<String>() { s.clone() } else { String::new() };
        let l = i.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        let _ = RUN.try_with(|r| if let Ok(mut r) = r.try_borrow_mut() { r.msg = format!("{} at {}", m.replace('\n', " "), l); });
    }));
    let stdin = std::io::stdin();
    let mut line = String::new();
    loop {
        line.clear();
        if stdin.read_line(&mut line).unwrap() == 0 { break; }
        let mut it = line.split_whitespace();
        let name = match it.next() { Some(n) => n, None => continue };
        let inputs = it.next().unwrap_or("").split(',').filter(|s| !s.is_empty()).map(|s| s.parse::<u128>().expect("number")).collect();
        let f = match table.iter().find(|(n, _)| *n == name) { Some((_, f)) => *f, None => { say!("UNKNOWN {}", name); continue; } };
        // every case runs in a process of its own: no static state survives it, and an abort ends only that case
        let child = unsafe { fork() };
        if child > 0 {
            let mut st = 0;
            unsafe { waitpid(child, &mut st, 0); }
            if st != 0 { say!("PANIC the process died (status {})", st); }
            continue;
        }
        unsafe { prctl(1, 9); setrlimit(9, &[6 << 30, 6 << 30]); } // ends with the driver; bounded memory
        RUN.with(|r| *r.borrow_mut() = Run { inputs, ..Run::default() });
        let res = catch_unwind(AssertUnwindSafe(f));
        let (d, n) = digest();
        let (msg, allow) = RUN.with(|r| { let r = r.borrow(); (r.msg.clone(), r.allow) });
        match res {
            Ok(()) => say!("OK {:016x} {}", d, n),
            Err(p) => match p.downcast::<Stop>() {
                Ok(s) => match *s {
                    Stop::Kill => say!("KILLED"),
                    Stop::Done => say!("OK {:016x} {}", d, n),
                    Stop::Fail(l) => say!("FAIL {}", l),
                    Stop::Exhausted => say!("EXHAUSTED"),
                },
                Err(_) if allow => say!("OK {:016x} {}", d, n),
                Err(_) => say!("PANIC {}", msg),
            },
        }
        if child == 0 { unsafe { _exit(0) } }
    }
}
