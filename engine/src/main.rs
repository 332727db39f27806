mod exec;
mod expr;
mod ir;
mod solver;
use std::fmt::Write as _;
use std::time::{Duration, Instant};

fn esc(s: &str) -> String { let mut o = String::from("\""); for c in s.chars() { match c { '"' => o.push_str("\\\""), '\\' => o.push_str("\\\\"), '\n' => o.push_str("\\n"), c if (c as u32) < 32 => { let _ = write!(o, "\\u{:04x}", c as u32); } c => o.push(c) } } o.push('"'); o }

fn main() {
    if std::env::var_os("SYMX_SELFTEST").is_some() { expr::SELFTEST.store(true, std::sync::atomic::Ordering::Relaxed); }
    let args: Vec<String> = std::env::args().collect();
    if args.get(1).map(|s| s.as_str()) == Some("--selftest") { selftest(); return; }
    let get = |k: &str| args.iter().position(|a| a == k).and_then(|i| args.get(i + 1)).cloned();
    let num = |k: &str, d: u64| get(k).and_then(|s| s.parse().ok()).unwrap_or(d);
    let path = get("--ll").expect("--ll FILE");
    let t0 = Instant::now();
    let text = std::fs::read_to_string(&path).expect("read ll");
    let m = match ir::parse(&text) { Ok(m) => m, Err(e) => { eprintln!("parse error: {}", e); std::process::exit(3) } };
    drop(text);
    eprintln!("parsed {} functions in {:?}", m.funcs.len(), t0.elapsed());
    let total = Duration::from_secs(num("--total-time", 1 << 30));
    let mut cfg = exec::Cfg {
        threads: num("--threads", 8) as usize, max_steps: num("--max-steps", 20_000_000), time_limit: Duration::from_secs(num("--time", 600)),
        stop_after: num("--stop-after", 4) as usize, seed: num("--seed", 1), samples: num("--samples", 20) as usize, query_ms: num("--query-ms", 60_000), dump_every: num("--dump-every", 0), max_fan: 4096,
        fixed_inputs: get("--fix").map(|s| s.split(',').map(|x| x.parse().unwrap()).collect()).unwrap_or_default(), fixed_const: args.iter().any(|a| a == "--fix-const"),
    };
    let _ = cfg.max_fan;
    let eng = exec::Engine::new(m);
    let mut out = String::from("{\n\"entries\": [\n");
    let entries: Vec<String> = get("--entries").unwrap_or_default().split(',').filter(|s| !s.is_empty()).map(|s| s.to_string()).collect();
    for (k, e) in entries.iter().enumerate() {
        for c in &eng.covered { c.store(false, std::sync::atomic::Ordering::Relaxed); }
        let t = Instant::now();
        cfg.time_limit = Duration::from_secs(num("--time", 600)).min(total.saturating_sub(t0.elapsed()).max(Duration::from_secs(5)));
        let st = match eng.run(e, &cfg) { Ok(s) => s, Err(m) => { eprintln!("{}", m); std::process::exit(3) } };
        let wall = t.elapsed().as_secs_f64();
        if k > 0 { out.push_str(",\n"); }
        let finding = |f: &exec::Finding| format!("{{\"kind\": {}, \"label\": {}, \"inputs\": [{}], \"stack\": [{}]}}", esc(&f.kind), esc(&f.label), f.inputs.iter().map(|(w, v)| format!("[{},\"{}\"]", w, v)).collect::<Vec<_>>().join(","), f.stack.iter().map(|s| esc(s)).collect::<Vec<_>>().join(","));
        let map = |m: &std::collections::BTreeMap<String, u64>| m.iter().map(|(k, v)| format!("{}: {}", esc(k), v)).collect::<Vec<_>>().join(", ");
        let _ = write!(out, "{{\"entry\": {}, \"wall_s\": {:.3}, \"paths\": {}, \"killed\": {}, \"panics_allowed\": {}, \"steps\": {}, \"max_path_steps\": {}, \"forks\": {}, \"max_fork_depth\": {}, \"max_vars\": {}, \"queries\": {}, \"sat\": {}, \"unsat\": {}, \"solver_s\": {:.3}, \"solver_max_s\": {:.3}, \"cache_hits\": {}, \"model_hits\": {}, \"checks_solver\": {}, \"checks_simplified\": {}, \"violated\": {}, \"timed_out\": {},\n",
            esc(e), wall, st.paths, st.killed, st.panics_allowed, st.steps, st.max_path_steps, st.forks, st.max_depth, st.max_vars, st.queries, st.sat, st.unsat, st.solver_ns as f64 / 1e9, st.solver_max_ns as f64 / 1e9, st.cache_hits, st.model_hits, st.checks_solver, st.checks_simplified, st.violated, st.timed_out);
        let _ = write!(out, "\"findings\": [{}],\n\"errors\": [{}],\n", st.findings.iter().map(finding).collect::<Vec<_>>().join(",\n"), st.errors.iter().map(finding).collect::<Vec<_>>().join(",\n"));
        let _ = write!(out, "\"labels\": {{{}}},\n\"reached\": {{{}}},\n\"expected\": [{}],\n", map(&st.labels), map(&st.reached), st.expected.iter().map(|s| esc(s)).collect::<Vec<_>>().join(","));
        let _ = write!(out, "\"samples\": [{}],\n", st.samples.iter().map(|s| format!("{{\"inputs\": [{}], \"digest\": \"{:016x}\", \"events\": {}}}", s.inputs.iter().map(|(w, v)| format!("[{},\"{}\"]", w, v)).collect::<Vec<_>>().join(","), s.digest, s.events)).collect::<Vec<_>>().join(",\n"));
        let _ = write!(out, "\"dumped\": [{}],\n", st.dumped.iter().map(|(s, b)| format!("{{\"smt2\": {}, \"sat\": {}}}", esc(s), b)).collect::<Vec<_>>().join(",\n"));
        let mut fs: Vec<String> = vec![];
        for (i, c) in eng.covered.iter().enumerate() { if c.load(std::sync::atomic::Ordering::Relaxed) { fs.push(esc(&eng.names[i])); } }
        let _ = write!(out, "\"functions\": [{}]}}", fs.join(","));
        eprintln!("{}: {} paths, {} killed, {} queries, {:.2}s solver, {:.2}s wall, {} violations, {} errors{}", e, st.paths, st.killed, st.queries, st.solver_ns as f64 / 1e9, wall, st.violated, st.errors.len(), if st.timed_out { ", TIMED OUT" } else { "" });
    }
    out.push_str("\n]}\n");
    match get("--out") { Some(p) => std::fs::write(p, out).unwrap(), None => print!("{}", out) }
}

/// Random agreement test: simplifier vs. direct evaluation vs. z3.
fn selftest() {
    use expr::*;
    let mut seed = std::env::args().nth(2).and_then(|s| s.parse().ok()).unwrap_or(1u64).wrapping_mul(0x9E3779B97F4A7C15) | 1;
    let mut rnd = move || { seed ^= seed << 13; seed ^= seed >> 7; seed ^= seed << 17; seed };
    let widths: Vec<u16> = vec![8, 8, 64, 64, 1, 3, 32, 16];
    let ops = [B::Add, B::Sub, B::Mul, B::UDiv, B::SDiv, B::URem, B::SRem, B::And, B::Or, B::Xor, B::Shl, B::LShr, B::AShr, B::Eq, B::Ult, B::Ule, B::Slt, B::Sle];
    let mut sol = solver::Solver::new(60000, 0);
    let mut n = 0u64;
    for round in 0..20000 {
        // a pool of (expression, value under the model) pairs built with smart constructors while tracking the value directly
        let model: Model = widths.iter().map(|w| { let v = match rnd() % 3 { 0 => rnd() as u128, 1 => (rnd() % 5) as u128, _ => u128::MAX - (rnd() % 3) as u128 }; v & mask(*w) }).collect();
        let mut pool: Vec<(Ex, u128)> = widths.iter().enumerate().map(|(i, w)| (var(i as u32, *w), model[i])).collect();
        for _ in 0..60 {
            let (a, va) = pool[(rnd() % pool.len() as u64) as usize].clone();
            let r = match rnd() % 8 {
                0 => { let v = match rnd() % 3 { 0 => rnd() as u128, 1 => (rnd() % 9) as u128, _ => mask(a.w) - (rnd() % 3) as u128 & mask(a.w) } & mask(a.w); (cst(v, a.w), v) }
                1 => (not(&a), !va & mask(a.w)),
                2 => { let w = a.w + (rnd() % 20) as u16; if w > 128 { continue; } if rnd() % 2 == 0 { (zext(&a, w), va) } else { (sext(&a, w), sext128(va, a.w) as u128 & mask(w)) } }
                3 => { let w = 1 + (rnd() % a.w as u64) as u16; let lo = (rnd() % (a.w - w + 1) as u64) as u16; (extract(&a, lo, w), (va >> lo) & mask(w)) }
                4 => { let (b, vb) = pool[(rnd() % pool.len() as u64) as usize].clone(); if a.w + b.w > 128 { continue; } (concat(&a, &b), (va << b.w) | vb) }
                5 => {
                    let (c, vc) = pool[(rnd() % pool.len() as u64) as usize].clone(); let c1 = extract(&c, 0, 1);
                    let same: Vec<_> = pool.iter().filter(|(e, _)| e.w == a.w).cloned().collect();
                    let (b, vb) = same[(rnd() % same.len() as u64) as usize].clone();
                    (ite(&c1, &a, &b), if vc & 1 == 1 { va } else { vb })
                }
                _ => {
                    let same: Vec<_> = pool.iter().filter(|(e, _)| e.w == a.w).cloned().collect();
                    let (b, vb) = if rnd() % 3 == 0 { let v = (rnd() % 7) as u128 & mask(a.w); (cst(v, a.w), v) } else { same[(rnd() % same.len() as u64) as usize].clone() };
                    let op = ops[(rnd() % ops.len() as u64) as usize];
                    (bin(op, &a, &b), fold(op, va, vb, a.w))
                }
            };
            let got = eval(&r.0, &model);
            assert_eq!(got, r.1, "simplifier mismatch: {:?}", r.0);
            assert!(umax(&r.0) >= got, "umax mismatch");
            n += 1;
            pool.push(r);
        }
        if round % 10 == 0 {
            // the z3 translation of the last expressions must have exactly this value under this model
            let (e, v) = pool.last().unwrap().clone();
            let mut cs: Vec<Ex> = model.iter().enumerate().map(|(i, m)| bin(B::Eq, &var(i as u32, widths[i]), &cst(*m, widths[i]))).collect();
            let eq = { let k = cst(v, e.w); bin(B::Eq, &e, &k) };
            cs.push(not(&eq));
            match sol.check(&cs, &widths) { solver::Answer::Unsat => {} _ => panic!("z3 disagrees on {:?}", e) }
            let f = Fixed { set: 0b101, vals: [(0u32, model[0]), (2u32, model[2])].into_iter().collect() };
            assert_eq!(eval(&subst(&e, &f), &model), v);
        }
    }
    println!("selftest ok: {} terms", n);
}
