//! llsym: bounded symbolic execution of LLVM IR with Z3.
//!
//! usage: llsym --ll FILE --entry NAME [--out JSON] [--shard k/n] ...

mod exec;
mod expr;
mod ir;
mod solver;

use std::time::Instant;

fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            c if (c as u32) < 32 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
fn jlist(v: impl IntoIterator<Item = String>) -> String {
    format!("[{}]", v.into_iter().collect::<Vec<_>>().join(","))
}

fn main() {
    let mut a = std::env::args().skip(1);
    let (mut ll, mut entry, mut out) = (String::new(), String::new(), None);
    let mut cfg = exec::Cfg {
        shard: None,
        shard_depth: 8,
        max_time: 600.0,
        max_violations: 20,
        max_steps: 400_000_000,
        use_fd: true,
        redirect: vec![],
        stop_panic: vec![],
        trace: false,
    };
    let mut qt = 60_000u32;
    while let Some(k) = a.next() {
        let mut v = || a.next().expect("argument value");
        match k.as_str() {
            "--ll" => ll = v(),
            "--entry" => entry = v(),
            "--out" => out = Some(v()),
            "--shard" => {
                let s = v();
                let (x, y) = s.split_once('/').unwrap();
                let n: u64 = y.parse().unwrap();
                if n > 1 {
                    cfg.shard = Some((x.parse().unwrap(), n));
                }
            }
            "--shard-depth" => cfg.shard_depth = v().parse().unwrap(),
            "--max-time" => cfg.max_time = v().parse().unwrap(),
            "--max-violations" => cfg.max_violations = v().parse().unwrap(),
            "--max-steps" => cfg.max_steps = v().parse().unwrap(),
            "--query-timeout-ms" => qt = v().parse().unwrap(),
            "--no-fd" => cfg.use_fd = false,
            "--redirect" => {
                let s = v();
                let (x, y) = s.split_once('=').unwrap();
                cfg.redirect.push((x.into(), y.into()));
            }
            _ => panic!("unknown option {k}"),
        }
    }
    // deep recursion over expressions
    let h = std::thread::Builder::new()
        .stack_size(1 << 30)
        .spawn(move || {
            let t0 = Instant::now();
            let text = std::fs::read_to_string(&ll).expect("read module");
            let m = ir::Module::load(&text);
            let tload = t0.elapsed().as_secs_f64();
            let s = solver::Solver::new(qt);
            let mut ex = exec::Exec::new(&m, s, cfg);
            ex.run(&entry);
            let wall = t0.elapsed().as_secs_f64();
            let r = &ex.rep;
            let st = &ex.solver.stats;
            let status = if !r.violations.is_empty() {
                "violation"
            } else if !r.errors.is_empty() {
                "error"
            } else if r.timed_out {
                "timeout"
            } else {
                "ok"
            };
            let j = format!(
                "{{\"entry\":{},\"status\":{},\"paths\":{},\"forks\":{},\"steps\":{},\"asserts\":{},\"asserts_const\":{},\"asserts_solver\":{},\"assumes\":{},\"panics_allowed\":{},\"queries\":{},\"sat\":{},\"unsat\":{},\"cache_hits\":{},\"fd_decisions\":{},\"solver_time\":{:.3},\"max_query\":{:.3},\"wall\":{:.3},\"load\":{:.3},\"nodes\":{},\"z3\":{},\"covers\":{{{}}},\"checks\":{{{}}},\"funcs\":{},\"samples\":{},\"errors\":{},\"violations\":{}}}",
                js(&entry), js(status), r.paths, r.forks, r.steps, r.asserts, r.asserts_const, r.asserts_solver, r.assumes, r.panics_allowed,
                st.queries, st.sat, st.unsat, st.cache_hits, st.fd, st.time, st.max_time, wall, tload, expr::ar().nodes.len(), js(&solver::version()),
                r.covers.iter().map(|(k, v)| format!("{}:{}", js(k), v)).collect::<Vec<_>>().join(","),
                r.checks.iter().map(|(k, v)| format!("{}:{}", js(k), v)).collect::<Vec<_>>().join(","),
                jlist(r.funcs.iter().map(|f| js(f))),
                jlist(r.samples.iter().map(|f| js(f))),
                jlist(r.errors.iter().map(|f| js(f))),
                jlist(r.violations.iter().map(|v| format!(
                    "{{\"kind\":{},\"msg\":{},\"inputs\":{},\"stack\":{}}}",
                    js(&v.kind), js(&v.msg),
                    jlist(v.inputs.iter().map(|(w, x)| format!("[{w},{x}]"))),
                    jlist(v.stack.iter().map(|s| js(s)))
                ))),
            );
            match out {
                Some(p) => std::fs::write(p, j).expect("write report"),
                None => println!("{j}"),
            }
        })
        .unwrap();
    if h.join().is_err() {
        std::process::exit(3);
    }
    std::process::exit(0);
}
