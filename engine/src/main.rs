mod exec;
mod ir;
mod libc;
mod mem;
mod solver;
mod state;
mod term;

use std::io::Write;

fn esc(s: &str) -> String {
    let mut o = String::new();
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 32 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let mut cfg = exec::Config::default();
    let mut ll = String::new();
    let mut out = String::new();
    let mut solvers: Vec<Vec<String>> = vec![];
    let mut i = 1;
    while i < args.len() {
        let a = args[i].as_str();
        let mut v = || {
            i += 1;
            args[i].clone()
        };
        match a {
            "--ll" => ll = v(),
            "--entry" => cfg.entry = v(),
            "--out" => out = v(),
            "--solver" => solvers.push(v().split_whitespace().map(|s| s.to_string()).collect()),
            "--timeout-ms" => cfg.timeout_ms = v().parse().unwrap(),
            "--max-secs" => cfg.max_secs = v().parse().unwrap(),
            "--max-paths" => cfg.max_paths = v().parse().unwrap(),
            "--max-steps" => cfg.max_steps = v().parse().unwrap(),
            "--alloc-limit" => cfg.alloc_limit = v().parse().unwrap(),
            "--enum-limit" => cfg.enum_limit = v().parse().unwrap(),
            "--dump" => cfg.dump = Some(v()),
            "--seed" => cfg.seed = v().parse().unwrap(),
            "--threads-at" => cfg.threads_at = v(),
            "--param" => {
                let s = v();
                let (k, x) = s.split_once('=').unwrap();
                cfg.params.insert(k.to_string(), x.parse().unwrap());
            }
            "--trace" => cfg.trace = true,
            "--verbose" => cfg.verbose = true,
            _ => panic!("unknown argument {}", a),
        }
        i += 1;
    }
    if solvers.is_empty() {
        solvers.push(vec!["z3-new".into(), "-in".into()]);
        solvers.push(vec!["cvc5".into(), "--incremental".into(), "--tlimit-per=60000".into()]);
    }
    cfg.solvers = solvers;
    cfg.out = out.clone();
    let th = std::thread::Builder::new()
        .stack_size(16 << 30)
        .spawn(move || {
            let text = std::fs::read_to_string(&ll).unwrap_or_else(|e| panic!("{}: {}", ll, e));
            let t0 = std::time::Instant::now();
            let mut ex = exec::Exec::new(text, cfg);
            ex.run_all();
            let r = ex.report(t0.elapsed().as_secs_f64());
            if out.is_empty() {
                println!("{}", r);
            } else {
                let mut f = std::fs::File::create(&out).unwrap();
                f.write_all(r.as_bytes()).unwrap();
            }
            ex.exit_code()
        })
        .unwrap();
    match th.join() {
        Ok(c) => std::process::exit(c),
        Err(_) => std::process::exit(3),
    }
}

pub fn jesc(s: &str) -> String {
    esc(s)
}
