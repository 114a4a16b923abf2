mod exec;
mod expr;
mod fp;
mod ir;
mod mem;
mod selftest;
mod solver;
use std::fmt::Write;

fn esc(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            c if (c as u32) < 32 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
fn nums(v: &[u128]) -> String {
    let s: Vec<String> = v.iter().map(|x| format!("\"{}\"", x)).collect();
    format!("[{}]", s.join(","))
}

fn real_main() {
    let mut ir = String::new();
    let mut out = String::new();
    let mut cfg = exec::Config {
        entry: String::new(),
        params: vec![],
        max_steps: 20_000_000,
        time_limit: 600.0,
        seed: 1,
        max_samples: 100,
        max_violations: 4,
        split: false,
    };
    let mut a = std::env::args().skip(1);
    while let Some(k) = a.next() {
        if k == "--selftest" {
            let n = a.next().and_then(|x| x.parse().ok()).unwrap_or(20_000);
            return selftest::run(n, cfg.seed);
        }
        let v = a.next().expect("value");
        match k.as_str() {
            "--ir" => ir = v,
            "--out" => out = v,
            "--entry" => cfg.entry = v,
            "--params" => cfg.params = v.split(',').filter(|x| !x.is_empty()).map(|x| x.parse().unwrap()).collect(),
            "--max-steps" => cfg.max_steps = v.parse().unwrap(),
            "--time" => cfg.time_limit = v.parse().unwrap(),
            "--split" => cfg.split = v == "1",
            "--seed" => cfg.seed = v.parse().unwrap(),
            "--samples" => cfg.max_samples = v.parse().unwrap(),
            "--max-violations" => cfg.max_violations = v.parse().unwrap(),
            _ => panic!("option {}", k),
        }
    }
    let m = ir::Module::load(&ir);
    let mut x = exec::Exec::new(m, cfg);
    x.run();
    let mut s = String::from("{\n");
    let _ = writeln!(s, "\"entry\":{},", esc(&x.cfg.entry));
    let _ = writeln!(s, "\"params\":{:?},", x.cfg.params);
    let _ = writeln!(s, "\"paths\":{},\"steps\":{},\"forks\":{},\"max_path_steps\":{},", x.paths, x.steps, x.forks, x.max_path_steps);
    let _ = writeln!(
        s,
        "\"queries\":{},\"query_cache_hits\":{},\"sat\":{},\"unsat\":{},\"unknown\":{},\"hard\":{},\"refinements\":{},\"solver_s\":{:.3},\"max_query_s\":{:.3},\"unary\":{},",
        x.sol.queries, x.sol.cache_hits, x.sol.sat, x.sol.unsat, x.sol.unknown, x.sol.hard_queries, x.sol.refinements, x.sol.time, x.sol.max_time, x.unary
    );
    let _ = writeln!(s, "\"asserts\":{},\"asserts_const\":{},\"asserts_solver\":{},", x.asserts, x.asserts_const, x.asserts_solver);
    let _ = writeln!(s, "\"wall_s\":{:.3},", x.elapsed());
    let oc: Vec<String> = x.outcomes.iter().map(|(k, v)| format!("{}:{}", esc(k), v)).collect();
    let _ = writeln!(s, "\"outcomes\":{{{}}},", oc.join(","));
    let cv: Vec<String> = x.covers.iter().map(|k| k.to_string()).collect();
    let _ = writeln!(s, "\"covers\":[{}],", cv.join(","));
    let _ = writeln!(s, "\"incomplete\":{},", x.incomplete.as_ref().map(|i| esc(i)).unwrap_or("null".into()));
    let vals = |v: &[(u16, u128)]| nums(&v.iter().map(|x| x.1).collect::<Vec<_>>());
    let vs: Vec<String> = x
        .violations
        .iter()
        .map(|v| {
            let t: Vec<String> = v.trace.iter().map(|t| esc(t)).collect();
            format!("{{\"kind\":{},\"msg\":{},\"vals\":{},\"trace\":[{}]}}", esc(&v.kind), esc(&v.msg), vals(&v.vals), t.join(","))
        })
        .collect();
    let _ = writeln!(s, "\"violations\":[{}],", vs.join(",\n"));
    let smp = |p: &exec::Sample| {
        format!(
            "{{\"outcome\":{},\"vals\":{},\"obs\":{},\"steps\":{}}}",
            esc(&p.outcome),
            vals(&p.vals),
            nums(&p.obs),
            p.steps
        )
    };
    let ss: Vec<String> = x.samples.iter().map(&smp).collect();
    let _ = writeln!(s, "\"samples\":[{}],", ss.join(",\n"));
    let ks: Vec<String> = x.known.iter().map(|(k, p)| format!("\"{}\":{}", k, smp(p))).collect();
    let _ = writeln!(s, "\"known\":{{{}}},", ks.join(","));
    let mut fs: Vec<String> = x.funcs_run.iter().map(|&f| esc(&x.m.funcs[f as usize].name)).collect();
    fs.sort();
    let _ = writeln!(s, "\"functions\":[{}]", fs.join(","));
    s.push_str("}\n");
    if out.is_empty() {
        print!("{}", s);
    } else {
        std::fs::write(out, s).unwrap();
    }
}

fn main() {
    let h = std::thread::Builder::new().stack_size(8 << 30).spawn(real_main).unwrap();
    if h.join().is_err() {
        std::process::exit(3);
    }
}
