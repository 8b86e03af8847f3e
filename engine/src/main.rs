//! llsym: bounded symbolic execution of the crate's optimised LLVM IR, deciding harness assertions
//! with SMT solvers.
mod dbg;
mod eval;
mod ext;
mod interp;
mod ll;
mod merge;
mod poly;
mod smt;
mod term;
use interp::*;
use std::collections::HashMap;
use std::time::{Duration, Instant};
use term::Mode;

fn main() {
    let h = std::thread::Builder::new().stack_size(4usize << 30).spawn(run).unwrap();
    let code = h.join().unwrap_or(3);
    std::process::exit(code);
}

fn usage() -> ! {
    eprintln!("llsym FILE.ll ENTRY [--mode real|rnd|fp] [--time S] [--query S] [--paths N] [--steps N] [--cex N] [--shard i/n] [--pick k=v] [--concrete FILE] [--out FILE] [-v]");
    std::process::exit(3)
}

fn run() -> i32 {
    let mut args = std::env::args().skip(1);
    let mut pos = vec![];
    let mut mode = Mode::Real;
    let t0 = Instant::now();
    let mut time = 60.0f64;
    let mut out = None;
    let mut snap = false;
    let mut ideal = false;
    let mut o = Opts {
        deadline: t0,
        hurry: None,
        hunts: 0,
        q_timeout: 20.0,
        max_paths: 1_000_000,
        max_cex: 4,
        max_steps: 200_000_000,
        concrete: None,
        shard: None,
        verbose: false,
        tier: 0,
        fixed_picks: HashMap::new(),
        merge: false,
        nonzero: false,
    };
    while let Some(a) = args.next() {
        let mut val = || args.next().unwrap_or_else(|| usage());
        match a.as_str() {
            "--mode" => {
                mode = match val().as_str() {
                    "real" => Mode::Real,
                    "rnd" => Mode::Rnd,
                    "fp" => Mode::Fp,
                    _ => usage(),
                }
            }
            "--time" => time = val().parse().unwrap(),
            "--query" => o.q_timeout = val().parse().unwrap(),
            "--paths" => o.max_paths = val().parse().unwrap(),
            "--steps" => o.max_steps = val().parse().unwrap(),
            "--cex" => o.max_cex = val().parse().unwrap(),
            "--shard" => {
                let v = val();
                let (x, y) = v.split_once('/').unwrap();
                o.shard = Some((x.parse().unwrap(), y.parse().unwrap()));
            }
            "--pick" => {
                let v = val();
                let (x, y) = v.split_once('=').unwrap();
                o.fixed_picks.insert(x.to_string(), y.parse().unwrap());
            }
            "--concrete" => {
                let mut m = HashMap::new();
                for l in std::fs::read_to_string(val()).unwrap().lines() {
                    let mut w = l.split_whitespace();
                    if let (Some(n), Some(v)) = (w.next(), w.next()) {
                        m.insert(n.to_string(), v.parse::<f64>().unwrap());
                    }
                }
                o.concrete = Some(m);
            }
            "--out" => out = Some(val()),
            "--merge" => o.merge = true,
            "--hurry" => o.hurry = Some(val().parse().unwrap()),
            "--nonzero" => o.nonzero = true,
            "--snap" => snap = true,
            "--ideal" => ideal = true,
            "-v" => o.verbose = true,
            "--tier" => o.tier = val().parse().unwrap(),
            _ if a.starts_with('-') => usage(),
            _ => pos.push(a),
        }
    }
    if pos.len() != 2 {
        usage();
    }
    o.deadline = t0 + Duration::from_secs_f64(time);
    let text = std::fs::read_to_string(&pos[0]).expect("read ll");
    let m = ll::Module::parse(text);
    if pos[1] == "--parse-all" || pos[1] == "parse-all" {
        let mut m = m;
        let n = m.fnames.len();
        let mut bad = 0;
        for i in 0..n {
            let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| m.func(i as u32).is_some()));
            if r.is_err() {
                bad += 1;
                eprintln!("cannot parse {}", m.fnames[i]);
            }
        }
        let ng = m.globals.len();
        for g in 0..ng {
            if std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| m.global_init(g as u32))).is_err() {
                eprintln!("cannot parse global {}", m.globals[g].name);
                bad += 1;
            }
        }
        eprintln!("{} functions, {} globals, {} failures", n, ng, bad);
        return (bad > 0) as i32;
    }
    let concrete = o.concrete.is_some();
    let verbose = o.verbose;
    let mut e = Eng::new(m, mode, o);
    e.canon.snapping = snap;
    e.canon.squares = ideal;
    e.tt.dec = ideal;
    let st = match e.init_state(&pos[1]) {
        Ok(s) => s,
        Err(m) => {
            eprintln!("llsym: {}", m);
            return 3;
        }
    };
    let tp = t0.elapsed().as_secs_f64();
    e.explore(st);
    if verbose {
        let mut l = e.slog.clone();
        l.sort_by(|a, b| b.1.partial_cmp(&a.1).unwrap());
        for (s, t) in l.iter().take(8) {
            eprintln!("slow {:.2}s {}", t, s);
        }
    }
    let verdict = if !e.cex.is_empty() {
        "cex"
    } else if !e.stats.undecided.is_empty() || (e.stats.paths == 0 && !concrete) {
        "undecided"
    } else {
        "holds"
    };
    let funcs = dbg::coverage(&e.m, &e.dbgseen);
    let cex: Vec<serde_json::Value> = e
        .cex
        .iter()
        .map(|c| {
            let model: Vec<serde_json::Value> = c
                .model
                .iter()
                .map(|(n, k, q)| {
                    let v = term::q_to_f64(q);
                    let v = if *k == 'i' { q.to_integer().to_string() } else { format!("{:?}", v) };
                    serde_json::json!([n, v])
                })
                .collect();
            let picks: Vec<serde_json::Value> =
                c.picks.iter().filter(|x| !x.0.starts_with('#')).map(|(k, v)| serde_json::json!([k, v.to_string()])).collect();
            serde_json::json!({"kind": c.kind, "msg": c.msg, "model": model, "picks": picks, "stack": c.stack.iter().take(12).collect::<Vec<_>>()})
        })
        .collect();
    let s = &e.stats;
    let mut und = s.undecided.clone();
    let nund = und.len();
    und.dedup();
    und.truncate(20);
    let j = serde_json::json!({
        "entry": pos[1], "mode": format!("{:?}", mode), "verdict": verdict, "cex": cex,
        "paths": s.paths, "infeasible": s.infeasible, "forks": s.forks, "steps": s.steps,
        "asserts": s.asserts, "asserts_by_simplification": s.asserts_const, "asserts_by_solver": s.proved,
        "queries": s.oneshot_queries + e.slog.len() as u64, "portfolio_queries": s.oneshot_queries,
        "solver_s": s.oneshot_time + e.slog.iter().map(|x| x.1).sum::<f64>(),
        "by_solver": s.by_solver, "panics_checked": s.panics_checked,
        "undecided": und, "undecided_n": nund, "notes": s.errors, "covers": s.covers, "traces": e.traces,
        "functions": funcs, "terms": e.tt.nodes.len(), "parse_s": tp, "time_s": t0.elapsed().as_secs_f64(),
    });
    let txt = serde_json::to_string_pretty(&j).unwrap();
    match out {
        Some(f) => std::fs::write(f, txt).unwrap(),
        None => println!("{}", txt),
    }
    match verdict {
        "holds" => 0,
        "cex" => 1,
        _ => 2,
    }
}
