//! irsym: symbolic execution of rustc-emitted LLVM IR with Z3.
mod exec;
mod expr;
mod ir;
mod mem;
mod solver;

use exec::*;
use std::collections::{BTreeMap, VecDeque};
use std::fmt::Write;
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering};
use std::sync::{Condvar, Mutex};
use std::time::{Duration, Instant};

fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            c if (c as u32) < 32 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
fn nums(v: &[u64]) -> String {
    // as strings: 64-bit values do not survive JSON doubles
    format!("[{}]", v.iter().map(|x| format!("\"{}\"", x)).collect::<Vec<_>>().join(","))
}
fn strs(v: &[String]) -> String {
    format!("[{}]", v.iter().map(|x| js(x)).collect::<Vec<_>>().join(","))
}

fn main() {
    let mut args = std::env::args().skip(1);
    let mut files: Vec<String> = vec![];
    let mut runs: Vec<(String, u64)> = vec![];
    let mut workers = 8usize;
    let mut timeout = 600u64;
    let mut qtimeout = 60_000u32;
    let mut max_steps = 200_000_000u64;
    let mut out = String::new();
    let mut seed = 1u64;
    let mut nsamples = 12usize;
    let mut max_viol = 4usize;
    while let Some(a) = args.next() {
        let mut nx = || args.next().expect("missing argument");
        match a.as_str() {
            "--list" => {
                let f = nx();
                for l in std::fs::read_to_string(&f).expect("list").lines() {
                    if !l.trim().is_empty() {
                        files.push(l.trim().to_string());
                    }
                }
            }
            "--run" => {
                let r = nx();
                let (n, k) = match r.split_once(':') {
                    Some((n, k)) => (n.to_string(), k.parse().expect("run argument")),
                    None => (r, 0),
                };
                runs.push((n, k));
            }
            "--jobs" => workers = nx().parse().unwrap(),
            "--timeout" => timeout = nx().parse().unwrap(),
            "--qtimeout" => qtimeout = nx().parse().unwrap(),
            "--max-steps" => max_steps = nx().parse().unwrap(),
            "--out" => out = nx(),
            "--seed" => seed = nx().parse().unwrap(),
            "--samples" => nsamples = nx().parse().unwrap(),
            "--max-viol" => max_viol = nx().parse().unwrap(),
            _ => {
                if a.ends_with(".ll") {
                    files.push(a)
                } else {
                    eprintln!("irsym: unknown argument {}", a);
                    std::process::exit(2);
                }
            }
        }
    }
    let t0 = Instant::now();
    let prog = ir::Program::load(&files);
    let ext: Vec<Option<Ext>> = prog.syms.iter().map(|s| ext_of(s.name)).collect();
    let load = t0.elapsed().as_secs_f64();
    let mut specs = vec![];
    for (n, k) in &runs {
        match prog.global.get(n.as_str()) {
            Some(&i) if prog.syms[i as usize].kind == ir::SymKind::Func => specs.push(RunSpec { entry: n.clone(), arg: *k, sym: i }),
            _ => {
                eprintln!("irsym: no function {}", n);
                std::process::exit(2);
            }
        }
    }
    let sh = Shared {
        prog,
        ext,
        queue: Mutex::new((0..specs.len()).map(|i| Job { run: i, prefix: vec![] }).collect::<VecDeque<_>>()),
        runs: specs,
        cv: Condvar::new(),
        idle: AtomicUsize::new(0),
        workers,
        done: AtomicBool::new(false),
        timed_out: AtomicBool::new(false),
        deadline: Instant::now() + Duration::from_secs(timeout),
        max_steps,
        max_viol,
        viols: AtomicUsize::new(0),
        qlen: AtomicUsize::new(0),
        seed,
        nsamples,
        trace_steps: AtomicU64::new(0),
    };
    let t1 = Instant::now();
    let mut res: Vec<(Vec<RunStats>, expr::FxMap<u32, u64>, [u64; 7])> = vec![];
    std::thread::scope(|s| {
        let hs: Vec<_> = (0..workers)
            .map(|_| {
                std::thread::Builder::new()
                    .stack_size(1 << 30)
                    .spawn_scoped(s, || {
                        let mut w = Worker::new(&sh, qtimeout);
                        w.main();
                        let q = [w.sol.queries, w.sol.sat, w.sol.unsat, w.sol.unknown, w.sol.cache_hits, w.sol.time_us, w.sol.max_us];
                        (std::mem::take(&mut w.stats), std::mem::take(&mut w.funcs), q)
                    })
                    .unwrap()
            })
            .collect();
        for h in hs {
            match h.join() {
                Ok(r) => res.push(r),
                Err(_) => {
                    sh.done.store(true, Ordering::SeqCst);
                    eprintln!("irsym: worker failed");
                    std::process::exit(3);
                }
            }
        }
    });
    let wall = t1.elapsed().as_secs_f64();
    let mut tot = [0u64; 7];
    for r in &res {
        for i in 0..6 {
            tot[i] += r.2[i];
        }
        tot[6] = tot[6].max(r.2[6]);
    }
    let mut o = String::new();
    let _ = write!(
        o,
        "{{\"timed_out\":{},\"load_s\":{:.3},\"wall_s\":{:.3},\"queries\":{},\"sat\":{},\"unsat\":{},\"unknown\":{},\"cache_hits\":{},\"solver_s\":{:.3},\"max_query_ms\":{:.3},",
        sh.timed_out.load(Ordering::SeqCst),
        load,
        wall,
        tot[0],
        tot[1],
        tot[2],
        tot[3],
        tot[4],
        tot[5] as f64 / 1e6,
        tot[6] as f64 / 1e3
    );
    let mut fs: BTreeMap<String, u64> = BTreeMap::new();
    for (_, f, _) in &res {
        for (k, n) in f {
            let s = &sh.prog.syms[*k as usize];
            let nm = if s.pretty.is_empty() { s.name } else { s.pretty };
            *fs.entry(nm.to_string()).or_insert(0) += n;
        }
    }
    let fl: Vec<String> = fs.iter().map(|(k, v)| format!("{}:{}", js(k), v)).collect();
    let _ = write!(o, "\"functions\":{{{}}},\"runs\":[", fl.join(","));
    for (i, sp) in sh.runs.iter().enumerate() {
        let mut t = RunStats::default();
        for (st, _, _) in &res {
            let s = &st[i];
            t.paths += s.paths;
            t.infeasible += s.infeasible;
            t.panics_expected += s.panics_expected;
            t.forks += s.forks;
            t.implied += s.implied;
            t.checks += s.checks;
            t.checks_solver += s.checks_solver;
            t.steps += s.steps;
            t.maxsteps = t.maxsteps.max(s.maxsteps);
            for (k, v) in &s.reach {
                *t.reach.entry(*k).or_insert(0) += v;
            }
            for (k, v) in &s.check_ids {
                *t.check_ids.entry(*k).or_insert(0) += v;
            }
            t.samples.extend(s.samples.iter().cloned());
            t.violations.extend(s.violations.iter().cloned());
            t.errors.extend(s.errors.iter().cloned());
        }
        t.samples.sort();
        t.samples.truncate(nsamples);
        if i > 0 {
            o.push(',');
        }
        let _ = write!(
            o,
            "{{\"entry\":{},\"arg\":{},\"paths\":{},\"infeasible\":{},\"expected_panics\":{},\"forks\":{},\"implied\":{},\"checks\":{},\"checks_by_solver\":{},\"steps\":{},\"max_steps\":{},",
            js(&sp.entry),
            sp.arg,
            t.paths,
            t.infeasible,
            t.panics_expected,
            t.forks,
            t.implied,
            t.checks,
            t.checks_solver,
            t.steps,
            t.maxsteps
        );
        let m = |b: &BTreeMap<u64, u64>| b.iter().map(|(k, v)| format!("\"{}\":{}", k, v)).collect::<Vec<_>>().join(",");
        let _ = write!(o, "\"reach\":{{{}}},\"check_ids\":{{{}}},\"errors\":{},", m(&t.reach), m(&t.check_ids), strs(&t.errors));
        let sm: Vec<String> = t
            .samples
            .iter()
            .map(|(_, ins, obs)| {
                format!(
                    "{{\"inputs\":{},\"observes\":[{}]}}",
                    nums(ins),
                    obs.iter().map(|(a, b)| format!("[\"{}\",\"{}\"]", a, b)).collect::<Vec<_>>().join(",")
                )
            })
            .collect();
        let vs: Vec<String> = t
            .violations
            .iter()
            .map(|v| format!("{{\"kind\":{},\"id\":{},\"msg\":{},\"inputs\":{},\"stack\":{}}}", js(v.kind), v.id, js(&v.msg), nums(&v.inputs), strs(&v.stack)))
            .collect();
        let _ = write!(o, "\"samples\":[{}],\"violations\":[{}]}}", sm.join(","), vs.join(","));
    }
    o.push_str("]}\n");
    if out.is_empty() {
        print!("{}", o);
    } else {
        std::fs::write(&out, o).unwrap();
    }
}
