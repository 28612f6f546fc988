mod exec;
mod expr;
mod ir;
mod mem;
mod order;
mod par;
mod z3;

use std::collections::{BTreeMap, BTreeSet};
use std::io::Write;
use std::sync::atomic::{AtomicUsize, Ordering};
use std::sync::Mutex;
use std::time::{Duration, Instant};

fn jstr(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            c if (c as u32) < 0x20 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

fn nums(v: &[u64]) -> String {
    v.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(",")
}

fn main() {
    let mut ll = String::new();
    let mut jobs_file = String::new();
    let mut out = String::new();
    let mut paths_out = String::new();
    let mut threads = 8usize;
    let mut time = 600.0f64;
    let mut check_order = false;
    let mut job_time = 1e9f64;
    let mut max_steps = 20_000_000u64;
    let mut max_viol = 1usize;
    let mut keep = 1_000_000usize;
    let mut stop_on_viol = true;
    let mut verbose = false;
    let mut a = std::env::args().skip(1);
    while let Some(x) = a.next() {
        let mut v = || a.next().expect("argument value");
        match x.as_str() {
            "--ll" => ll = v(),
            "--jobs" => jobs_file = v(),
            "--out" => out = v(),
            "--paths" => paths_out = v(),
            "--threads" => threads = v().parse().unwrap(),
            "--time" => time = v().parse().unwrap(),
            "--job-time" => job_time = v().parse().unwrap(),
            "--check-order" => check_order = true,
            "--max-steps" => max_steps = v().parse().unwrap(),
            "--max-viol" => max_viol = v().parse().unwrap(),
            "--keep-paths" => keep = v().parse().unwrap(),
            "--all" => stop_on_viol = false,
            "-v" => verbose = true,
            _ => {
                eprintln!("unknown argument {}", x);
                std::process::exit(3);
            }
        }
    }
    let t0 = Instant::now();
    let m = match ir::ModuleText::load(&ll) {
        Ok(m) => m,
        Err(e) => {
            eprintln!("cannot load IR: {}", e);
            std::process::exit(3);
        }
    };
    let load_s = t0.elapsed().as_secs_f64();
    // job lines: harness p0 p1 ...
    let text = std::fs::read_to_string(&jobs_file).expect("jobs file");
    let jobs: Vec<(String, Vec<u64>)> = text
        .lines()
        .filter(|l| !l.trim().is_empty())
        .map(|l| {
            let mut w = l.split_whitespace();
            let h = w.next().unwrap().to_string();
            (h, w.map(|x| x.parse().expect("job parameter")).collect())
        })
        .collect();
    let lim = exec::Limits {
        max_steps,
        deadline: t0 + Duration::from_secs_f64(time),
        job_time,
        check_order,
        max_depth: 2000,
        max_viol,
        keep_paths: keep, verbose,
    };
    let next = AtomicUsize::new(0);
    let stop = &exec::STOP;
    struct Res {
        lines: Vec<(usize, String)>,
        paths: Vec<u8>,
        funcs: BTreeSet<String>,
        covers: BTreeMap<String, u64>,
    }
    let res = Mutex::new(Res { lines: vec![], paths: vec![], funcs: BTreeSet::new(), covers: BTreeMap::new() });
    std::thread::scope(|sc| {
        for _ in 0..threads {
            std::thread::Builder::new()
                .stack_size(256 << 20)
                .spawn_scoped(sc, || {
                    let prog = ir::Program::new(&m);
                    loop {
                        let k = next.fetch_add(1, Ordering::SeqCst);
                        if k >= jobs.len() {
                            break;
                        }
                        let (h, ps) = &jobs[k];
                        let line;
                        if stop.load(Ordering::SeqCst) || Instant::now() > lim.deadline {
                            let why = if stop.load(Ordering::SeqCst) { "skipped" } else { "time" };
                            line = format!("{{\"job\":{},\"harness\":{},\"params\":[{}],\"status\":\"{}\"}}", k, jstr(h), nums(ps), why);
                        } else {
                            let ex = exec::Exec::new(&prog, &lim);
                            let s = ex.run_job(h, ps);
                            if !s.violations.is_empty() && stop_on_viol {
                                stop.store(true, Ordering::SeqCst);
                            }
                            let status = if !s.violations.is_empty() {
                                "violation"
                            } else if !s.errors.is_empty() {
                                "error"
                            } else {
                                "ok"
                            };
                            let vs: Vec<String> = s
                                .violations
                                .iter()
                                .map(|v| {
                                    format!(
                                        "{{\"kind\":{},\"msg\":{},\"inputs\":[{}],\"stack\":[{}]}}",
                                        jstr(&v.kind),
                                        jstr(&v.msg),
                                        nums(&v.inputs),
                                        v.stack.iter().map(|x| jstr(&exec::short(x))).collect::<Vec<_>>().join(",")
                                    )
                                })
                                .collect();
                            let es: Vec<String> = s.errors.iter().map(|e| jstr(e)).collect();
                            line = format!(
                                "{{\"job\":{},\"harness\":{},\"params\":[{}],\"status\":\"{}\",\"paths\":{},\"pruned\":{},\"forks\":{},\"choice_forks\":{},\"steps\":{},\"max_steps\":{},\"max_pc\":{},\"max_inputs\":{},\"asserts_solver\":{},\"asserts_concrete\":{},\"by_order\":{},\"schedules\":{},\"syncs\":{},\"queries\":{},\"sat\":{},\"unsat\":{},\"solver_s\":{:.3},\"wall_s\":{:.3},\"violations\":[{}],\"errors\":[{}]}}",
                                k, jstr(h), nums(ps), status, s.paths, s.pruned, s.forks, s.choice_forks, s.steps, s.max_steps, s.max_pc, s.max_inputs,
                                s.asserts_solver, s.asserts_concrete, s.by_order, s.schedules, s.syncs, s.queries, s.sat, s.unsat, s.solver_s, s.wall_s, vs.join(","), es.join(",")
                            );
                            if verbose {
                                eprintln!("{}", line);
                            }
                            let mut pb: Vec<u8> = Vec::new();
                            for p in &s.paths_out {
                                let _ = writeln!(pb, "{} {} : {} : {:016x} {}", h, nums(ps), nums(&p.inputs), p.trace, p.ntrace);
                            }
                            let mut r = res.lock().unwrap();
                            r.paths.extend(pb);
                            for f in &s.funcs {
                                r.funcs.insert(prog.fn_name(*f));
                            }
                            for (c, n) in &s.covers {
                                *r.covers.entry(format!("{}:{}", h, c)).or_insert(0) += n;
                            }
                        }
                        res.lock().unwrap().lines.push((k, line));
                    }
                })
                .unwrap();
        }
    });
    let mut r = res.into_inner().unwrap();
    r.lines.sort();
    let mut o = String::new();
    o.push_str("{\"jobs\":[\n");
    o.push_str(&r.lines.iter().map(|x| x.1.clone()).collect::<Vec<_>>().join(",\n"));
    o.push_str("\n],\n\"covers\":{");
    o.push_str(&r.covers.iter().map(|(k, v)| format!("{}:{}", jstr(k), v)).collect::<Vec<_>>().join(","));
    o.push_str("},\n\"functions\":[");
    o.push_str(&r.funcs.iter().map(|k| jstr(k)).collect::<Vec<_>>().join(",\n"));
    o.push_str(&format!("],\n\"load_s\":{:.3},\"wall_s\":{:.3}}}\n", load_s, t0.elapsed().as_secs_f64()));
    if out.is_empty() {
        print!("{}", o);
    } else {
        std::fs::write(&out, o).expect("write result");
    }
    if !paths_out.is_empty() {
        std::fs::write(&paths_out, r.paths).expect("write paths");
    }
}
