mod exec;
mod parse;
mod prog;
mod selftest;
mod simp;
mod solver;
mod state;
mod term;

use std::collections::{BTreeMap, BTreeSet};
use std::time::Instant;

fn esc(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
fn list(v: &[String]) -> String {
    format!("[{}]", v.join(","))
}

extern "C" {
    fn fork() -> i32;
    fn waitpid(p: i32, s: *mut i32, o: i32) -> i32;
    fn _exit(c: i32) -> !;
    fn mmap(a: *mut u8, n: usize, prot: i32, flags: i32, fd: i32, off: i64) -> *mut u8;
}

fn main() {
    // deep recursion in term evaluation and parsing
    let h = std::thread::Builder::new().stack_size(1 << 30).spawn(real_main).unwrap();
    let c = h.join().unwrap_or(3);
    std::process::exit(c);
}

fn report(ex: &exec::Ex, harness: &str, complete: bool, wall: f64) -> String {
    // lines of the code under test that were executed
    let mut lines: BTreeMap<String, BTreeSet<u32>> = BTreeMap::new();
    let mut funcs: BTreeSet<String> = BTreeSet::new();
    for (fi, c) in ex.covered.iter().enumerate() {
        for (ii, b) in c.iter().enumerate() {
            if !*b {
                continue;
            }
            let mut d = ex.p.funcs[fi].insts[ii].dbg;
            let mut n = 0;
            while d != 0 && n < 40 {
                if let Some((f, l, s)) = ex.src(d) {
                    let f = exec::short(&f);
                    if f.contains("/repo/src/") || f.starts_with("polling-") {
                        lines.entry(f.clone()).or_default().insert(l);
                        funcs.insert(format!("{}: {}", f, s));
                    }
                }
                d = ex.p.m.locs.get(&d).map_or(0, |x| x.2);
                n += 1;
            }
        }
    }
    let mut o = String::from("{");
    o.push_str(&format!("\"harness\":{},\"complete\":{},\"wall\":{:.3},", esc(harness), complete, wall));
    let s = &ex.st;
    o.push_str(&format!(
        "\"paths\":{},\"infeasible\":{},\"forks\":{},\"steps\":{},\"max_steps\":{},\"asserts\":{},\"asserts_solver\":{},\"sym_branches\":{},\"rewritten_branches\":{},\"witnessed_branches\":{},\"max_symbols\":{},\"sched_points\":{},\"leftover\":{},",
        s.paths, s.ended, s.forks, s.steps, s.max_steps, s.asserts, s.asserts_solver, s.branches_sym, s.branches_simp, s.guessed, s.max_syms, s.sched_points, s.leftover
    ));
    let q = &ex.solver;
    o.push_str(&format!(
        "\"queries\":{},\"sat\":{},\"unsat\":{},\"cache_hits\":{},\"unknown\":{},\"second\":{},\"solver_s\":{:.3},\"slowest_query_s\":{:.3},",
        q.queries, q.sat, q.unsat, q.cache_hits, q.unknown, q.second, q.time, q.slowest
    ));
    o.push_str(&format!(
        "\"covers\":{{{}}},",
        ex.covers.iter().map(|(k, v)| format!("{}:{}", esc(k), v)).collect::<Vec<_>>().join(",")
    ));
    o.push_str(&format!(
        "\"lines\":{{{}}},",
        lines
            .iter()
            .map(|(k, v)| format!("{}:{}", esc(k), list(&v.iter().map(|x| x.to_string()).collect::<Vec<_>>())))
            .collect::<Vec<_>>()
            .join(",")
    ));
    o.push_str(&format!("\"functions\":{},", list(&funcs.iter().map(|x| esc(x)).collect::<Vec<_>>())));
    o.push_str(&format!(
        "\"unmodelled\":{},",
        list(
            &ex.unmodelled
                .iter()
                .map(|(m, st)| format!("{{\"what\":{},\"stack\":{}}}", esc(m), list(&st.iter().take(25).map(|x| esc(x)).collect::<Vec<_>>())))
                .collect::<Vec<_>>()
        )
    ));
    o.push_str(&format!(
        "\"violations\":{}",
        list(
            &ex.viols
                .iter()
                .map(|v| format!(
                    "{{\"confirmed\":{},\"kind\":{},\"msg\":{},\"stack\":{},\"tape\":{},\"sched\":{},\"log\":{},\"threads\":{}}}",
                    v.confirmed,
                    esc(&v.kind),
                    esc(&v.msg),
                    list(&v.stack.iter().map(|x| esc(x)).collect::<Vec<_>>()),
                    list(&v.tape.iter().map(|(n, w, x)| format!("[{},{},\"{}\"]", esc(n), w, x)).collect::<Vec<_>>()),
                    list(&v.sched.iter().map(|x| x.to_string()).collect::<Vec<_>>()),
                    list(&v.log.iter().map(|x| esc(x)).collect::<Vec<_>>()),
                    list(&v.threads.iter().map(|x| esc(x)).collect::<Vec<_>>())
                ))
                .collect::<Vec<_>>()
        )
    ));
    o.push('}');
    o
}

fn real_main() -> i32 {
    let mut args = std::env::args().skip(1);
    let (mut ll, mut h, mut out) = (String::new(), String::new(), String::new());
    let mut time = 600.0f64;
    let mut jobs = 1usize;
    let mut params = std::collections::HashMap::new();
    let mut trace = false;
    let mut steps = 20_000_000u64;
    let mut replay: Option<(Vec<u128>, Vec<u8>)> = None;
    let mut sites: Vec<u64> = vec![];
    let mut dump_exts = false;
    let mut max_viols = 6;
    let mut grace = 1e9f64;
    while let Some(a) = args.next() {
        let mut v = || args.next().expect("value");
        match a.as_str() {
            "--ll" => ll = v(),
            "--harness" => h = v(),
            "--out" => out = v(),
            "--time" => time = v().parse().unwrap(),
            "--jobs" => jobs = v().parse().unwrap(),
            "--steps" => steps = v().parse().unwrap(),
            "--max-viols" => max_viols = v().parse().unwrap(),
            "--param" => {
                let s = v();
                let (k, x) = s.split_once('=').unwrap();
                params.insert(k.to_string(), x.parse().unwrap());
            }
            // how long to go on after the first violation
            "--grace" => grace = v().parse().unwrap(),
            "--trace" => trace = true,
            "--exts" => dump_exts = true,
            "--replay" => {
                // "v,v,v;s,s,s;site,site"
                let s = std::fs::read_to_string(v()).unwrap();
                let (a, b) = s.trim().split_once(';').unwrap();
                let (b, c) = b.split_once(';').unwrap_or((b, ""));
                sites = c.split(',').filter(|x| !x.trim().is_empty()).map(|x| x.trim().parse().unwrap()).collect();
                replay = Some((
                    a.split(',').filter(|x| !x.is_empty()).map(|x| x.trim().parse().unwrap()).collect(),
                    b.split(',').filter(|x| !x.trim().is_empty()).map(|x| x.trim().parse().unwrap()).collect(),
                ));
            }
            "--selftest" => {
                let ok = selftest::run(v().parse().unwrap());
                println!("selftest {}", ok);
                return if ok { 0 } else { 3 };
            }
            "--version" => {
                println!("z3 {}", solver::z3_version());
                return 0;
            }
            _ => {
                eprintln!("unknown argument {}", a);
                return 2;
            }
        }
    }
    let begin = Instant::now();
    let text = match std::fs::read_to_string(&ll) {
        Ok(t) => t,
        Err(e) => {
            eprintln!("{}: {}", ll, e);
            return 2;
        }
    };
    let p = prog::build(&text);
    drop(text);
    if dump_exts {
        for e in &p.exts {
            println!("{}", e);
        }
        return 0;
    }
    let Some(f) = p.fidx.get(&h).copied() else {
        eprintln!("no harness {}", h);
        return 2;
    };
    let mut ex = exec::Ex::new(p);
    ex.params = params;
    ex.step_limit = steps;
    ex.trace = trace;
    ex.max_viols = max_viols;
    let is_replay = replay.is_some();
    ex.replay = replay;
    ex.shared_sites.extend(sites);
    let site_list = |ex: &exec::Ex| list(&ex.shared_sites.iter().map(|x| format!("\"{}\"", x)).collect::<Vec<_>>());
    let mut rounds = 0;
    // the moment of the first violation in any process, in ms
    let first = unsafe {
        let p = mmap(std::ptr::null_mut(), 4096, 3, 0x21, -1, 0);
        assert!(p as isize != -1);
        &*(p as *const std::sync::atomic::AtomicU64)
    };
    let limit = |b: Instant| b.elapsed().as_secs_f64() > time;
    // call after each path
    let enough = |b: Instant, n: usize| {
        use std::sync::atomic::Ordering::SeqCst;
        let ms = b.elapsed().as_millis() as u64 + 1;
        if n > 0 {
            let _ = first.compare_exchange(0, ms, SeqCst, SeqCst);
        }
        let f = first.load(SeqCst);
        f != 0 && ms as f64 > f as f64 + grace * 1000.0
    };
    ex.late = Some(Box::new(move || {
        let f = first.load(std::sync::atomic::Ordering::SeqCst);
        let t = begin.elapsed().as_secs_f64();
        t > time || f != 0 && t * 1000.0 > f as f64 + grace * 1000.0
    }));
    // which locations are shared between threads is learnt: repeat until it is stable
    let complete = loop {
        rounds += 1;
        let s = ex.initial(f);
        first.store(0, std::sync::atomic::Ordering::SeqCst);
        ex.new_shared = false;
        ex.stop_all = false;
        ex.seen.clear();
        ex.viols.clear();
        ex.work.clear();
        ex.work.push_back(s);
        let mut done = true;
        // breadth first until there is enough to share out
        if jobs > 1 && !is_replay {
            while ex.work.len() < jobs * 24 {
                let Some(s) = ex.work.pop_front() else { break };
                ex.run_path(s);
                if ex.stop_all || limit(begin) || ex.new_shared || enough(begin, ex.viols.len()) {
                    break;
                }
            }
            if ex.new_shared && !limit(begin) {
                continue;
            }
            if !ex.stop_all && !limit(begin) && !ex.work.is_empty() {
                let all: Vec<_> = ex.work.drain(..).collect();
                let mut kids = vec![];
                for j in 0..jobs {
                    let path = format!("{}.{}", out, j);
                    let pid = unsafe { fork() };
                    if pid == 0 {
                        let b = Instant::now();
                        let _ = b;
                        ex.work = all.into_iter().enumerate().filter(|(i, _)| i % jobs == j).map(|x| x.1).collect();
                        if j > 0 {
                            // the parent's counts go to the first child
                            ex.st = Default::default();
                            ex.viols.clear();
                            ex.covers.clear();
                            ex.unmodelled.clear();
                            ex.solver.queries = 0;
                            ex.solver.sat = 0;
                            ex.solver.unsat = 0;
                            ex.solver.cache_hits = 0;
                            ex.solver.time = 0.0;
                            ex.solver.unknown = 0;
                            ex.solver.second = 0;
                        }
                        let mut c = true;
                        while let Some(s) = ex.work.pop_back() {
                            ex.run_path(s);
                            if ex.stop_all || limit(begin) || enough(begin, ex.viols.len()) {
                                c = ex.work.is_empty();
                                break;
                            }
                        }
                        ex.st.leftover = ex.work.len() as u64;
                        let r = report(&ex, &h, c && !ex.abandoned && ex.solver.unknown == 0, begin.elapsed().as_secs_f64());
                        std::fs::write(&path, r).unwrap();
                        if ex.new_shared {
                            let t: Vec<String> = ex.shared_sites.iter().map(|x| x.to_string()).collect();
                            std::fs::write(format!("{}.sites", path), t.join(" ")).unwrap();
                        }
                        unsafe { _exit(if ex.new_shared { 7 } else { 0 }) };
                    }
                    kids.push((pid, path));
                }
                let mut bad = false;
                let mut parts = vec![];
                let mut grew = false;
                for (pid, path) in kids {
                    let mut s = 0;
                    unsafe { waitpid(pid, &mut s, 0) };
                    if s == 7 << 8 {
                        grew = true;
                    } else if s != 0 {
                        bad = true;
                    }
                    if let Ok(t) = std::fs::read_to_string(&path) {
                        parts.push(t);
                    } else {
                        bad = true;
                    }
                    let _ = std::fs::remove_file(&path);
                    let sp = format!("{}.sites", path);
                    if let Ok(t) = std::fs::read_to_string(&sp) {
                        ex.shared_sites.extend(t.split_whitespace().map(|x| x.parse::<u64>().unwrap()));
                        let _ = std::fs::remove_file(&sp);
                    }
                }
                if grew && !bad && !limit(begin) {
                    continue;
                }
                let o = format!("{{\"parts\":[{}],\"bad\":{},\"rounds\":{},\"shared_grew\":{},\"sites\":{}}}", parts.join(",\n"), bad, rounds, grew, site_list(&ex));
                std::fs::write(&out, o).unwrap();
                return if bad { 3 } else { 0 };
            }
        }
        while let Some(s) = ex.work.pop_back() {
            ex.run_path(s);
            if is_replay {
                break;
            }
            if ex.stop_all || limit(begin) || enough(begin, ex.viols.len()) {
                done = ex.work.is_empty();
                break;
            }
        }
        ex.st.leftover = ex.work.len() as u64;
        if ex.new_shared && (done || ex.stop_all) && !is_replay && !limit(begin) {
            continue;
        }
        break done && !(ex.new_shared && !is_replay);
    };
    if ex.profile {
        let mut v: Vec<_> = ex.prof.iter().collect();
        v.sort_by_key(|x| std::cmp::Reverse((x.1 .1, x.1 .0)));
        for (k, (b, f)) in v.iter().take(40) {
            eprintln!("{:6} forks {:6} branches  {}", f, b, k);
        }
    }
    let r = report(&ex, &h, complete && !ex.abandoned && ex.solver.unknown == 0, begin.elapsed().as_secs_f64());
    let o = format!("{{\"parts\":[{}],\"bad\":false,\"rounds\":{},\"shared_grew\":{},\"sites\":{}}}", r, rounds, ex.new_shared && !is_replay, site_list(&ex));
    if out.is_empty() {
        println!("{}", o);
    } else {
        std::fs::write(&out, o).unwrap();
    }
    0
}
