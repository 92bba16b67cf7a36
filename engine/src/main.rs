//! symir: dynamic symbolic execution of Rust code from the compiler's LLVM IR.
//!
//! symir run --bc FILE [--threads N] [--budget INSTRS] [--solver-ms MS] [--own SUBSTR,SUBSTR]
//!       --job NAME:ENTRY:P0,P1,..:SECONDS [--job ..] --out FILE.json [--total SECONDS]
//! symir eval --bc FILE --entry NAME --params .. --model v0,v1,..      one concrete path (debugging)

mod exec;
mod expr;
mod ir;
mod llvm;
mod solver;

use exec::*;
use std::collections::BTreeMap;
use std::fmt::Write as _;
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering::*};
use std::sync::{Arc, Condvar, Mutex};
use std::time::{Duration, Instant};

struct Job { name: String, entry: String, params: Vec<u64>, secs: f64 }

struct Queue { items: Vec<Item>, busy: usize, rng: u64 }

#[derive(Default)]
struct Total {
    cnt: Counters,
    solver: solver::Stats,
    reached: BTreeMap<String, u64>,
    called: Vec<bool>,
    fail: Option<Failure>,
    known: BTreeMap<String, (u64, String)>,
    unsup: BTreeMap<String, u64>,
    samples: Vec<(Vec<u64>, Vec<u64>)>,
    dropped: u64,
    profile: std::collections::HashMap<(u32, u32), u64>,
}
struct Failure { msg: String, vars: Vec<(String, u64)>, trace: Vec<String> }

fn jstr(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c { '"' => o.push_str("\\\""), '\\' => o.push_str("\\\\"), '\n' => o.push_str("\\n"), c if (c as u32) < 32 => { let _ = write!(o, "\\u{:04x}", c as u32); } c => o.push(c) }
    }
    o.push('"');
    o
}
fn jlist(v: impl IntoIterator<Item = String>) -> String { format!("[{}]", v.into_iter().collect::<Vec<_>>().join(",")) }

fn add_cnt(a: &mut Counters, b: &Counters) {
    a.paths += b.paths; a.instrs += b.instrs; a.events += b.events; a.asserts += b.asserts; a.asserts_sym += b.asserts_sym;
    a.assumes += b.assumes; a.dead += b.dead; a.restarts += b.restarts; a.unknowns += b.unknowns;
    a.max_pc = a.max_pc.max(b.max_pc); a.max_path_instrs = a.max_path_instrs.max(b.max_path_instrs);
}

#[allow(clippy::too_many_arguments)]
fn run_job(prog: &'static ir::Program, kinds: &Arc<Vec<FK>>, job: &Job, threads: usize, solver_ms: u32, budget: u64, check: bool, profile: bool) -> (Total, bool, f64) {
    let Some(&entry) = prog.by_name.get(&job.entry) else { eprintln!("no function {}", job.entry); std::process::exit(2) };
    let t0 = Instant::now();
    let q = Arc::new((Mutex::new(Queue { items: vec![Item { model: vec![], depth: 0, excl: vec![] }], busy: 0, rng: 88172645463325252 }), Condvar::new()));
    let stop = Arc::new(AtomicBool::new(false));
    let timed_out = Arc::new(AtomicBool::new(false));
    let total = Arc::new(Mutex::new(Total { called: vec![false; prog.funcs.len()], ..Default::default() }));
    let npaths = Arc::new(AtomicU64::new(0));
    let deadline = t0 + Duration::from_secs_f64(job.secs);
    let mut hs = vec![];
    for tid in 0..threads {
        let (q, stop, timed_out, total, kinds, npaths) = (q.clone(), stop.clone(), timed_out.clone(), total.clone(), kinds.clone(), npaths.clone());
        let params = job.params.clone();
        hs.push(std::thread::Builder::new().stack_size(512 << 20).spawn(move || {
            let mut ex = Exec::new(prog, kinds, params, solver_ms, budget);
            ex.check_models = check;
            if profile { ex.profile = Some(Default::default()); }
            let mut failure: Option<Failure> = None;
            let mut known: BTreeMap<String, (u64, String)> = BTreeMap::new();
            let mut unsup: BTreeMap<String, u64> = BTreeMap::new();
            let mut samples: Vec<(Vec<u64>, Vec<u64>)> = vec![];
            let (mut done, mut next_sample) = (0u64, 1u64);
            let (mx, cv) = &*q;
            'outer: loop {
                let item = {
                    let mut g = mx.lock().unwrap();
                    loop {
                        if stop.load(Relaxed) { break 'outer; }
                        if Instant::now() > deadline { timed_out.store(true, Relaxed); stop.store(true, Relaxed); cv.notify_all(); break 'outer; }
                        if !g.items.is_empty() {
                            let n = g.items.len();
                            // half of the workers dig, the others spread
                            let i = if tid % 2 == 0 || n < 2 { n - 1 } else { g.rng ^= g.rng << 13; g.rng ^= g.rng >> 7; g.rng ^= g.rng << 17; (g.rng % n as u64) as usize };
                            g.busy += 1;
                            break g.items.swap_remove(i);
                        }
                        if g.busy == 0 { cv.notify_all(); break 'outer; }
                        g = cv.wait_timeout(g, Duration::from_millis(200)).unwrap().0;
                    }
                };
                let nf = ex.fails.len();
                ex.new_items.clear();
                let s = ex.run(entry, item);
                npaths.fetch_add(1, Relaxed);
                if let Stop::Unsup(m) = &s {
                    let bt = ex.backtrace();
                    let fr = bt.iter().take(4).map(|x| demangle(x)).collect::<Vec<_>>().join(" < ");
                    *unsup.entry(format!("{m} [{fr}]")).or_default() += 1;
                }
                if matches!(s, Stop::Done) && ex.fails.len() == nf {
                    done += 1;
                    if done == next_sample {
                        // paths number 1, 2, 4, .. and so on, per worker
                        next_sample *= 2;
                        samples.push((ex.model[..(ex.nvars as usize).min(ex.model.len())].to_vec(), ex.obs.clone()));
                    }
                }
                if ex.fails.len() > nf {
                    let trace: Vec<String> = ex.backtrace().iter().map(|x| demangle(x)).collect();
                    for (m, model, nv, kn) in ex.fails.drain(nf..).collect::<Vec<_>>() {
                        match kn {
                            Some(kn) => { let e = known.entry(kn).or_insert((0, m)); e.0 += 1; }
                            None => if failure.is_none() {
                                let vars = (0..nv as usize).map(|i| (ex.var_names[i].clone(), model.get(i).copied().unwrap_or(0))).collect();
                                failure = Some(Failure { msg: m, vars, trace: trace.clone() });
                            }
                        }
                    }
                    if failure.is_some() { stop.store(true, Relaxed); }
                }
                let mut g = mx.lock().unwrap();
                g.busy -= 1;
                g.items.append(&mut ex.new_items);
                cv.notify_all();
            }
            let mut t = total.lock().unwrap();
            add_cnt(&mut t.cnt, &ex.cnt);
            let (a, b) = (&mut t.solver, &ex.solver.stats);
            a.queries += b.queries; a.cache_hits += b.cache_hits; a.sat += b.sat; a.unsat += b.unsat; a.unknown += b.unknown; a.nanos += b.nanos; a.trivial += b.trivial;
            for (k, v) in &ex.reached { *t.reached.entry(k.clone()).or_default() += v; }
            for (i, &c) in ex.called.iter().enumerate() { if c { t.called[i] = true; } }
            if let Some(f) = failure { if t.fail.is_none() { t.fail = Some(f); } }
            for (k, (n, m)) in known { let e = t.known.entry(k).or_insert((0, m)); e.0 += n; }
            for (k, n) in unsup { *t.unsup.entry(k).or_default() += n; }
            t.samples.append(&mut samples);
            if let Some(p) = &ex.profile { for (k, v) in p { *t.profile.entry(*k).or_default() += v; } }
        }).unwrap());
    }
    let verbose = std::env::var_os("SYMIR_PROGRESS").is_some();
    let mut last = Instant::now();
    let mut panicked = false;
    for h in hs {
        while verbose && !h.is_finished() {
            std::thread::sleep(Duration::from_millis(100));
            if last.elapsed().as_secs() >= 5 { last = Instant::now(); let g = q.0.lock().unwrap(); eprintln!("  [{}] {:.0}s paths={} queue={}", job.name, t0.elapsed().as_secs_f64(), npaths.load(Relaxed), g.items.len()); }
        }
        if h.join().is_err() { panicked = true; stop.store(true, Relaxed); }
    }
    let mut t = std::mem::take(&mut *total.lock().unwrap_or_else(|e| e.into_inner()));
    if panicked { *t.unsup.entry("engine thread panicked".into()).or_default() += 1; }
    t.dropped = q.0.lock().unwrap_or_else(|e| e.into_inner()).items.len() as u64;
    let complete = !timed_out.load(Relaxed) && t.fail.is_none() && t.cnt.unknowns == 0 && t.unsup.is_empty();
    (t, complete, t0.elapsed().as_secs_f64())
}

fn main() {
    let mut args = std::env::args().skip(1);
    let mode = args.next().unwrap_or_default();
    let (mut bc, mut out, mut own) = (String::new(), String::new(), vec![]);
    let mut jobs = vec![];
    let mut threads = 8usize;
    let mut budget = 20_000_000u64;
    let mut solver_ms = 20_000u32;
    let mut total = f64::INFINITY;
    let (mut entry, mut params, mut model) = (String::new(), vec![], vec![]);
    let nums = |s: &str| s.split(',').filter(|x| !x.is_empty()).map(|x| x.parse::<u64>().expect("number")).collect::<Vec<_>>();
    while let Some(a) = args.next() {
        let v = args.next().expect("value");
        match a.as_str() {
            "--bc" => bc = v, "--out" => out = v, "--threads" => threads = v.parse().unwrap(), "--budget" => budget = v.parse().unwrap(), "--solver-ms" => solver_ms = v.parse().unwrap(),
            "--own" => own = v.split(',').map(String::from).collect(),
            "--total" => total = v.parse().unwrap(),
            "--job" => {
                let p: Vec<&str> = v.split(':').collect();
                jobs.push(Job { name: p[0].into(), entry: p[1].into(), params: nums(p[2]), secs: p[3].parse().unwrap() });
            }
            "--entry" => entry = v, "--params" => params = nums(&v), "--model" => model = nums(&v),
            _ => { eprintln!("unknown option {a}"); std::process::exit(2) }
        }
    }
    let t0 = Instant::now();
    let prog: &'static ir::Program = match llvm::load(&bc) { Ok(p) => Box::leak(Box::new(p)), Err(e) => { eprintln!("cannot read {bc}: {e}"); std::process::exit(2) } };
    let load_s = t0.elapsed().as_secs_f64();
    let kinds = Arc::new(classify(prog));
    let check = std::env::var_os("SYMIR_CHECK").is_some();
    let profile = std::env::var_os("SYMIR_PROFILE").is_some();
    if mode == "eval" {
        let h = std::thread::Builder::new().stack_size(512 << 20).spawn(move || {
            let mut ex = Exec::new(prog, kinds, params, solver_ms, budget);
            ex.check_models = check;
            let e = *prog.by_name.get(&entry).expect("entry");
            // a concrete run: nothing is negated
            let s = ex.run(e, Item { model, depth: u32::MAX, excl: vec![] });
            for n in &ex.notes { println!("note {n}"); }
            for (i, n) in ex.var_names.iter().enumerate() { println!("var {n} {}", ex.model[i]); }
            println!("obs {}", ex.obs.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(" "));
            println!("stop {s:?}");
            if !matches!(s, Stop::Done) { for b in ex.backtrace() { println!("  at {}", demangle(&b)); } }
            println!("instrs {}", ex.cnt.instrs);
        }).unwrap();
        h.join().unwrap();
        return;
    }
    let mut js = vec![];
    let njobs = jobs.len();
    let started = Instant::now();
    for (n, j) in jobs.iter_mut().enumerate() {
        // what is left of the total time is shared by the jobs left
        let left = (total - started.elapsed().as_secs_f64()).max(1.0);
        let share = (2.0 / (njobs - n) as f64).min(1.0);
        j.secs = j.secs.min(left * share);
        let j = &*j;
        let (t, complete, wall) = run_job(prog, &kinds, j, threads, solver_ms, budget, check, profile);
        let c = &t.cnt;
        let mut fns: Vec<String> = t.called.iter().enumerate().filter(|&(i, &c)| c && own.iter().any(|o| prog.funcs[i].name.contains(o.as_str()))).map(|(i, _)| demangle(&prog.funcs[i].name)).collect();
        fns.sort(); fns.dedup();
        let ncalled = t.called.iter().filter(|&&c| c).count();
        eprintln!("{}: {} paths={} (dead {}) instrs={} queries={} (hits {}) sat/unsat/unk={}/{}/{} solver={:.1}s asserts={} wall={:.1}s left={}{}", j.name,
            if t.fail.is_some() { "VIOLATED" } else if complete { "complete" } else { "INCOMPLETE" }, c.paths, c.dead, c.instrs, t.solver.queries, t.solver.cache_hits, t.solver.sat, t.solver.unsat, t.solver.unknown, t.solver.nanos as f64 / 1e9, c.asserts, wall, t.dropped,
            if t.unsup.is_empty() { String::new() } else { format!(" unsupported={:?}", t.unsup) });
        if let Some(f) = &t.fail { eprintln!("  {} | {}", f.msg, f.trace.iter().take(6).cloned().collect::<Vec<_>>().join(" < ")); eprintln!("  {}", f.vars.iter().map(|(n, v)| format!("{n}={v}")).collect::<Vec<_>>().join(" ")); }
        if profile {
            let mut v: Vec<_> = t.profile.iter().collect();
            v.sort_by_key(|x| std::cmp::Reverse(*x.1));
            for ((f, pc), n) in v.into_iter().take(40) { eprintln!("  {n:8} {}@{pc}", demangle(&prog.funcs[*f as usize].name)); }
        }
        let fail = match &t.fail {
            None => "null".into(),
            Some(f) => format!("{{\"msg\":{},\"vars\":{},\"trace\":{}}}", jstr(&f.msg), jlist(f.vars.iter().map(|(n, v)| format!("[{},{}]", jstr(n), v))), jlist(f.trace.iter().take(12).map(|x| jstr(x)))),
        };
        js.push(format!("{{\"name\":{},\"entry\":{},\"params\":{},\"complete\":{},\"paths\":{},\"dead_paths\":{},\"restarts\":{},\"instructions\":{},\"events\":{},\"asserts\":{},\"asserts_symbolic\":{},\"assumes\":{},\"max_path_condition\":{},\"max_path_instructions\":{},\"queries\":{},\"cache_hits\":{},\"sat\":{},\"unsat\":{},\"unknown\":{},\"solver_s\":{:.3},\"wall_s\":{:.3},\"paths_left\":{},\"functions_executed\":{},\"own_functions\":{},\"reached\":{{{}}},\"known\":{{{}}},\"unsupported\":{{{}}},\"samples\":{},\"fail\":{}}}",
            jstr(&j.name), jstr(&j.entry), jlist(j.params.iter().map(|x| x.to_string())), complete, c.paths, c.dead, c.restarts, c.instrs, c.events, c.asserts, c.asserts_sym, c.assumes, c.max_pc, c.max_path_instrs,
            t.solver.queries, t.solver.cache_hits, t.solver.sat, t.solver.unsat, t.solver.unknown, t.solver.nanos as f64 / 1e9, wall, t.dropped, ncalled, jlist(fns.iter().map(|x| jstr(x))),
            t.reached.iter().map(|(k, v)| format!("{}:{}", jstr(k), v)).collect::<Vec<_>>().join(","),
            t.known.iter().map(|(k, (n, m))| format!("{}:[{},{}]", jstr(k), n, jstr(m))).collect::<Vec<_>>().join(","),
            t.unsup.iter().map(|(k, v)| format!("{}:{}", jstr(k), v)).collect::<Vec<_>>().join(","),
            jlist(t.samples.iter().rev().take(24).map(|(v, o)| format!("{{\"vals\":{},\"obs\":{}}}", jlist(v.iter().map(|x| x.to_string())), jlist(o.iter().map(|x| x.to_string()))))), fail));
        if t.fail.is_some() { break; }
    }
    if !out.is_empty() {
        let s = format!("{{\"z3\":{},\"load_s\":{load_s:.3},\"jobs\":{}}}\n", jstr(&solver::z3_version()), jlist(js));
        std::fs::write(&out, s).expect("write output");
    }
}
