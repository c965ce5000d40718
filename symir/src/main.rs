mod exec;
mod expr;
mod ir;
mod mem;
mod solver;
mod val;
use exec::*;
use std::collections::{BTreeMap, HashMap};
use std::fmt::Write as _;
use std::sync::atomic::{AtomicI64, AtomicU64, Ordering};
use std::time::Instant;

extern "C" {
    fn fork() -> i32;
    fn waitpid(pid: i32, st: *mut i32, opt: i32) -> i32;
    fn mmap(a: *mut u8, n: usize, prot: i32, flags: i32, fd: i32, off: i64) -> *mut u8;
    fn _exit(c: i32) -> !;
    fn prctl(op: i32, a: u64, b: u64, c: u64, d: u64) -> i32;
}

#[repr(C)]
struct Shared { active: AtomicI64, stop: AtomicU64, viols: AtomicU64, paths: AtomicU64, samples: AtomicU64 }

struct Opts { ir: String, entry: String, jobs: i64, out: String, time: f64, max_steps: u64, audit: bool, verbose: bool, nsamples: u64, dump: u32, max_viol: u64, only: Vec<u32>, tier: u64 }

fn hex(b: &[u8]) -> String { let mut s = String::new(); for x in b { let _ = write!(s, "{:02x}", x); } s }
fn esc(s: &str) -> String { s.replace('\\', "\\\\").replace('"', "\\\"").replace('\n', "\\n") }

fn main() {
    // run on a large stack: expression recursion can be deep
    let h = std::thread::Builder::new().stack_size(1 << 30).spawn(real_main).unwrap();
    let _ = h.join();
}

fn real_main() {
    let a: Vec<String> = std::env::args().collect();
    let mut o = Opts { ir: a[1].clone(), entry: a[2].clone(), jobs: 8, out: String::from("/tmp/symir-out"), time: 600.0, max_steps: 400_000_000, audit: false, verbose: false, nsamples: 16, dump: 0, max_viol: 4, only: vec![], tier: 0 };
    let mut i = 3;
    while i < a.len() {
        match a[i].as_str() {
            "--jobs" => { o.jobs = a[i + 1].parse().unwrap(); i += 1; }
            "--out" => { o.out = a[i + 1].clone(); i += 1; }
            "--time" => { o.time = a[i + 1].parse().unwrap(); i += 1; }
            "--max-steps" => { o.max_steps = a[i + 1].parse().unwrap(); i += 1; }
            "--samples" => { o.nsamples = a[i + 1].parse().unwrap(); i += 1; }
            "--dump" => { o.dump = a[i + 1].parse().unwrap(); i += 1; }
            "--max-viol" => { o.max_viol = a[i + 1].parse().unwrap(); i += 1; }
            "--only" => { o.only = a[i + 1].split(',').map(|x| x.parse().unwrap()).collect(); i += 1; }
            "--tier" => { o.tier = a[i + 1].parse().unwrap(); i += 1; }
            "--audit" => o.audit = true,
            "-v" => o.verbose = true,
            x => { eprintln!("unknown option {}", x); std::process::exit(2); }
        }
        i += 1;
    }
    let t0 = Instant::now();
    std::fs::create_dir_all(&o.out).unwrap();
    let text = std::fs::read(&o.ir).unwrap();
    let text = unsafe { String::from_utf8_unchecked(text) };
    let text: &'static str = Box::leak(text.into_boxed_str());
    let m = ir::Parser::parse(text);
    if o.verbose { eprintln!("parsed {} functions, {} globals in {:.2}s", m.funcs.len(), m.globals.len(), t0.elapsed().as_secs_f64()); }
    let tparse = t0.elapsed().as_secs_f64();
    let mut x = Exec::new(m);
    x.max_steps = o.max_steps; x.audit = o.audit; x.tier = o.tier;
    if o.dump > 0 { let d = format!("{}/smt", o.out); let _ = std::fs::create_dir_all(&d); x.s.dump = Some((d, 1, o.dump)); }
    let init = x.init_state(&o.entry);
    let sh: &Shared = unsafe { &*(mmap(std::ptr::null_mut(), 4096, 3, 0x21, -1, 0) as *const Shared) };
    sh.active.store(1, Ordering::SeqCst);
    x.work.push(init);

    let mut children: Vec<i32> = vec![];
    let root = std::process::id();
    let mut out = String::new();
    let mut ends: BTreeMap<String, u64> = BTreeMap::new();
    let mut reach: BTreeMap<u32, u64> = BTreeMap::new();
    let mut known: BTreeMap<u32, u64> = BTreeMap::new();
    let mut paths = 0u64; let mut confirmed = 0u64; let mut maxsteps = 0u64; let mut maxvars = 0u32; let mut maxcons = 0usize;
    let mut local_samples = 0u64;
    let mut incomplete = false;
    'outer: while let Some(mut st) = x.work.pop() {
        loop {
            // share work with idle slots
            if !x.work.is_empty() && sh.active.load(Ordering::Relaxed) < o.jobs && sh.stop.load(Ordering::Relaxed) == 0 {
                let n = sh.active.fetch_add(1, Ordering::SeqCst);
                if n >= o.jobs { sh.active.fetch_sub(1, Ordering::SeqCst); }
                else {
                    let pid = unsafe { fork() };
                    if pid == 0 {
                        unsafe { prctl(1, 9, 0, 0, 0); } // die with the parent
                        // child: take the older half
                        let k = (x.work.len() + 1) / 2;
                        x.work.truncate(k);
                        children.clear(); out.clear(); ends.clear(); reach.clear(); known.clear(); paths = 0; confirmed = 0; maxsteps = 0; maxvars = 0; maxcons = 0; local_samples = 0;
                        x.st = Stats { insts: 0, forks: 0, dom_infeasible: 0, z3_infeasible: 0, unknown: 0, checks_folded: 0, checks_z3: 0, assumes: 0, audited: 0 };
                        x.s.queries = 0; x.s.time = 0.0; x.s.max_time = 0.0; x.s.cache_hits = 0; x.s.enumerated = 0; x.s.unsat = 0; x.fork_sites.clear();
                        st = x.work.pop().unwrap();
                        continue;
                    } else if pid > 0 {
                        children.push(pid);
                        let k = (x.work.len() + 1) / 2;
                        x.work.drain(..k);
                    } else { sh.active.fetch_sub(1, Ordering::SeqCst); }
                }
            }
            if sh.stop.load(Ordering::Relaxed) != 0 { break 'outer; }
            if t0.elapsed().as_secs_f64() > o.time { incomplete = true; sh.stop.store(2, Ordering::SeqCst); break 'outer; }
            let mut budget = 200_000u64;
            let end = match x.run(&mut st, &mut budget) { None => continue, Some(e) => e };
            if !o.only.is_empty() && st.choices.len() >= o.only.len() && st.choices[..o.only.len()] != o.only[..] { break; }
            paths += 1; maxsteps = maxsteps.max(st.steps); maxvars = maxvars.max(st.nvars); maxcons = maxcons.max(st.cons.len());
            for r in &st.reach { *reach.entry(*r).or_default() += 1; }
            for r in &st.known { *known.entry(*r).or_default() += 1; }
            let (name, bad) = match &end { End::Done => ("done".to_string(), 0), End::Assume => ("assume".to_string(), 0), End::Panic(_) => ("panic".into(), 1), End::Fail(_) => ("fail".into(), 1), End::Mem(_) => ("mem".into(), 1), End::Engine(e) => (format!("engine: {}", e), 2), End::Limit => ("limit".into(), 2) };
            *ends.entry(name.clone()).or_default() += 1;
            let sample_slot = bad == 0 && matches!(end, End::Done) && (local_samples < 2 || (paths.is_power_of_two() && paths > 2)) && sh.samples.load(Ordering::Relaxed) < o.nsamples;
            let model = x.solve_path(&st);
            if model.is_some() { confirmed += 1; } else if !matches!(end, End::Assume) && bad != 2 { *ends.entry("engine: path condition not confirmed satisfiable".into()).or_default() += 1; }
            let known_slot = bad == 0 && st.known.iter().any(|k| known.get(k).copied().unwrap_or(0) <= 2);
            if bad != 0 || sample_slot || known_slot {
                if let Some(mdl) = model {
                    let obs: Vec<String> = st.obs.iter().map(|e| format!("\"{:x}\"", x.c.eval(*e, &mdl))).collect();
                    let rs: Vec<String> = st.reach.iter().map(|r| r.to_string()).collect();
                    let (kind, code, msg) = match &end { End::Done => ("ok", 0, String::new()), End::Fail(c) => ("fail", *c, String::new()), End::Panic(p) => ("panic", 0, p.clone()), End::Mem(p) => ("mem", 0, p.clone()), End::Engine(p) => ("engine", 0, p.clone()), End::Limit => ("limit", 0, String::new()), End::Assume => ("assume", 0, String::new()) };
                    let bt: Vec<String> = if bad != 0 { x.backtrace(&st).iter().take(25).map(|s| format!("\"{}\"", esc(s))).collect() } else { vec![] };
                    let _ = write!(out, "{}{{\"kind\":\"{}\",\"code\":{},\"msg\":\"{}\",\"bytes\":\"{}\",\"obs\":[{}],\"reach\":[{}],\"known\":{:?},\"steps\":{},\"bt\":[{}]}}", if out.is_empty() { "" } else { ",\n" }, kind, code, esc(&msg), hex(&mdl[..st.nvars as usize]), obs.join(","), rs.join(","), st.known, st.steps, bt.join(","));
                    if sample_slot { local_samples += 1; sh.samples.fetch_add(1, Ordering::SeqCst); }
                } else if bad == 2 || bad == 1 {
                    let bt: Vec<String> = x.backtrace(&st).iter().take(25).map(|s| format!("\"{}\"", esc(s))).collect();
                    let _ = write!(out, "{}{{\"kind\":\"engine\",\"code\":0,\"msg\":\"no model: {}\",\"bytes\":\"\",\"obs\":[],\"reach\":[],\"steps\":{},\"bt\":[{}]}}", if out.is_empty() { "" } else { ",\n" }, esc(&format!("{:?}", end)), st.steps, bt.join(","));
                }
            }
            if bad == 1 { let v = sh.viols.fetch_add(1, Ordering::SeqCst) + 1; if v >= o.max_viol { sh.stop.store(1, Ordering::SeqCst); } }
            if bad == 2 { let v = sh.viols.fetch_add(1, Ordering::SeqCst) + 1; if v >= o.max_viol { sh.stop.store(3, Ordering::SeqCst); } }
            sh.paths.fetch_add(1, Ordering::Relaxed);
            break;
        }
    }
    if !x.work.is_empty() { incomplete = true; }
    // write this process's part
    let funcs: Vec<String> = x.covered.iter().enumerate().filter(|(_, c)| **c).map(|(i, _)| i.to_string()).collect();
    let mut sites: Vec<((u32, u32, u32), u64)> = x.fork_sites.iter().map(|(k, v)| (*k, *v)).collect(); sites.sort_by_key(|s| std::cmp::Reverse(s.1));
    let sites: Vec<String> = sites.iter().take(40).map(|((f, b, i), n)| format!("[{},{},{},{}]", f, b, i, n)).collect();
    let endj: Vec<String> = ends.iter().map(|(k, v)| format!("\"{}\":{}", esc(k), v)).collect();
    let rj: Vec<String> = reach.iter().map(|(k, v)| format!("\"{}\":{}", k, v)).collect();
    let kj: Vec<String> = known.iter().map(|(k, v)| format!("\"{}\":{}", k, v)).collect();
    let body = format!("{{\"paths\":{},\"confirmed\":{},\"incomplete\":{},\"insts\":{},\"forks\":{},\"dom_infeasible\":{},\"z3_infeasible\":{},\"unknown\":{},\"checks_folded\":{},\"checks_z3\":{},\"assumes\":{},\"audited\":{},\"queries\":{},\"unsat\":{},\"enumerated\":{},\"solver_time\":{:.4},\"max_query\":{:.4},\"cache_hits\":{},\"maxsteps\":{},\"maxvars\":{},\"maxcons\":{},\"nodes\":{},\"ends\":{{{}}},\"reach\":{{{}}},\"known\":{{{}}},\"funcs\":[{}],\"sites\":[{}],\"cases\":[{}]}}\n",
        paths, confirmed, incomplete, x.st.insts, x.st.forks, x.st.dom_infeasible, x.st.z3_infeasible, x.st.unknown, x.st.checks_folded, x.st.checks_z3, x.st.assumes, x.st.audited, x.s.queries, x.s.unsat, x.s.enumerated, x.s.time, x.s.max_time, x.s.cache_hits, maxsteps, maxvars, maxcons, x.c.nodes.len(), endj.join(","), rj.join(","), kj.join(","), funcs.join(","), sites.join(","), out);
    let me = std::process::id();
    std::fs::write(format!("{}/part.{}.json", o.out, me), body).unwrap();
    sh.active.fetch_sub(1, Ordering::SeqCst);
    let mut bad_child = false;
    for c in children { let mut s = 0i32; unsafe { waitpid(c, &mut s, 0); } if s != 0 { bad_child = true; } }
    if bad_child { let _ = std::fs::write(format!("{}/crash.{}", o.out, me), "child failed\n"); }
    if me == root {
        let mut names = String::from("[");
        for (i, f) in x.m.funcs.iter().enumerate() { if i > 0 { names.push(','); } let _ = write!(names, "\"{}\"", esc(&f.name)); }
        names.push(']');
        std::fs::write(format!("{}/names.json", o.out), names).unwrap();
        std::fs::write(format!("{}/done.json", o.out), format!("{{\"wall\":{:.3},\"parse\":{:.3},\"stop\":{},\"z3\":\"{}\"}}\n", t0.elapsed().as_secs_f64(), tparse, sh.stop.load(Ordering::SeqCst), solver::z3_version())).unwrap();
        if o.verbose { eprintln!("paths {} wall {:.2}s stop {}", sh.paths.load(Ordering::SeqCst), t0.elapsed().as_secs_f64(), sh.stop.load(Ordering::SeqCst)); }
    }
    let _ = HashMap::<u8, u8>::new();
    unsafe { _exit(if bad_child { 1 } else { 0 }) }
}
