//! Z3 (QF_BV) back end: queries are rendered as SMT-LIB2 and evaluated by libz3 in-process.
use crate::expr::*;
use crate::ir::BinOp;
use std::collections::{HashMap, HashSet};
use std::ffi::{c_char, c_void, CStr, CString};
use std::fmt::Write;

#[link(name = "z3")]
extern "C" {
    fn Z3_mk_config() -> *mut c_void;
    fn Z3_mk_context(c: *mut c_void) -> *mut c_void;
    fn Z3_eval_smtlib2_string(c: *mut c_void, s: *const c_char) -> *const c_char;
    fn Z3_set_error_handler(c: *mut c_void, h: Option<extern "C" fn(*mut c_void, u32)>);
    fn Z3_del_context(c: *mut c_void);
    fn Z3_get_full_version() -> *const c_char;
}
extern "C" fn eh(_c: *mut c_void, _e: u32) {}
pub fn z3_version() -> String { unsafe { CStr::from_ptr(Z3_get_full_version()).to_string_lossy().into_owned() } }

#[derive(Clone, Debug)]
pub enum Sat { Sat(Vec<(u32, u8)>), Unsat, Unknown(String) }

pub type Dom = [u64; 4];
pub const FULL: Dom = [u64::MAX; 4];

pub struct Solver {
    ctx: *mut c_void,
    n: u32,
    pub queries: u64,
    pub time: f64,
    pub max_time: f64,
    pub cache: HashMap<Vec<u64>, Sat>,
    pub cache_hits: u64,
    pub dump: Option<(String, u32, u32)>,
    pub unsat: u64,
    pub rlimit: u64,
    /// a cross-check: an undecided query is no loss
    pub cross: bool,
    fresh: bool,
    /// queries decided by evaluating them on every assignment: those over at most 1024 assignments (a sample of them is
    /// decided by z3 too) and those over at most 65536 that z3 gave up on
    pub enumerated: u64,
}

fn lower(c: &Ctx, e: E, out: &mut String, done: &mut HashSet<E>, vars: &mut Vec<u32>, dom: &dyn Fn(u32) -> Dom) {
    let mut stack = vec![(e, false)];
    while let Some((e, ready)) = stack.pop() {
        if done.contains(&e) { continue; }
        if matches!(c.k(e), K::Const(_)) { continue; }
        if let K::Var(i) = c.k(e) { done.insert(e); vars.push(*i); continue; }
        if !ready {
            stack.push((e, true));
            match c.k(e) {
                K::Tab(_, b) => stack.push((*b, false)),
                K::Bin(_, a, b) | K::Eq(a, b) | K::Ult(a, b) | K::Slt(a, b) => { stack.push((*a, false)); stack.push((*b, false)); }
                K::Ite(a, b, d) => { stack.push((*a, false)); stack.push((*b, false)); stack.push((*d, false)); }
                K::Cat(p) => for x in p.iter() { stack.push((*x, false)); },
                K::Ext(a, _) | K::SExt(a) => stack.push((*a, false)),
                _ => {}
            }
            continue;
        }
        done.insert(e);
        let w = c.w(e);
        let sort = if w == 1 { "Bool".to_string() } else { format!("(_ BitVec {})", w) };
        let body = body(c, e, dom);
        let _ = write!(out, "(define-fun n{} () {} {})\n", e, sort, body);
    }
}
fn r(c: &Ctx, e: E) -> String {
    match c.k(e) { K::Const(k) => { let w = c.w(e); if w == 1 { if *k == 1 { "true".into() } else { "false".into() } } else { format!("(_ bv{} {})", k, w) } } K::Var(i) => format!("v{}", i), _ => format!("n{}", e) }
}
fn rb(c: &Ctx, e: E) -> String { if c.w(e) == 1 { format!("(ite {} #b1 #b0)", r(c, e)) } else { r(c, e) } }
fn body(c: &Ctx, e: E, dom: &dyn Fn(u32) -> Dom) -> String {
    let w = c.w(e);
    match c.k(e) {
        K::Tab(t, b) => {
            let tt = &c.tabs[*t as usize]; let bw = c.w(*b); let x = rb(c, *b);
            // entries outside the byte's domain (which is asserted) are irrelevant
            let live: Vec<usize> = match c.k(*b) { K::Var(i) => { let d = dom(*i); (0..tt.len()).filter(|i| d[i / 64] >> (i % 64) & 1 == 1).collect() } _ => (0..tt.len()).collect() };
            let live = if live.is_empty() { vec![0] } else { live };
            if w == 1 {
                let mut s = String::from("(or false"); let mut i = 0; let n = live.len();
                while i < n { if tt[live[i]] == 1 { let st = live[i]; while i < n && tt[live[i]] == 1 { i += 1; } let en = live[i - 1]; if en == st { let _ = write!(s, " (= {} (_ bv{} {}))", x, st, bw); } else { let _ = write!(s, " (and (bvule (_ bv{} {}) {}) (bvule {} (_ bv{} {})))", st, bw, x, x, en, bw); } } else { i += 1; } }
                s.push(')'); return s;
            }
            // segments: constant or affine with slope 1, as (first index, last index + 1, affine)
            let mask = crate::ir::mask128(w) as u64;
            let n = live.len(); let mut segs: Vec<(usize, usize, bool)> = vec![]; let mut i = 0;
            let off = |k: usize| tt[live[k]].wrapping_sub(live[k] as u64) & mask;
            while i < n {
                let mut j = i + 1;
                if j < n && tt[live[j]] == tt[live[i]] { while j < n && tt[live[j]] == tt[live[i]] { j += 1; } segs.push((live[i], live[j - 1] + 1, false)); }
                else { while j < n && off(j) == off(i) { j += 1; } segs.push((live[i], live[j - 1] + 1, j - i > 1)); }
                i = j;
            }
            let xw = if w > bw { format!("((_ zero_extend {}) {})", w - bw, x) } else if w < bw { format!("((_ extract {} 0) {})", w - 1, x) } else { x.clone() };
            let mut s = String::new(); let mut close = 0;
            for (k, (a, b2, aff)) in segs.iter().enumerate() {
                let val = if *aff { let d = tt[*a].wrapping_sub(*a as u64) & mask; format!("(bvadd {} (_ bv{} {}))", xw, d, w) } else { format!("(_ bv{} {})", tt[*a], w) };
                if k + 1 == segs.len() { s.push_str(&val); } else { let _ = write!(s, "(ite (bvule {} (_ bv{} {})) {} ", x, b2 - 1, bw, val); close += 1; }
            }
            for _ in 0..close { s.push(')'); }
            s
        }
        K::Bin(op, a, b) => {
            if w == 1 { let o = match op { BinOp::And => "and", BinOp::Or => "or", BinOp::Xor => "xor", _ => panic!("bool op {:?}", op) }; return format!("({} {} {})", o, r(c, *a), r(c, *b)); }
            let o = match op { BinOp::Add => "bvadd", BinOp::Sub => "bvsub", BinOp::Mul => "bvmul", BinOp::UDiv => "bvudiv", BinOp::SDiv => "bvsdiv", BinOp::URem => "bvurem", BinOp::SRem => "bvsrem", BinOp::And => "bvand", BinOp::Or => "bvor", BinOp::Xor => "bvxor", BinOp::Shl => "bvshl", BinOp::LShr => "bvlshr", BinOp::AShr => "bvashr" };
            format!("({} {} {})", o, r(c, *a), r(c, *b))
        }
        K::Eq(a, b) => format!("(= {} {})", r(c, *a), r(c, *b)),
        K::Ult(a, b) => format!("(bvult {} {})", rb(c, *a), rb(c, *b)),
        K::Slt(a, b) => format!("(bvslt {} {})", rb(c, *a), rb(c, *b)),
        K::Ite(x, a, b) => format!("(ite {} {} {})", r(c, *x), r(c, *a), r(c, *b)),
        K::Cat(p) => { let mut s = String::from("(concat"); for x in p.iter().rev() { s.push(' '); s.push_str(&rb(c, *x)); } s.push(')'); s }
        K::Ext(a, lo) => { let x = format!("((_ extract {} {}) {})", lo + w - 1, lo, r(c, *a)); if w == 1 { format!("(= {} #b1)", x) } else { x } }
        K::SExt(a) => format!("((_ sign_extend {}) {})", w - c.w(*a), rb(c, *a)),
        K::Const(_) | K::Var(_) => unreachable!(),
    }
}

/// decides a conjunction over few assignments by evaluating it on every one of them
fn enumerate(c: &Ctx, cons: &[E], vars: &[u32], dom: &dyn Fn(u32) -> Dom) -> Sat {
    let doms: Vec<Vec<u8>> = vars.iter().map(|v| { let d = dom(*v); (0..256usize).filter(|i| d[i / 64] >> (i % 64) & 1 == 1).map(|i| i as u8).collect() }).collect();
    if doms.iter().any(|d| d.is_empty()) { return Sat::Unsat; }
    let top = vars.iter().copied().max().map_or(0, |v| v as usize + 1);
    let mut model = vec![0u8; top];
    let mut ix = vec![0usize; vars.len()];
    let mut order: Vec<E> = vec![]; let mut seen = HashSet::new(); let mut st: Vec<(E, bool)> = cons.iter().map(|e| (*e, false)).collect();
    while let Some((e, r)) = st.pop() {
        if r { order.push(e); continue; }
        if !seen.insert(e) { continue; }
        st.push((e, true));
        match c.k(e) { K::Tab(_, b) => st.push((*b, false)), K::Bin(_, a, b) | K::Eq(a, b) | K::Ult(a, b) | K::Slt(a, b) => { st.push((*a, false)); st.push((*b, false)); } K::Ite(a, b, d) => { st.push((*a, false)); st.push((*b, false)); st.push((*d, false)); } K::Cat(p) => for x in p.iter() { st.push((*x, false)); }, K::Ext(a, _) | K::SExt(a) => st.push((*a, false)), _ => {} }
    }
    let mut val = vec![0u128; order.iter().copied().max().unwrap_or(0) as usize + 1];
    // terms of the slowest-changing variable alone are computed once for each of its values
    let (slow, fast): (Vec<E>, Vec<E>) = order.iter().copied().partition(|e| { let v = c.vars_of(*e); v.is_empty() || vars.len() > 1 && v.len() == 1 && v[0] == vars[0] });
    let mut last = usize::MAX;
    loop {
        for (k, v) in vars.iter().enumerate() { model[*v as usize] = doms[k][ix[k]]; }
        let now = ix.first().copied().unwrap_or(0);
        if now != last { last = now; for e in &slow { val[*e as usize] = c.eval_node(*e, &model, &val); } }
        for e in &fast { val[*e as usize] = c.eval_node(*e, &model, &val); }
        if cons.iter().all(|e| val[*e as usize] == 1) { return Sat::Sat(vars.iter().map(|v| (*v, model[*v as usize])).collect()); }
        let mut k = vars.len();
        loop { if k == 0 { return Sat::Unsat; } k -= 1; ix[k] += 1; if ix[k] < doms[k].len() { break; } ix[k] = 0; }
    }
}

impl Solver {
    pub fn new() -> Solver { Solver { ctx: std::ptr::null_mut(), n: 0, queries: 0, time: 0.0, max_time: 0.0, cache: HashMap::new(), cache_hits: 0, dump: None, unsat: 0, rlimit: 400_000_000, cross: false, fresh: false, enumerated: 0 } }
    fn eval(&mut self, s: &str) -> String {
        unsafe {
            if self.fresh { if !self.ctx.is_null() { Z3_del_context(self.ctx); } self.ctx = std::ptr::null_mut(); self.fresh = false; }
            if self.ctx.is_null() { let c = Z3_mk_config(); self.ctx = Z3_mk_context(c); Z3_set_error_handler(self.ctx, Some(eh)); let o = CString::new("(set-option :rlimit 400000000)").unwrap(); Z3_eval_smtlib2_string(self.ctx, o.as_ptr()); }
            let q = CString::new(s).unwrap();
            CStr::from_ptr(Z3_eval_smtlib2_string(self.ctx, q.as_ptr())).to_string_lossy().into_owned()
        }
    }
    pub fn render(c: &Ctx, cons: &[E], dom: &dyn Fn(u32) -> Dom) -> (String, Vec<u32>) {
        let mut defs = String::new(); let mut done = HashSet::new(); let mut vars = vec![];
        for &e in cons { lower(c, e, &mut defs, &mut done, &mut vars, dom); }
        vars.sort_unstable();
        let mut s = String::new();
        for v in &vars {
            let _ = write!(s, "(declare-const v{} (_ BitVec 8))\n", v);
            let d = dom(*v);
            if d != FULL {
                let _ = write!(s, "(assert (or false");
                let mut i = 0usize; let has = |i: usize| d[i / 64] >> (i % 64) & 1 == 1;
                while i < 256 { if has(i) { let st = i; while i < 256 && has(i) { i += 1; } if i - 1 == st { let _ = write!(s, " (= v{} (_ bv{} 8))", v, st); } else { let _ = write!(s, " (and (bvule (_ bv{} 8) v{}) (bvule v{} (_ bv{} 8)))", st, v, v, i - 1); } } else { i += 1; } }
                s.push_str("))\n");
            }
        }
        s.push_str(&defs);
        for &e in cons { let _ = write!(s, "(assert {})\n", r(c, e)); }
        (s, vars)
    }
    /// satisfiability of the conjunction of `cons` and the variable domains
    pub fn check(&mut self, c: &Ctx, cons: &[E], dom: &dyn Fn(u32) -> Dom) -> Sat {
        let (text, vars) = Self::render(c, cons, dom);
        let mut key: Vec<u64> = cons.iter().map(|x| *x as u64).collect(); key.sort_unstable(); key.dedup();
        for v in &vars { key.extend_from_slice(&dom(*v)); }
        if let Some(r) = self.cache.get(&key) { self.cache_hits += 1; return r.clone(); }
        // cross-checks only: hash computations over a symbolic byte render to megabytes that z3's front end does not get through
        if self.cross && text.len() > 100_000 { return Sat::Unknown(String::from("too large")); }
        let t0 = std::time::Instant::now();
        self.n += 1;
        if self.n % 20 == 0 { self.fresh = true; }
        if let Ok(f) = std::env::var("SYMIR_LAST") { let _ = std::fs::write(format!("{}.{}", f, std::process::id()), &text); }
        let size = vars.iter().fold(1u64, |a, v| a.saturating_mul(dom(*v).iter().map(|x| x.count_ones() as u64).sum()));
        let small = !self.cross && size <= 65536;
        if !self.cross && size <= 1024 {
            let r = enumerate(c, cons, &vars, dom); self.enumerated += 1;
            if self.enumerated > 20 && self.enumerated % 32 != 0 { self.cache.insert(key, r.clone()); return r; }
        }
        // effort is bounded by z3's resource counter: its timeouts need a thread, which a forked worker does not have
        let lim = if small { 3_000_000 } else { self.rlimit };
        let ans = self.eval(&format!("(reset)(set-option :rlimit {})(set-logic QF_BV)\n{}(check-sat)\n", lim, text));
        let ans = ans.trim().to_string();
        let res = match ans.as_str() {
            "unsat" => Sat::Unsat,
            "sat" => {
                if vars.is_empty() { Sat::Sat(vec![]) } else {
                    let q: Vec<String> = vars.iter().map(|v| format!("v{}", v)).collect();
                    let m = self.eval(&format!("(get-value ({}))", q.join(" ")));
                    let mut out = vec![]; let toks: Vec<&str> = m.split(|ch: char| ch == '(' || ch == ')' || ch.is_whitespace()).filter(|x| !x.is_empty()).collect();
                    let mut i = 0; while i + 1 < toks.len() { let v: u32 = toks[i][1..].parse().unwrap(); let b = if let Some(h) = toks[i + 1].strip_prefix("#x") { u8::from_str_radix(h, 16).unwrap() } else { panic!("model value {}", toks[i + 1]) }; out.push((v, b)); i += 2; }
                    assert_eq!(out.len(), vars.len(), "model: {}", m);
                    Sat::Sat(out)
                }
            }
            _ if small => { self.enumerated += 1; enumerate(c, cons, &vars, dom) }
            x => Sat::Unknown(x.to_string()),
        };
        if small && size <= 1024 { match (&res, enumerate(c, cons, &vars, dom)) { (Sat::Sat(_), Sat::Unsat) | (Sat::Unsat, Sat::Sat(_)) => return Sat::Unknown("z3 and enumeration disagree".into()), _ => {} } }
        let dt = t0.elapsed().as_secs_f64();
        self.queries += 1; self.time += dt; if dt > self.max_time { self.max_time = dt; }
        if matches!(res, Sat::Unsat) { self.unsat += 1; }
        if let Some((dir, every, left)) = &mut self.dump {
            if self.queries % *every as u64 == 1 % *every as u64 && *left > 0 {
                *left -= 1;
                let f = format!("{}/q{}_{}.smt2", dir, std::process::id(), self.queries);
                let _ = std::fs::write(f, format!("; expected: {}\n(set-logic QF_BV)\n{}(check-sat)\n", ans, text));
            }
        }
        if !matches!(res, Sat::Unknown(_)) { self.cache.insert(key, res.clone()); }
        res
    }
}
