//! Symbolic interpreter over the parsed IR.
use crate::expr::*;
use crate::ir::*;
use crate::mem::*;
use crate::solver::*;
use crate::val::Val;
use std::collections::{BTreeMap, HashMap, HashSet};
use std::rc::Rc;

#[derive(Clone)]
pub struct Frame { pub func: u32, pub block: u32, pub ip: u32, pub regs: Vec<Val>, pub allocas: Vec<u32> }

#[derive(Clone)]
pub struct State {
    pub cur: Frame,
    pub stack: Vec<Rc<Frame>>,
    pub mem: Mem,
    pub dom: Rc<Vec<Dom>>,
    pub fixed: Rc<HashSet<u32>>,
    pub cons: Vec<E>,
    pub ent: Rc<HashSet<u32>>,
    pub model: Vec<u8>,
    pub nvars: u32,
    pub reach: Vec<u32>,
    pub obs: Vec<E>, // 64-bit expressions observed
    pub steps: u64,
    pub forks: u32,
    pub known: Vec<u32>,
    pub choices: Vec<u32>,
}

#[derive(Clone, Debug)]
pub enum End { Done, Assume, Panic(String), Fail(u32), Mem(String), Engine(String), Limit }

#[derive(Clone, Copy, PartialEq, Debug)]
enum H { Def, Panic, Ext(&'static str), Unknown }

pub struct Stats { pub insts: u64, pub forks: u64, pub dom_infeasible: u64, pub z3_infeasible: u64, pub unknown: u64, pub checks_folded: u64, pub checks_z3: u64, pub assumes: u64, pub audited: u64 }

pub struct Exec {
    pub m: &'static Module,
    pub c: Ctx,
    pub s: Solver,
    pub work: Vec<State>,
    pub st: Stats,
    h: Vec<H>,
    pub covered: Vec<bool>,
    pub errno_obj: u32,
    pub max_steps: u64,
    pub audit: bool,
    pub audit_n: u64,
    pub tier: u64,
    pub fork_sites: HashMap<(u32, u32, u32), u64>,
    pub trace_fn: bool,
    pub base_obj: u32,
    heap_base: u32,
    nfuncs: u32,
}

const EXTS: &[&str] = &["malloc", "calloc", "realloc", "free", "posix_memalign", "aligned_alloc", "bcmp", "memcmp", "strlen", "memchr", "write", "writev", "getenv", "abort", "getrandom", "syscall", "__errno_location", "__cxa_thread_atexit_impl", "pthread_key_create", "pthread_key_delete", "pthread_setspecific", "pthread_getspecific", "clock_gettime", "getauxval", "sysconf", "pthread_mutex_lock", "pthread_mutex_unlock", "pthread_mutex_init", "pthread_mutex_destroy", "pthread_self", "gettid",
    "sym_bytes", "sym_assume", "sym_check", "sym_fail", "sym_reach", "sym_obs", "sym_choice", "sym_is_conc", "sym_known", "sym_fix", "sym_dbg", "sym_native", "sym_tier"];

fn classify(name: &str, defined: bool) -> H {
    if name.contains("4core9panicking") || name.ends_with("6option13unwrap_failed") || name.ends_with("6result13unwrap_failed") || name.ends_with("6option13expect_failed") || name.contains("16slice_error_fail") || name.ends_with("16slice_index_fail") || name.ends_with("18handle_alloc_error") || name.ends_with("17capacity_overflow") || name.ends_with("7raw_vec12handle_error") || name.contains("rust_begin_unwind") || name.contains("22panic_already_borrowed") || name.contains("26panic_already_mutably_borrowed") || name.contains("3std9panicking11begin_panic") || name.contains("20rust_panic_with_hook") || name.contains("4core4cell30panic_already_mutably_borrowed") || name.contains("copy_from_slice17len_mismatch_fail") || name.ends_with("len_mismatch_fail") { return H::Panic; }
    if name.contains("7___rustc") {
        if name.ends_with("___rust_alloc") || name.ends_with("__rdl_alloc") { return H::Ext("rust_alloc"); }
        if name.ends_with("___rust_alloc_zeroed") || name.ends_with("__rdl_alloc_zeroed") { return H::Ext("rust_alloc_zeroed"); }
        if name.ends_with("___rust_dealloc") || name.ends_with("__rdl_dealloc") { return H::Ext("free"); }
        if name.ends_with("___rust_realloc") || name.ends_with("__rdl_realloc") { return H::Ext("rust_realloc"); }
        if name.ends_with("no_alloc_shim_is_unstable_v2") { return H::Ext("nop"); }
        if name.ends_with("rust_begin_unwind") || name.ends_with("___rust_start_panic") || name.ends_with("10rust_panic") { return H::Panic; }
    }
    for e in EXTS { if *e == name { return H::Ext(e); } }
    if defined { return H::Def; }
    if name.starts_with("llvm.") {
        for p in ["llvm.lifetime", "llvm.dbg", "llvm.assume", "llvm.experimental.noalias", "llvm.invariant", "llvm.prefetch", "llvm.x86.sse2.pause", "llvm.x86.sse2.lfence", "llvm.x86.sse2.mfence", "llvm.donothing", "llvm.stackrestore", "llvm.va_"] { if name.starts_with(p) { return H::Ext("nop"); } }
        let b: &'static str = Box::leak(name.to_string().into_boxed_str());
        return H::Ext(b);
    }
    H::Unknown
}

type R<T> = Result<T, End>;

impl Exec {
    pub fn new(m: Module) -> Exec {
        let m: &'static Module = Box::leak(Box::new(m));
        let h = m.funcs.iter().map(|f| classify(&f.name, f.defined)).collect();
        let n = m.funcs.len() as u32;
        let hb = m.funcobj_base + n + 64;
        Exec { c: Ctx::new(), s: Solver::new(), work: vec![], st: Stats { insts: 0, forks: 0, dom_infeasible: 0, z3_infeasible: 0, unknown: 0, checks_folded: 0, checks_z3: 0, assumes: 0, audited: 0 }, h, covered: vec![false; n as usize], errno_obj: 0, max_steps: 400_000_000, audit: false, audit_n: 0, tier: 0, fork_sites: HashMap::new(), trace_fn: false, base_obj: hb, heap_base: hb, nfuncs: n, m }
    }
    pub fn init_state(&mut self, entry: &str) -> State {
        let f = *self.m.fidx.get(entry).unwrap_or_else(|| panic!("no entry {}", entry));
        let mut mem = Mem::new(self.heap_base);
        for g in &self.m.globals {
            let data = g.init.clone().unwrap_or_else(|| vec![0u8; (g.size as usize).max(8)]);
            mem.put(g.obj, Obj { data, sym: vec![], ro: g.constant, stack: false });
        }
        self.errno_obj = mem.alloc(8, 0, false);
        let fun = &self.m.funcs[f as usize];
        let cur = Frame { func: f, block: fun.edges[fun.entry_edge as usize].block, ip: 0, regs: vec![Val::C(0); fun.nregs as usize], allocas: vec![] };
        self.covered[f as usize] = true;
        State { cur, stack: vec![], mem, dom: Rc::new(vec![]), fixed: Rc::new(HashSet::new()), cons: vec![], ent: Rc::new(HashSet::new()), model: vec![], nvars: 0, reach: vec![], obs: vec![], steps: 0, forks: 0, known: vec![], choices: vec![] }
    }
    pub fn backtrace(&self, st: &State) -> Vec<String> {
        let mut v = vec![self.m.funcs[st.cur.func as usize].name.clone()];
        for f in st.stack.iter().rev() { v.push(self.m.funcs[f.func as usize].name.clone()); }
        v
    }
    // ---------- solver-facing ----------
    fn dom_of(st: &State, v: u32) -> Dom { st.dom.get(v as usize).copied().unwrap_or(FULL) }
    fn related(&self, st: &State, seed: &[E]) -> Vec<E> {
        let mut vars: HashSet<u32> = HashSet::new();
        for e in seed { for v in self.c.vsets[self.c.vs(*e) as usize].iter() { vars.insert(*v); } }
        let mut out: Vec<E> = seed.to_vec();
        let mut left: Vec<E> = st.cons.clone();
        loop {
            let before = left.len();
            let mut rest = vec![];
            for e in left { let vs = &self.c.vsets[self.c.vs(e) as usize]; if vs.iter().any(|v| vars.contains(v)) { for v in vs.iter() { vars.insert(*v); } out.push(e); } else { rest.push(e); } }
            left = rest;
            if left.len() == before { break; }
        }
        out
    }
    pub fn query(&mut self, st: &State, extra: E) -> Sat {
        let cons = self.related(st, &[extra]);
        let d = st.dom.clone();
        let f = move |v: u32| d.get(v as usize).copied().unwrap_or(FULL);
        self.s.check(&self.c, &cons, &f)
    }
    /// full path condition (used at path ends); returns model bytes
    pub fn solve_path(&mut self, st: &State) -> Option<Vec<u8>> {
        let cons = st.cons.clone();
        let d = st.dom.clone();
        let f = move |v: u32| d.get(v as usize).copied().unwrap_or(FULL);
        let mut model = st.model.clone();
        if !cons.is_empty() {
            match self.s.check(&self.c, &cons, &f) { Sat::Sat(m) => { for (v, b) in m { model[v as usize] = b; } } Sat::Unsat => return None, Sat::Unknown(_) => {} } // the witness the path was followed with decides below
        }
        for v in 0..st.nvars as usize { let d = Self::dom_of(st, v as u32); if d[model[v] as usize / 64] >> (model[v] % 64) & 1 == 0 { return None; } }
        for e in &cons { if self.c.eval(*e, &model) != 1 { return None; } }
        Some(model)
    }
    fn subst_fixed(&mut self, st: &State, e: E) -> E {
        if st.fixed.is_empty() { return e; }
        let vs = self.c.vars_of(e);
        if !vs.iter().any(|v| st.fixed.contains(v)) { return e; }
        if vs.iter().all(|v| st.fixed.contains(v)) { let v = self.c.eval(e, &st.model); let w = self.c.w(e); return self.c.konst(v, w); }
        let mut memo = HashMap::new();
        self.subst(st, e, &mut memo)
    }
    fn subst(&mut self, st: &State, e: E, memo: &mut HashMap<E, E>) -> E {
        if let Some(r) = memo.get(&e) { return *r; }
        let vs = self.c.vars_of(e);
        if !vs.iter().any(|v| st.fixed.contains(v)) { return e; }
        let w = self.c.w(e);
        let r = if vs.iter().all(|v| st.fixed.contains(v)) { let v = self.c.eval(e, &st.model); self.c.konst(v, w) } else {
            match self.c.k(e).clone() {
                K::Tab(t, b) => { let x = self.subst(st, b, memo); if x == b { e } else { self.c.apply_tab(t, x, w) } }
                K::Bin(op, a, b) => { let x = self.subst(st, a, memo); let y = self.subst(st, b, memo); self.c.bin(op, w, x, y) }
                K::Eq(a, b) => { let x = self.subst(st, a, memo); let y = self.subst(st, b, memo); self.c.eq(x, y) }
                K::Ult(a, b) => { let x = self.subst(st, a, memo); let y = self.subst(st, b, memo); self.c.ult(x, y) }
                K::Slt(a, b) => { let x = self.subst(st, a, memo); let y = self.subst(st, b, memo); self.c.slt(x, y) }
                K::Ite(a, b, d) => { let x = self.subst(st, a, memo); let y = self.subst(st, b, memo); let z = self.subst(st, d, memo); self.c.ite(x, y, z) }
                K::Cat(p) => { let q: Vec<E> = p.iter().map(|x| self.subst(st, *x, memo)).collect(); self.c.cat(&q) }
                K::Ext(a, lo) => { let x = self.subst(st, a, memo); self.c.ext(x, lo, w) }
                K::SExt(a) => { let x = self.subst(st, a, memo); self.c.sext(x, w) }
                _ => e,
            }
        };
        memo.insert(e, r); r
    }
    /// simplify under the byte domains: lookup tables constant over the domain of their variable become constants
    fn dsubst(&mut self, st: &State, e: E, memo: &mut HashMap<E, E>) -> E {
        if let Some(r) = memo.get(&e) { return *r; }
        let w = self.c.w(e);
        let r = match self.c.k(e).clone() {
            K::Const(_) | K::Var(_) => e,
            K::Tab(t, b) => {
                if let K::Var(v) = self.c.k(b) {
                    let d = Self::dom_of(st, *v); let tt = &self.c.tabs[t as usize];
                    let mut val = None; let mut same = true;
                    for i in 0..256usize { if d[i / 64] >> (i % 64) & 1 == 1 { match val { None => val = Some(tt[i]), Some(x) => if x != tt[i] { same = false; break; } } } }
                    if same && val.is_some() { self.c.konst(val.unwrap() as u128, w) } else { e }
                } else { let x = self.dsubst(st, b, memo); if x == b { e } else { self.c.apply_tab(t, x, w) } }
            }
            K::Bin(op, a, b) => { let x = self.dsubst(st, a, memo); let y = self.dsubst(st, b, memo); if x == a && y == b { e } else { self.c.bin(op, w, x, y) } }
            K::Eq(a, b) => { let x = self.dsubst(st, a, memo); let y = self.dsubst(st, b, memo); if x == a && y == b { e } else { self.c.eq(x, y) } }
            K::Ult(a, b) => { let x = self.dsubst(st, a, memo); let y = self.dsubst(st, b, memo); if x == a && y == b { e } else { self.c.ult(x, y) } }
            K::Slt(a, b) => { let x = self.dsubst(st, a, memo); let y = self.dsubst(st, b, memo); if x == a && y == b { e } else { self.c.slt(x, y) } }
            K::Ite(a, b, d) => { let x = self.dsubst(st, a, memo); match self.c.as_const(x) { Some(1) => self.dsubst(st, b, memo), Some(_) => self.dsubst(st, d, memo), None => { let y = self.dsubst(st, b, memo); let z = self.dsubst(st, d, memo); if x == a && y == b && z == d { e } else { self.c.ite(x, y, z) } } } }
            K::Cat(p) => { let q: Vec<E> = p.iter().map(|x| self.dsubst(st, *x, memo)).collect(); if q[..] == p[..] { e } else { self.c.cat(&q) } }
            K::Ext(a, lo) => { let x = self.dsubst(st, a, memo); if x == a { e } else { self.c.ext(x, lo, w) } }
            K::SExt(a) => { let x = self.dsubst(st, a, memo); if x == a { e } else { self.c.sext(x, w) } }
        };
        memo.insert(e, r); r
    }
    /// add a constraint known to be satisfiable together with the state; st.model must satisfy it
    fn assert_c(&mut self, st: &mut State, e: E) {
        let e = self.subst_fixed(st, e);
        if let Some(v) = self.c.as_const(e) { assert_eq!(v, 1, "asserting false"); return; }
        if let K::Bin(BinOp::And, a, b) = self.c.k(e).clone() { self.assert_c(st, a); self.assert_c(st, b); return; }
        if let Some(n) = self.c.is_not(e) { if let K::Bin(BinOp::Or, a, b) = self.c.k(n).clone() { let x = self.c.not(a); let y = self.c.not(b); self.assert_c(st, x); self.assert_c(st, y); return; } }
        if let Some((v, tt)) = self.c.single_truth(e) {
            let d = &mut Rc::make_mut(&mut st.dom)[v as usize];
            let mut n = 0; for i in 0..4 { d[i] &= tt[i]; n += d[i].count_ones(); }
            assert!(n > 0, "empty domain");
            if n == 1 { Rc::make_mut(&mut st.fixed).insert(v); }
            return;
        }
        if st.cons.contains(&e) { return; }
        let vs = self.c.vars_of(e);
        let ent = Rc::make_mut(&mut st.ent);
        for v in vs.iter() { ent.insert(*v); }
        st.cons.push(e);
    }
    /// a verdict of the byte-domain procedure is decided again by z3: the first ones of every worker process all, later ones one in 32;
    /// for conditions over several bytes z3 gets a bounded effort
    fn audit_infeasible(&mut self, st: &State, e: E, multi: bool) -> R<()> {
        if !self.audit { return Ok(()); }
        self.audit_n += 1;
        if self.audit_n > 400 && self.audit_n % 32 != 0 { return Ok(()); }
        let full = self.s.rlimit;
        self.s.rlimit = 3_000_000; self.s.cross = true;
        let r = self.query(st, e);
        self.s.rlimit = full; self.s.cross = false;
        match r { Sat::Unsat => { self.st.audited += 1; Ok(()) } Sat::Unknown(_) => Ok(()), x => Err(End::Engine(format!("audit: byte-domain verdict not confirmed by z3: {:?}", x))) }
    }
    /// Decide a 1-bit condition on this path; when both outcomes are feasible the state is forked
    /// (the copy re-executes the current instruction with the opposite constraint).
    pub fn decide(&mut self, st: &mut State, c0: E) -> R<bool> {
        let c = self.subst_fixed(st, c0);
        if let Some(v) = self.c.as_const(c) { return Ok(v == 1); }
        let n = self.c.not(c);
        if st.cons.contains(&c) { return Ok(true); }
        if st.cons.contains(&n) { return Ok(false); }
        let (mut c, mut n) = (c, n);
        if self.c.vsets[self.c.vs(c) as usize].len() > 1 {
            let c2 = self.dsubst(st, c, &mut HashMap::new());
            if let Some(v) = self.c.as_const(c2) {
                self.st.dom_infeasible += 1;
                let o = if v == 1 { n } else { c }; self.audit_infeasible(st, o, true)?;
                return Ok(v == 1);
            }
            if c2 != c { c = c2; n = self.c.not(c); if st.cons.contains(&c) { return Ok(true); } if st.cons.contains(&n) { return Ok(false); } }
        }
        let cur = self.c.eval(c, &st.model) == 1;
        let other = if cur { n } else { c };
        // is the other side feasible?
        let mut newmodel: Option<Vec<(u32, u8)>> = None;
        let mut feas;
        if let Some((v, tt)) = self.c.single_truth(other) {
            let d = st.dom[v as usize];
            let t = [d[0] & tt[0], d[1] & tt[1], d[2] & tt[2], d[3] & tt[3]];
            if t == [0; 4] {
                feas = false; self.st.dom_infeasible += 1;
                self.audit_infeasible(st, other, false)?;
            }
            else if !st.ent.contains(&v) {
                feas = true;
                let i = (0..256usize).find(|i| t[i / 64] >> (i % 64) & 1 == 1).unwrap();
                newmodel = Some(vec![(v, i as u8)]);
            } else { feas = true; match self.query(st, other) { Sat::Sat(m) => newmodel = Some(m), Sat::Unsat => { feas = false; self.st.z3_infeasible += 1; } Sat::Unknown(_) => { feas = false; self.st.unknown += 1; } } }
        } else {
            feas = true;
            match self.query(st, other) { Sat::Sat(m) => newmodel = Some(m), Sat::Unsat => { feas = false; self.st.z3_infeasible += 1; } Sat::Unknown(_) => { feas = false; self.st.unknown += 1; } }
        }
        if !feas { return Ok(cur); }
        self.st.forks += 1;
        *self.fork_sites.entry((st.cur.func, st.cur.block, st.cur.ip)).or_default() += 1;
        let mut o = st.clone();
        for (v, b) in newmodel.unwrap() { o.model[v as usize] = b; }
        o.forks += 1; st.forks += 1;
        self.assert_c(&mut o, other);
        self.work.push(o);
        let mine = if cur { c } else { n };
        self.assert_c(st, mine);
        Ok(cur)
    }
    /// force an expression to a concrete value (forking over all feasible values)
    pub fn concretize(&mut self, st: &mut State, e: E) -> R<u128> {
        let mut e = self.subst_fixed(st, e);
        loop {
            if let Some(v) = self.c.as_const(e) { return Ok(v); }
            if let K::Ite(c, a, b) = self.c.k(e).clone() { if self.c.w(e) > 1 { e = if self.decide(st, c)? { a } else { b }; e = self.subst_fixed(st, e); continue; } }
            let v = self.c.eval(e, &st.model); let w = self.c.w(e);
            let k = self.c.konst(v, w); let q = self.c.eq(e, k);
            if self.decide(st, q)? { return Ok(v); }
            unreachable!("concretize: model value rejected");
        }
    }
    pub fn new_input(&mut self, st: &mut State) -> E {
        while self.c.vars.len() <= st.nvars as usize { self.c.new_var(); }
        let e = self.c.vars[st.nvars as usize]; st.nvars += 1;
        Rc::make_mut(&mut st.dom).push(FULL); st.model.push(0);
        e
    }
    // ---------- values ----------
    #[inline] fn op<'a>(&self, st: &'a State, o: &'a Op) -> &'a Val { match o { Op::Reg(r) => &st.cur.regs[*r as usize], Op::C(v) => v } }
    fn e(&mut self, v: &Val, w: u32) -> E { match v { Val::C(x) => self.c.konst(*x as u128, w), Val::W(x) => self.c.konst(**x, w), Val::E(e) => { debug_assert_eq!(self.c.w(*e), w); *e } Val::A(_) => panic!("aggregate as scalar") } }
    fn v(&self, e: E) -> Val { match self.c.as_const(e) { Some(c) => Val::from128(c), None => Val::E(e) } }
    fn conc(&mut self, st: &mut State, v: &Val) -> R<u64> { match v { Val::C(x) => Ok(*x), Val::W(x) => Ok(**x as u64), Val::E(e) => Ok(self.concretize(st, *e)? as u64), _ => Err(End::Engine("aggregate as scalar".into())) } }
    fn conc128(&mut self, st: &mut State, v: &Val) -> R<u128> { match v { Val::C(x) => Ok(*x as u128), Val::W(x) => Ok(**x), Val::E(e) => self.concretize(st, *e), _ => Err(End::Engine("aggregate as scalar".into())) } }

    pub fn bin(&mut self, op: BinOp, w: u32, a: &Val, b: &Val) -> Val {
        if let (Val::C(x), Val::C(y)) = (a, b) { if w <= 64 {
            let m = if w == 64 { u64::MAX } else { (1u64 << w) - 1 };
            let (x, y) = (*x, *y);
            let r = match op { BinOp::Add => x.wrapping_add(y) & m, BinOp::Sub => x.wrapping_sub(y) & m, BinOp::Mul => x.wrapping_mul(y) & m, BinOp::And => x & y, BinOp::Or => x | y, BinOp::Xor => x ^ y, BinOp::Shl => if y >= w as u64 { 0 } else { (x << y) & m }, BinOp::LShr => if y >= w as u64 { 0 } else { x >> y }, _ => bin_c(op, w, x as u128, y as u128) as u64 };
            return Val::C(r);
        } }
        if a.is_conc() && b.is_conc() { return Val::from128(bin_c(op, w, a.c128(), b.c128())); }
        let x = self.e(a, w); let y = self.e(b, w);
        let r = self.c.bin(op, w, x, y); self.v(r)
    }
    fn icmp(&mut self, p: Pred, w: u32, a: &Val, b: &Val) -> Val {
        if a.is_conc() && b.is_conc() {
            let (x, y) = (a.c128(), b.c128());
            let r = match p { Pred::Eq => x == y, Pred::Ne => x != y, Pred::Ugt => x > y, Pred::Uge => x >= y, Pred::Ult => x < y, Pred::Ule => x <= y, _ => { let (x, y) = (sext128(x, w), sext128(y, w)); match p { Pred::Sgt => x > y, Pred::Sge => x >= y, Pred::Slt => x < y, _ => x <= y } } };
            return Val::C(r as u64);
        }
        let x = self.e(a, w); let y = self.e(b, w);
        let r = match p { Pred::Eq => self.c.eq(x, y), Pred::Ne => { let q = self.c.eq(x, y); self.c.not(q) } Pred::Ugt => self.c.ult(y, x), Pred::Uge => self.c.ule(y, x), Pred::Ult => self.c.ult(x, y), Pred::Ule => self.c.ule(x, y), Pred::Sgt => self.c.slt(y, x), Pred::Sge => self.c.sle(y, x), Pred::Slt => self.c.slt(x, y), Pred::Sle => self.c.sle(x, y) };
        self.v(r)
    }
    fn select_v(&mut self, c: E, a: &Val, b: &Val, ty: TyId) -> Val {
        if let (Val::A(x), Val::A(y)) = (a, b) {
            let n = x.len();
            let sub: Vec<TyId> = match self.m.ty(ty) { Ty::Struct(fs, _) => fs.clone(), Ty::Array(_, e) | Ty::Vector(_, e) => vec![*e; n], _ => panic!() };
            let r: Vec<Val> = (0..n).map(|i| self.select_v(c, &x[i], &y[i], sub[i])).collect();
            return Val::A(Rc::from(r));
        }
        let w = self.m.int_width(ty);
        let x = self.e(a, w); let y = self.e(b, w); let r = self.c.ite(c, x, y); self.v(r)
    }
    // ---------- memory ----------
    fn obj_chk(&self, st: &State, a: u64, n: usize, write: bool) -> R<(u32, usize)> {
        let id = (a >> OBJ_SHIFT) as u32; let off = (a & 0xffff_ffff) as usize;
        if n == 0 { return Ok((id, off)); }
        match st.mem.get(id) {
            Some(o) => { if off + n > o.data.len() { Err(End::Mem(format!("access of {} bytes at offset {} of object with {} bytes", n, off, o.data.len()))) } else if write && o.ro { Err(End::Mem("write to constant".into())) } else { Ok((id, off)) } }
            None => Err(End::Mem(format!("access to invalid or freed object {:#x}", a))),
        }
    }
    fn resolve_byte(&self, st: &State, e: E) -> Result<u8, E> {
        if st.fixed.is_empty() { return Err(e); }
        let vs = &self.c.vsets[self.c.vs(e) as usize];
        if vs.iter().all(|v| st.fixed.contains(v)) { Ok(self.c.eval(e, &st.model) as u8) } else { Err(e) }
    }
    fn read_bits(&mut self, st: &State, id: u32, off: usize, n: usize, w: u32) -> Val {
        let o = st.mem.get(id).unwrap().clone();
        if !o.has_sym(off, n) {
            if n <= 8 { let mut b = [0u8; 8]; b[..n].copy_from_slice(&o.data[off..off + n]); let x = u64::from_le_bytes(b); return Val::C(if w < 64 { x & ((1u64 << w) - 1) } else { x }); }
            let mut b = [0u8; 16]; b[..n].copy_from_slice(&o.data[off..off + n]); return Val::from128(u128::from_le_bytes(b) & mask128(w));
        }
        let mut parts = Vec::with_capacity(n);
        for i in 0..n {
            let s = o.sym[off + i];
            parts.push(if s == 0 { self.c.konst(o.data[off + i] as u128, 8) } else { match self.resolve_byte(st, s) { Ok(b) => self.c.konst(b as u128, 8), Err(e) => e } });
        }
        let mut r = self.c.cat(&parts);
        if w < n as u32 * 8 { r = self.c.ext(r, 0, w); }
        self.v(r)
    }
    fn load_at(&mut self, st: &State, ty: TyId, id: u32, off: usize) -> Val {
        match self.m.ty(ty).clone() {
            Ty::Int(w) | Ty::Float(w) => self.read_bits(st, id, off, ((w + 7) / 8) as usize, w),
            Ty::Ptr => self.read_bits(st, id, off, 8, 64),
            Ty::Vector(n, e) => {
                let w = self.m.int_width(e);
                if w % 8 == 0 { let s = (w / 8) as usize; Val::A(Rc::from((0..n as usize).map(|i| self.read_bits(st, id, off + i * s, s, w)).collect::<Vec<_>>())) }
                else { let tot = n * w; let nb = ((tot + 7) / 8) as usize; let v = self.read_bits(st, id, off, nb, tot); let x = self.e(&v, tot); Val::A(Rc::from((0..n).map(|i| { let y = self.c.ext(x, i * w, w); self.v(y) }).collect::<Vec<_>>())) }
            }
            Ty::Array(n, e) => { let s = self.m.size_align(e).0 as usize; Val::A(Rc::from((0..n as usize).map(|i| self.load_at(st, e, id, off + i * s)).collect::<Vec<_>>())) }
            Ty::Struct(fs, _) => { let v: Vec<Val> = (0..fs.len()).map(|i| { let (o, t) = self.m.field_off(ty, i as u64); self.load_at(st, t, id, off + o as usize) }).collect(); Val::A(Rc::from(v)) }
            _ => Val::C(0),
        }
    }
    fn ty_bytes(&self, ty: TyId) -> usize { match self.m.ty(ty) { Ty::Int(w) => ((w + 7) / 8) as usize, _ => self.m.size_align(ty).0 as usize } }
    pub fn load(&mut self, st: &mut State, ty: TyId, p: &Val) -> R<Val> {
        let n = self.ty_bytes(ty);
        match p {
            Val::C(a) => { let (id, off) = self.obj_chk(st, *a, n, false)?; if n == 0 { return Ok(self.m.zero(ty)); } Ok(self.load_at(st, ty, id, off)) }
            Val::E(e) => {
                let mut e = self.subst_fixed(st, *e);
                loop { if let K::Ite(c, a, b) = self.c.k(e).clone() { e = if self.decide(st, c)? { a } else { b }; e = self.subst_fixed(st, e); } else { break; } }
                if let Some(v) = self.c.as_const(e) { return self.load(st, ty, &Val::C(v as u64)); }
                let scalar = matches!(self.m.ty(ty), Ty::Int(_) | Ty::Ptr | Ty::Float(_)) && n <= 8;
                if scalar { if let Some((base, t)) = self.c.fun_of(e) {
                    let tt = self.c.tabs[t as usize].clone();
                    let feas: Vec<bool> = if let K::Var(v) = self.c.k(base) { let d = st.dom[*v as usize]; (0..tt.len()).map(|i| d[i / 64] >> (i % 64) & 1 == 1).collect() } else { vec![true; tt.len()] };
                    let valid: Vec<bool> = (0..tt.len()).map(|i| self.obj_chk(st, tt[i], n, false).is_ok()).collect();
                    if (0..tt.len()).any(|i| feas[i] && !valid[i]) {
                        let bad = self.c.tab_from((0..tt.len()).map(|i| !valid[i] as u64).collect(), base, 1);
                        if self.decide(st, bad)? { let a = self.concretize(st, e)?; return self.load(st, ty, &Val::C(a as u64)); }
                    }
                    let w = self.m.int_width(ty);
                    let mut cache: BTreeMap<u64, Val> = BTreeMap::new();
                    let mut vals: Vec<Option<Val>> = vec![None; tt.len()];
                    for i in 0..tt.len() { if feas[i] && valid[i] { let a = tt[i]; if !cache.contains_key(&a) { let v = self.load_at(st, ty, (a >> OBJ_SHIFT) as u32, (a & 0xffff_ffff) as usize); cache.insert(a, v); } vals[i] = Some(cache[&a].clone()); } }
                    if vals.iter().flatten().all(|v| v.is_conc()) {
                        let d = match vals.iter().flatten().next() { Some(v) => v.c64(), None => return Err(End::Engine("no feasible address".into())) };
                        let tv: Vec<u64> = vals.iter().map(|v| v.as_ref().map(|x| x.c64()).unwrap_or(d)).collect();
                        let r = self.c.tab_from(tv, base, w); return Ok(self.v(r));
                    }
                    // group by address
                    let addrs: Vec<u64> = cache.keys().copied().collect();
                    let mut acc = { let v = cache[&addrs[0]].clone(); self.e(&v, w) };
                    for a in &addrs[1..] {
                        let c = self.c.tab_from((0..tt.len()).map(|i| (tt[i] == *a) as u64).collect(), base, 1);
                        let v = cache[a].clone(); let x = self.e(&v, w); acc = self.c.ite(c, x, acc);
                    }
                    return Ok(self.v(acc));
                } }
                let a = self.concretize(st, e)?;
                self.load(st, ty, &Val::C(a as u64))
            }
            _ => Err(End::Engine("load ptr".into())),
        }
    }
    fn write_bits(&mut self, st: &mut State, id: u32, off: usize, v: &Val, w: u32) {
        let n = ((w + 7) / 8) as usize;
        match v {
            Val::C(x) if n <= 8 => { let b = x.to_le_bytes(); st.mem.get_mut(id).unwrap().set_conc(off, &b[..n]); }
            Val::C(_) | Val::W(_) => { let b = v.c128().to_le_bytes(); st.mem.get_mut(id).unwrap().set_conc(off, &b[..n]); }
            Val::E(e) => {
                let e = self.c.zext(*e, n as u32 * 8);
                for i in 0..n { let b = self.c.ext(e, i as u32 * 8, 8); match self.c.as_const(b) { Some(c) => st.mem.get_mut(id).unwrap().set_conc(off + i, &[c as u8]), None => st.mem.get_mut(id).unwrap().set_sym(off + i, b) } }
            }
            _ => panic!("write_bits"),
        }
    }
    fn store_at(&mut self, st: &mut State, ty: TyId, id: u32, off: usize, v: &Val) {
        match self.m.ty(ty).clone() {
            Ty::Int(w) | Ty::Float(w) => self.write_bits(st, id, off, v, w),
            Ty::Ptr => self.write_bits(st, id, off, v, 64),
            Ty::Vector(n, e) => {
                let w = self.m.int_width(e); let xs = v.agg().clone();
                if w % 8 == 0 { for i in 0..n as usize { self.write_bits(st, id, off + i * (w / 8) as usize, &xs[i], w); } }
                else { let ps: Vec<E> = xs.iter().map(|x| self.e(x, w)).collect(); let c = self.c.cat(&ps); let v = self.v(c); self.write_bits(st, id, off, &v, n * w); }
            }
            Ty::Array(n, e) => { let s = self.m.size_align(e).0 as usize; let xs = v.agg().clone(); for i in 0..n as usize { self.store_at(st, e, id, off + i * s, &xs[i]); } }
            Ty::Struct(fs, _) => { let xs = v.agg().clone(); for i in 0..fs.len() { let (o, t) = self.m.field_off(ty, i as u64); self.store_at(st, t, id, off + o as usize, &xs[i]); } }
            _ => {}
        }
    }
    fn store(&mut self, st: &mut State, ty: TyId, p: &Val, v: &Val) -> R<()> {
        let a = self.conc(st, p)?;
        let n = self.ty_bytes(ty);
        let (id, off) = self.obj_chk(st, a, n, true)?;
        if n == 0 { return Ok(()); }
        self.store_at(st, ty, id, off, v);
        Ok(())
    }
    fn memcpy(&mut self, st: &mut State, d: &Val, s: &Val, n: &Val) -> R<()> {
        let n = self.conc(st, n)? as usize; if n == 0 { return Ok(()); }
        let d = self.conc(st, d)?; let s = self.conc(st, s)?;
        let (di, doff) = self.obj_chk(st, d, n, true)?; let (si, soff) = self.obj_chk(st, s, n, false)?;
        let src = st.mem.get(si).unwrap().clone();
        let dst = st.mem.get_mut(di).unwrap();
        dst.data[doff..doff + n].copy_from_slice(&src.data[soff..soff + n]);
        if !src.sym.is_empty() { if dst.sym.is_empty() { if src.has_sym(soff, n) { dst.sym = vec![0; dst.data.len()]; dst.sym[doff..doff + n].copy_from_slice(&src.sym[soff..soff + n]); } } else { dst.sym[doff..doff + n].copy_from_slice(&src.sym[soff..soff + n]); } }
        else if !dst.sym.is_empty() { for x in &mut dst.sym[doff..doff + n] { *x = 0; } }
        Ok(())
    }
    pub fn bytes_e(&mut self, st: &State, a: u64, n: usize) -> R<Vec<E>> {
        if n == 0 { return Ok(vec![]); }
        let (id, off) = self.obj_chk(st, a, n, false)?;
        let o = st.mem.get(id).unwrap().clone();
        Ok((0..n).map(|i| { let s = if o.sym.is_empty() { 0 } else { o.sym[off + i] }; if s == 0 { self.c.konst(o.data[off + i] as u128, 8) } else { match self.resolve_byte(st, s) { Ok(b) => self.c.konst(b as u128, 8), Err(e) => e } } }).collect())
    }
    fn conc_bytes(&mut self, st: &mut State, a: u64, n: usize) -> R<Vec<u8>> {
        let es = self.bytes_e(st, a, n)?; let mut out = vec![];
        for e in es { out.push(self.concretize(st, e)? as u8); } Ok(out)
    }
    fn alloc(&mut self, st: &mut State, size: u64, zero: bool) -> u64 {
        if size > 1 << 28 { return 0; }
        let id = st.mem.alloc(size as usize, if zero { 0 } else { 0xA5 }, false); (id as u64) << OBJ_SHIFT
    }
    // ---------- control ----------
    #[inline] fn take_edge(&self, st: &mut State, e: u32) {
        let f = &self.m.funcs[st.cur.func as usize];
        let ed = &f.edges[e as usize];
        match ed.moves.len() {
            0 => {}
            1 => { let (d, o) = &ed.moves[0]; let v = self.op(st, o).clone(); st.cur.regs[*d as usize] = v; }
            _ => { let vs: Vec<Val> = ed.moves.iter().map(|(_, o)| self.op(st, o).clone()).collect(); for ((d, _), v) in ed.moves.iter().zip(vs) { st.cur.regs[*d as usize] = v; } }
        }
        st.cur.block = ed.block; st.cur.ip = 0;
    }
    fn finish_call(&self, st: &mut State, inst: &Inst, v: Option<Val>) {
        if let Inst::Call { dst, normal, .. } = inst {
            if let (Some(d), Some(v)) = (dst, v) { st.cur.regs[*d as usize] = v; }
            match normal { Some(e) => self.take_edge(st, *e), None => st.cur.ip += 1 }
        } else { unreachable!() }
    }
    fn enter(&mut self, st: &mut State, f: u32, args: Vec<(Val, u64)>) -> R<()> {
        if st.stack.len() > 4000 { return Err(End::Mem("stack overflow (call depth 4000)".into())); }
        self.covered[f as usize] = true;
        let fun = &self.m.funcs[f as usize];
        let mut regs = Vec::with_capacity(fun.nregs as usize);
        let mut allocas = vec![];
        for (v, bv) in args.into_iter().take(fun.nparams as usize) {
            if bv > 0 {
                let id = st.mem.alloc(bv as usize, 0, true); allocas.push(id);
                let a = (id as u64) << OBJ_SHIFT; let src = v.clone();
                let d = Val::C(a); let n = Val::C(bv);
                // copy
                let s = src.c64();
                let (si, soff) = self.obj_chk(st, s, bv as usize, false)?; let so = st.mem.get(si).unwrap().clone();
                let dst = st.mem.get_mut(id).unwrap(); dst.data.copy_from_slice(&so.data[soff..soff + bv as usize]); if !so.sym.is_empty() { dst.sym = so.sym[soff..soff + bv as usize].to_vec(); }
                let _ = (d, n);
                regs.push(Val::C(a));
            } else { regs.push(v); }
        }
        regs.resize(fun.nregs as usize, Val::C(0));
        let nf = Frame { func: f, block: fun.edges[fun.entry_edge as usize].block, ip: 0, regs, allocas };
        let old = std::mem::replace(&mut st.cur, nf);
        st.stack.push(Rc::new(old));
        Ok(())
    }
    /// run until the path ends
    pub fn run(&mut self, st: &mut State, budget: &mut u64) -> Option<End> {
        let m = self.m;
        loop {
            let f = &m.funcs[st.cur.func as usize];
            let inst = &f.blocks[st.cur.block as usize][st.cur.ip as usize];
            st.steps += 1; self.st.insts += 1;
            if st.steps > self.max_steps { return Some(End::Limit); }
            match self.step(st, inst) { Ok(None) => {} Ok(Some(e)) => return Some(e), Err(e) => return Some(e) }
            if *budget == 0 { return None; }
            *budget -= 1;
        }
    }
    #[inline] fn set(&self, st: &mut State, d: u32, v: Val) { st.cur.regs[d as usize] = v; st.cur.ip += 1; }
    fn step(&mut self, st: &mut State, inst: &Inst) -> R<Option<End>> {
        match inst {
            Inst::Bin { op, w, lanes, dst, a, b } => {
                let x = self.op(st, a).clone(); let y = self.op(st, b).clone();
                let r = if *lanes == 0 { self.bin(*op, *w, &x, &y) } else { let (x, y) = (x.agg(), y.agg()); Val::A(Rc::from((0..*lanes as usize).map(|i| self.bin(*op, *w, &x[i], &y[i])).collect::<Vec<_>>())) };
                self.set(st, *dst, r);
            }
            Inst::ICmp { pred, w, lanes, dst, a, b } => {
                let x = self.op(st, a).clone(); let y = self.op(st, b).clone();
                let r = if *lanes == 0 { self.icmp(*pred, *w, &x, &y) } else { let (x, y) = (x.agg(), y.agg()); Val::A(Rc::from((0..*lanes as usize).map(|i| self.icmp(*pred, *w, &x[i], &y[i])).collect::<Vec<_>>())) };
                self.set(st, *dst, r);
            }
            Inst::FBin { op, w, lanes, dst, a, b } => {
                if *lanes != 0 { return Err(End::Engine("vector float".into())); }
                let x = self.op(st, a).clone(); let y = self.op(st, b).clone();
                let x = self.conc(st, &x)?; let y = self.conc(st, &y)?;
                let r = if *w == 64 { let (p, q) = (f64::from_bits(x), f64::from_bits(y)); (match op { FBin::Add => p + q, FBin::Sub => p - q, FBin::Mul => p * q, FBin::Div => p / q, FBin::Rem => p % q, FBin::Neg => -p }).to_bits() }
                else if *w == 32 { let (p, q) = (f32::from_bits(x as u32), f32::from_bits(y as u32)); (match op { FBin::Add => p + q, FBin::Sub => p - q, FBin::Mul => p * q, FBin::Div => p / q, FBin::Rem => p % q, FBin::Neg => -p }).to_bits() as u64 }
                else { return Err(End::Engine("float width".into())); };
                self.set(st, *dst, Val::C(r));
            }
            Inst::FCmp { pred, w, dst, a, b } => {
                let x = self.op(st, a).clone(); let y = self.op(st, b).clone();
                let x = self.conc(st, &x)?; let y = self.conc(st, &y)?;
                let (p, q) = if *w == 64 { (f64::from_bits(x), f64::from_bits(y)) } else { (f32::from_bits(x as u32) as f64, f32::from_bits(y as u32) as f64) };
                let un = p.is_nan() || q.is_nan();
                let r = match pred.as_str() { "oeq" => p == q, "one" => !un && p != q, "ogt" => p > q, "oge" => p >= q, "olt" => p < q, "ole" => p <= q, "ord" => !un, "uno" => un, "ueq" => un || p == q, "une" => p != q, "ugt" => un || p > q, "uge" => un || p >= q, "ult" => un || p < q, "ule" => un || p <= q, "true" => true, _ => false };
                self.set(st, *dst, Val::C(r as u64));
            }
            Inst::Cast { op, from, to, dst, a } => { let x = self.op(st, a).clone(); let r = self.cast(st, *op, *from, *to, &x)?; self.set(st, *dst, r); }
            Inst::Load { ty, dst, ptr } => { let p = self.op(st, ptr).clone(); let r = self.load(st, *ty, &p)?; self.set(st, *dst, r); }
            Inst::Store { ty, val, ptr } => { let p = self.op(st, ptr).clone(); let v = self.op(st, val).clone(); self.store(st, *ty, &p, &v)?; st.cur.ip += 1; }
            Inst::Alloca { dst, size, count } => {
                let c = self.op(st, count).clone(); let c = self.conc(st, &c)?;
                let id = st.mem.alloc((*size * c) as usize, 0, true); st.cur.allocas.push(id);
                self.set(st, *dst, Val::C((id as u64) << OBJ_SHIFT));
            }
            Inst::Gep { dst, base, off, terms } => {
                let b = self.op(st, base).clone();
                let mut acc = self.bin(BinOp::Add, 64, &b, &Val::C(*off));
                for (o, w, sc) in terms {
                    let v = self.op(st, o).clone();
                    let x = match &v { Val::C(x) => Val::C(sext128(*x as u128, *w) as i64 as u64), Val::E(e) => { let e = if *w < 64 { self.c.sext(*e, 64) } else if *w > 64 { self.c.ext(*e, 0, 64) } else { *e }; self.v(e) } _ => return Err(End::Engine("gep".into())) };
                    let y = self.bin(BinOp::Mul, 64, &x, &Val::C(*sc));
                    acc = self.bin(BinOp::Add, 64, &acc, &y);
                }
                self.set(st, *dst, acc);
            }
            Inst::Select { dst, ty, cty, c, a, b } => {
                let cv = self.op(st, c).clone(); let x = self.op(st, a).clone(); let y = self.op(st, b).clone();
                let r = match (&cv, self.m.ty(*cty).clone()) {
                    (Val::A(cs), Ty::Vector(n, _)) => { let et = match self.m.ty(*ty) { Ty::Vector(_, e) => *e, _ => panic!() }; let (x, y) = (x.agg().clone(), y.agg().clone()); Val::A(Rc::from((0..n as usize).map(|i| match &cs[i] { Val::E(e) => self.select_v(*e, &x[i], &y[i], et), v => if v.c64() & 1 == 1 { x[i].clone() } else { y[i].clone() } }).collect::<Vec<_>>())) }
                    (Val::E(e), _) => { let e = self.subst_fixed(st, *e); match self.c.as_const(e) { Some(1) => x, Some(_) => y, None => if let Ty::Float(_) = self.m.ty(*ty) { if self.decide(st, e)? { x } else { y } } else { self.select_v(e, &x, &y, *ty) } } }
                    (v, _) => if v.c64() & 1 == 1 { x } else { y },
                };
                self.set(st, *dst, r);
            }
            Inst::ExtractValue { dst, a, path } => { let mut v = self.op(st, a).clone(); for i in path { let n = v.agg()[*i as usize].clone(); v = n; } self.set(st, *dst, v); }
            Inst::InsertValue { dst, ty: _, a, v, path } => {
                fn ins(x: &Val, v: Val, p: &[u32]) -> Val { if p.is_empty() { return v; } let mut xs = x.agg().to_vec(); xs[p[0] as usize] = ins(&xs[p[0] as usize], v, &p[1..]); Val::A(Rc::from(xs)) }
                let x = self.op(st, a).clone(); let y = self.op(st, v).clone(); let r = ins(&x, y, path); self.set(st, *dst, r);
            }
            Inst::ExtractElement { dst, a, idx } => { let x = self.op(st, a).clone(); let i = self.op(st, idx).clone(); let i = self.conc(st, &i)?; let r = x.agg()[i as usize].clone(); self.set(st, *dst, r); }
            Inst::InsertElement { dst, ty: _, a, v, idx } => { let x = self.op(st, a).clone(); let y = self.op(st, v).clone(); let i = self.op(st, idx).clone(); let i = self.conc(st, &i)?; let mut xs = x.agg().to_vec(); xs[i as usize] = y; self.set(st, *dst, Val::A(Rc::from(xs))); }
            Inst::Shuffle { dst, a, b, n, mask } => { let x = self.op(st, a).clone(); let y = self.op(st, b).clone(); let (x, y) = (x.agg(), y.agg()); let r: Vec<Val> = mask.iter().map(|m| { let m = (*m).max(0) as u32; if m < *n { x[m as usize].clone() } else { y[(m - n) as usize].clone() } }).collect(); self.set(st, *dst, Val::A(Rc::from(r))); }
            Inst::AtomicRmw { op, dst, w, ty, ptr, val } => {
                let p = self.op(st, ptr).clone(); let v = self.op(st, val).clone();
                let p = Val::C(self.conc(st, &p)?);
                let old = self.load(st, *ty, &p)?;
                let r = match op {
                    Rmw::Xchg => v, Rmw::Add => self.bin(BinOp::Add, *w, &old, &v), Rmw::Sub => self.bin(BinOp::Sub, *w, &old, &v), Rmw::And => self.bin(BinOp::And, *w, &old, &v), Rmw::Or => self.bin(BinOp::Or, *w, &old, &v), Rmw::Xor => self.bin(BinOp::Xor, *w, &old, &v),
                    _ => return Err(End::Engine("atomicrmw op".into())),
                };
                self.store(st, *ty, &p, &r)?; self.set(st, *dst, old);
            }
            Inst::CmpXchg { dst, ty, ptr, cmp, new } => {
                let p = self.op(st, ptr).clone(); let c = self.op(st, cmp).clone(); let nv = self.op(st, new).clone();
                let p = Val::C(self.conc(st, &p)?);
                let old = self.load(st, *ty, &p)?; let w = self.m.int_width(*ty);
                let q = self.icmp(Pred::Eq, w, &old, &c); let q = match q { Val::E(e) => self.decide(st, e)?, v => v.c64() == 1 };
                if q { self.store(st, *ty, &p, &nv)?; }
                self.set(st, *dst, Val::A(Rc::from(vec![old, Val::C(q as u64)])));
            }
            Inst::Br { e } => self.take_edge(st, *e),
            Inst::CondBr { c, t, f } => {
                let b = match self.op(st, c) { Val::C(x) => *x & 1 == 1, Val::E(e) => { let e = *e; self.decide(st, e)? } _ => return Err(End::Engine("condbr".into())) };
                self.take_edge(st, if b { *t } else { *f });
            }
            Inst::Switch { v, w, default, cases, small } => {
                let x = self.op(st, v).clone();
                let e = match &x { Val::E(e) => { let e = self.subst_fixed(st, *e); match self.c.as_const(e) { Some(c) => Err(c), None => Ok(e) } } v => Err(v.c128()) };
                let edge = match e {
                    Err(c) => match small { Some(s) => *s.get(&(c as u64)).unwrap_or(default), None => cases.iter().find(|(k, _)| *k == c).map(|x| x.1).unwrap_or(*default) },
                    Ok(e) => {
                        let mut groups: Vec<(u32, Vec<u128>)> = vec![];
                        for (k, ed) in cases { match groups.iter_mut().find(|g| g.0 == *ed) { Some(g) => g.1.push(*k), None => groups.push((*ed, vec![*k])) } }
                        let mut target = *default;
                        // follow the current model's target first
                        let mv = self.c.eval(e, &st.model);
                        if let Some(i) = groups.iter().position(|g| g.1.contains(&mv)) { groups.swap(0, i); }
                        for (ed, ks) in groups {
                            if ed == *default { continue; }
                            let cond = match self.c.fun_of(e) {
                                Some((b, t)) => { let tt = self.c.tabs[t as usize].clone(); self.c.tab_from(tt.iter().map(|x| ks.contains(&(*x as u128)) as u64).collect(), b, 1) }
                                None => { let mut acc = self.c.konst(0, 1); for k in ks { let kk = self.c.konst(k, *w); let q = self.c.eq(e, kk); acc = self.c.or(acc, q); } acc }
                            };
                            if self.decide(st, cond)? { target = ed; break; }
                        }
                        target
                    }
                };
                self.take_edge(st, edge);
            }
            Inst::Ret { v, .. } => {
                let rv = v.as_ref().map(|o| self.op(st, o).clone());
                for id in std::mem::take(&mut st.cur.allocas) { st.mem.free(id); }
                match st.stack.pop() {
                    None => return Ok(Some(End::Done)),
                    Some(fr) => {
                        st.cur = match Rc::try_unwrap(fr) { Ok(f) => f, Err(r) => (*r).clone() };
                        let m = self.m;
                        let inst = &m.funcs[st.cur.func as usize].blocks[st.cur.block as usize][st.cur.ip as usize];
                        self.finish_call(st, inst, rv);
                    }
                }
            }
            Inst::Unreachable => return Err(End::Mem("reached unreachable".into())),
            Inst::Nop => st.cur.ip += 1,
            Inst::Call { dst: _, rty, callee, args, normal: _ } => {
                let f = match callee {
                    Callee::Direct(f) => *f,
                    Callee::Indirect(o) => {
                        let v = self.op(st, o).clone(); let a = self.conc(st, &v)?;
                        let id = (a >> OBJ_SHIFT) as u32;
                        if id < self.m.funcobj_base || id >= self.m.funcobj_base + self.nfuncs { return Err(End::Mem(format!("call of non-function {:#x}", a))); }
                        id - self.m.funcobj_base
                    }
                    Callee::Asm(s) => {
                        let r = if s == "identity" && args.len() == 1 { let o = args[0].clone(); self.op(st, &o.0).clone() } else if s.is_empty() || s.contains("cpuid") || s.starts_with('#') { self.m.zero(*rty) } else { return Err(End::Engine(format!("inline asm {:?}", s))) };
                        self.finish_call(st, inst, Some(r)); return Ok(None);
                    }
                };
                match self.h[f as usize] {
                    H::Def => { let mut a: Vec<(Val, u64)> = Vec::with_capacity(args.len()); for (o, _, bv) in args { let v = self.op(st, o).clone(); let v = if *bv > 0 { Val::C(self.conc(st, &v)?) } else { v }; a.push((v, *bv)); } self.enter(st, f, a)?; }
                    H::Panic => { let name = self.m.funcs[f as usize].name.clone(); let loc = args.last().map(|(o, _, _)| self.op(st, o).clone()); let loc = loc.and_then(|l| self.location(st, &l)); return Ok(Some(End::Panic(format!("{} at {}", name, loc.unwrap_or_default())))); }
                    H::Unknown => return Err(End::Engine(format!("call of external function {}", self.m.funcs[f as usize].name))),
                    H::Ext(n) => { let a: Vec<Val> = args.iter().map(|(o, _, _)| self.op(st, o).clone()).collect(); let tys: Vec<TyId> = args.iter().map(|x| x.1).collect(); match self.ext(st, n, a, &tys, *rty)? { X::V(v) => self.finish_call(st, inst, v), X::End(e) => return Ok(Some(e)) } }
                }
            }
        }
        Ok(None)
    }
    fn location(&self, st: &State, v: &Val) -> Option<String> {
        let a = match v { Val::C(a) => *a, _ => return None };
        let rd = |a: u64, n: usize| -> Option<Vec<u8>> { let (id, off) = self.obj_chk(st, a, n, false).ok()?; let o = st.mem.get(id)?; if o.has_sym(off, n) { return None; } Some(o.data[off..off + n].to_vec()) };
        let b = rd(a, 24)?; let p = u64::from_le_bytes(b[0..8].try_into().unwrap()); let n = u64::from_le_bytes(b[8..16].try_into().unwrap()); let line = u32::from_le_bytes(b[16..20].try_into().unwrap());
        if n > 300 { return None; }
        let s = rd(p, n as usize)?;
        Some(format!("{}:{}", String::from_utf8_lossy(&s).trim_end_matches('\0'), line))
    }
    fn cast(&mut self, st: &mut State, op: CastOp, from: TyId, to: TyId, x: &Val) -> R<Val> {
        let (lf, wf) = self.m.lanes(from_scalar(&self.m, from)); let (lt, wt) = self.m.lanes(from_scalar(&self.m, to));
        if op == CastOp::Freeze { return Ok(x.clone()); }
        if op == CastOp::Bitcast {
            if lf == lt && wf == wt { return Ok(x.clone()); }
            let lanes: Vec<Val> = if lf == 0 { vec![x.clone()] } else { x.agg().to_vec() };
            let out: Vec<Val> = if wt < wf { let k = wf / wt; let mut o = vec![]; for l in &lanes { let e = self.e(l, wf); for j in 0..k { let y = self.c.ext(e, j * wt, wt); o.push(self.v(y)); } } o }
            else { let k = (wt / wf) as usize; lanes.chunks(k).map(|c| { if c.iter().all(|v| v.is_conc()) { let mut r = 0u128; for (i, v) in c.iter().enumerate() { r |= v.c128() << (i as u32 * wf); } Val::from128(r) } else { let es: Vec<E> = c.iter().map(|v| self.e(v, wf)).collect(); let y = self.c.cat(&es); self.v(y) } }).collect() };
            return Ok(if lt == 0 { out[0].clone() } else { Val::A(Rc::from(out)) });
        }
        if lf != 0 { let et = match self.m.ty(to) { Ty::Vector(_, e) => *e, _ => panic!() }; let ef = match self.m.ty(from) { Ty::Vector(_, e) => *e, _ => panic!() }; let xs = x.agg().clone(); let mut o = vec![]; for v in xs.iter() { o.push(self.cast(st, op, ef, et, v)?); } return Ok(Val::A(Rc::from(o))); }
        Ok(match op {
            CastOp::Trunc | CastOp::ZExt | CastOp::PtrToInt | CastOp::IntToPtr => {
                if x.is_conc() { Val::from128(x.c128() & mask128(wt)) } else { let e = self.e(x, wf); let r = if wt <= wf { self.c.ext(e, 0, wt) } else { self.c.zext(e, wt) }; self.v(r) }
            }
            CastOp::SExt => if x.is_conc() { Val::from128(sext128(x.c128(), wf) as u128 & mask128(wt)) } else { let e = self.e(x, wf); let r = self.c.sext(e, wt); self.v(r) },
            _ => {
                let c = self.conc128(st, x)?;
                let fl = |w: u32, c: u128| if w == 64 { f64::from_bits(c as u64) } else { f32::from_bits(c as u32) as f64 };
                let tf = |w: u32, f: f64| Val::C(if w == 64 { f.to_bits() } else { (f as f32).to_bits() as u64 });
                match op {
                    CastOp::FpToUi => Val::from128((fl(wf, c) as u128) & mask128(wt)),
                    CastOp::FpToSi => Val::from128((fl(wf, c) as i128) as u128 & mask128(wt)),
                    CastOp::UiToFp => tf(wt, c as f64),
                    CastOp::SiToFp => tf(wt, sext128(c, wf) as f64),
                    CastOp::FpExt | CastOp::FpTrunc => tf(wt, fl(wf, c)),
                    _ => unreachable!(),
                }
            }
        })
    }
}
fn from_scalar(_m: &Module, t: TyId) -> TyId { t }

pub enum X { V(Option<Val>), End(End) }

impl Exec {
    fn lanewise2(&mut self, a: &Val, b: &Val, f: &mut dyn FnMut(&mut Self, &Val, &Val) -> Val) -> Val {
        if let (Val::A(x), Val::A(y)) = (a, b) { let (x, y) = (x.clone(), y.clone()); return Val::A(Rc::from((0..x.len()).map(|i| f(self, &x[i], &y[i])).collect::<Vec<_>>())); }
        f(self, a, b)
    }
    fn lanewise1(&mut self, a: &Val, f: &mut dyn FnMut(&mut Self, &Val) -> Val) -> Val {
        if let Val::A(x) = a { let x = x.clone(); return Val::A(Rc::from((0..x.len()).map(|i| f(self, &x[i])).collect::<Vec<_>>())); }
        f(self, a)
    }
    fn ite_val(&mut self, c: &Val, a: &Val, b: &Val, w: u32) -> Val { match c { Val::E(e) => { let x = self.e(a, w); let y = self.e(b, w); let r = self.c.ite(*e, x, y); self.v(r) } v => if v.c64() & 1 == 1 { a.clone() } else { b.clone() } } }
    fn ext(&mut self, st: &mut State, n: &str, a: Vec<Val>, tys: &[TyId], rty: TyId) -> R<X> {
        if let Some(r) = n.strip_prefix("llvm.") { return self.intrinsic(st, r, a, tys, rty); }
        let ok = |v: Val| Ok(X::V(Some(v)));
        match n {
            "nop" => return ok(self.m.zero(rty)),
            "malloc" | "rust_alloc" => { let s = self.conc(st, &a[0])?; let r = self.alloc(st, s, false); return ok(Val::C(r)); }
            "rust_alloc_zeroed" => { let s = self.conc(st, &a[0])?; let r = self.alloc(st, s, true); return ok(Val::C(r)); }
            "calloc" => { let s = self.conc(st, &a[0])?; let k = self.conc(st, &a[1])?; let r = self.alloc(st, s.saturating_mul(k), true); return ok(Val::C(r)); }
            "aligned_alloc" => { let s = self.conc(st, &a[1])?; let r = self.alloc(st, s, false); return ok(Val::C(r)); }
            "posix_memalign" => { let s = self.conc(st, &a[2])?; let p = self.conc(st, &a[0])?; let r = self.alloc(st, s, false); let pt = tys[0]; self.store(st, pt, &Val::C(p), &Val::C(r))?; return ok(Val::C(0)); }
            "realloc" | "rust_realloc" => {
                let p = self.conc(st, &a[0])?; let s = self.conc(st, if n == "realloc" { &a[1] } else { &a[3] })?;
                let r = self.alloc(st, s, false); if r == 0 { return ok(Val::C(0)); }
                if p != 0 {
                    let id = (p >> OBJ_SHIFT) as u32;
                    let o = match st.mem.get(id) { Some(o) if p & 0xffff_ffff == 0 => o.clone(), _ => return Err(End::Mem("realloc of invalid pointer".into())) };
                    let k = o.data.len().min(s as usize);
                    let d = st.mem.get_mut((r >> OBJ_SHIFT) as u32).unwrap();
                    d.data[..k].copy_from_slice(&o.data[..k]); if !o.sym.is_empty() { let mut sy = vec![0; s as usize]; sy[..k].copy_from_slice(&o.sym[..k]); d.sym = sy; }
                    st.mem.free(id);
                }
                return ok(Val::C(r));
            }
            "free" => { let p = self.conc(st, &a[0])?; if p != 0 { let id = (p >> OBJ_SHIFT) as u32; if id < self.heap_base || p & 0xffff_ffff != 0 || !st.mem.free(id) { return Err(End::Mem(format!("invalid or double free {:#x}", p))); } } return Ok(X::V(None)); }
            "bcmp" | "memcmp" => {
                let k = self.conc(st, &a[2])? as usize; if k == 0 { return ok(Val::C(0)); }
                let p = self.conc(st, &a[0])?; let q = self.conc(st, &a[1])?;
                let (pi, po) = self.obj_chk(st, p, k, false)?; let (qi, qo) = self.obj_chk(st, q, k, false)?;
                let (x, y) = (st.mem.get(pi).unwrap().clone(), st.mem.get(qi).unwrap().clone());
                if !x.has_sym(po, k) && !y.has_sym(qo, k) {
                    let c = x.data[po..po + k].cmp(&y.data[qo..qo + k]);
                    return ok(Val::C(match c { std::cmp::Ordering::Less => 0xffff_ffff, std::cmp::Ordering::Equal => 0, _ => 1 }));
                }
                let xs = self.bytes_e(st, p, k)?; let ys = self.bytes_e(st, q, k)?;
                if n == "bcmp" {
                    let mut acc = self.c.konst(1, 1);
                    for i in 0..k { let e = self.c.eq(xs[i], ys[i]); acc = self.c.and(acc, e); if self.c.as_const(acc) == Some(0) { break; } }
                    let z = self.c.konst(0, 32); let o = self.c.konst(1, 32); let r = self.c.ite(acc, z, o); return ok(self.v(r));
                }
                let mut r = self.c.konst(0, 32); let lt = self.c.konst(0xffff_ffff, 32); let gt = self.c.konst(1, 32);
                for i in (0..k).rev() { let e = self.c.eq(xs[i], ys[i]); let l = self.c.ult(xs[i], ys[i]); let d = self.c.ite(l, lt, gt); r = self.c.ite(e, r, d); }
                return ok(self.v(r));
            }
            "strlen" => { let p = self.conc(st, &a[0])?; let mut i = 0; loop { let b = self.conc_bytes(st, p + i, 1)?; if b[0] == 0 { break; } i += 1; } return ok(Val::C(i)); }
            "memchr" => {
                let k = self.conc(st, &a[2])?; let p = self.conc(st, &a[0])?; let c = match &a[1] { Val::E(e) => self.c.ext(*e, 0, 8), v => { let x = v.c64() & 255; self.c.konst(x as u128, 8) } };
                let es = self.bytes_e(st, p, k as usize)?;
                for (i, e) in es.iter().enumerate() { let q = self.c.eq(*e, c); if self.decide(st, q)? { return ok(Val::C(p + i as u64)); } }
                return ok(Val::C(0));
            }
            "write" => { let k = a[2].clone(); return ok(k); }
            "writev" => return ok(Val::C(0)),
            "getenv" | "getauxval" | "pthread_getspecific" | "pthread_key_create" | "pthread_key_delete" | "pthread_setspecific" | "__cxa_thread_atexit_impl" | "pthread_mutex_lock" | "pthread_mutex_unlock" | "pthread_mutex_init" | "pthread_mutex_destroy" => return ok(Val::C(0)),
            "sysconf" => return ok(Val::C(4096)),
            "pthread_self" | "gettid" => return ok(Val::C(1)),
            "clock_gettime" => { let p = self.conc(st, &a[1])?; let (id, off) = self.obj_chk(st, p, 16, true)?; st.mem.get_mut(id).unwrap().set_conc(off, &[0u8; 16]); return ok(Val::C(0)); }
            "__errno_location" => return ok(Val::C((self.errno_obj as u64) << OBJ_SHIFT)),
            "abort" => return Ok(X::End(End::Panic("abort".into()))),
            "getrandom" => { let p = self.conc(st, &a[0])?; let k = self.conc(st, &a[1])?; self.fill_random(st, p, k)?; return ok(Val::C(k)); }
            "syscall" => { let nr = self.conc(st, &a[0])?; if nr == 318 { let p = self.conc(st, &a[1])?; let k = self.conc(st, &a[2])?; self.fill_random(st, p, k)?; return ok(Val::C(k)); } return Err(End::Engine(format!("syscall {}", nr))); }
            // ---- harness interface ----
            "sym_bytes" => {
                let p = self.conc(st, &a[0])?; let k = self.conc(st, &a[1])? as usize;
                let (id, off) = self.obj_chk(st, p, k, true)?;
                for i in 0..k { let e = self.new_input(st); st.mem.get_mut(id).unwrap().set_sym(off + i, e); }
                return Ok(X::V(None));
            }
            "sym_assume" => {
                self.st.assumes += 1;
                let b = match &a[0] { Val::E(e) => { let w = self.c.w(*e); let z = self.c.konst(0, w); let q = self.c.eq(*e, z); let q = self.c.not(q); let q = self.subst_fixed(st, q); match self.c.as_const(q) { Some(v) => v == 1, None => {
                    // no fork: keep only the satisfying side
                    if self.c.eval(q, &st.model) == 1 { self.assert_c(st, q); true } else { match self.query(st, q) { Sat::Sat(m) => { for (v, b) in m { st.model[v as usize] = b; } self.assert_c(st, q); true } Sat::Unsat => false, Sat::Unknown(_) => { self.st.unknown += 1; false } } }
                } } } v => v.c64() != 0 };
                return if b { Ok(X::V(None)) } else { Ok(X::End(End::Assume)) };
            }
            "sym_check" => {
                let code = self.conc(st, &a[1])? as u32;
                match &a[0] {
                    Val::E(e) => {
                        let w = self.c.w(*e); let z = self.c.konst(0, w); let bad = self.c.eq(*e, z); let bad = self.subst_fixed(st, bad);
                        match self.c.as_const(bad) { Some(1) => return Ok(X::End(End::Fail(code))), Some(_) => { self.st.checks_folded += 1; return Ok(X::V(None)); } None => {} }
                        self.st.checks_z3 += 1;
                        match self.query(st, bad) {
                            Sat::Unsat => return Ok(X::V(None)),
                            Sat::Sat(m) => { for (v, b) in m { st.model[v as usize] = b; } self.assert_c(st, bad); return Ok(X::End(End::Fail(code))); }
                            Sat::Unknown(x) => { self.st.unknown += 1; return Err(End::Engine(format!("solver: {}", x))); }
                        }
                    }
                    v => { self.st.checks_folded += 1; return if v.c64() != 0 { Ok(X::V(None)) } else { Ok(X::End(End::Fail(code))) }; }
                }
            }
            "sym_fail" => { let code = self.conc(st, &a[0])? as u32; return Ok(X::End(End::Fail(code))); }
            "sym_reach" => { let id = self.conc(st, &a[0])? as u32; st.reach.push(id); return Ok(X::V(None)); }
            "sym_known" => { let id = self.conc(st, &a[0])? as u32; st.known.push(id); return Ok(X::V(None)); }
            "sym_obs" => { let e = self.e(&a[0], 64); st.obs.push(e); return Ok(X::V(None)); }
            "sym_choice" => {
                // two-phase: re-executed while forking, so the input is created only once per arrival
                let k = self.conc(st, &a[0])? as u128;
                let idx = st.nvars;
                if k <= 1 { return ok(Val::C(0)); }
                // create the variable, then fork by hand over all values
                let v = self.new_input(st);
                { let d = &mut Rc::make_mut(&mut st.dom)[idx as usize]; *d = [0; 4]; for i in 0..k as usize { d[i / 64] |= 1 << (i % 64); } }
                let _ = v;
                for i in 1..k as usize {
                    let mut o = st.clone();
                    { let d = &mut Rc::make_mut(&mut o.dom)[idx as usize]; *d = [0; 4]; d[i / 64] |= 1 << (i % 64); }
                    o.model[idx as usize] = i as u8; Rc::make_mut(&mut o.fixed).insert(idx); o.choices.push(i as u32);
                    let m = self.m;
                    let inst = &m.funcs[o.cur.func as usize].blocks[o.cur.block as usize][o.cur.ip as usize];
                    self.finish_call(&mut o, inst, Some(Val::C(i as u64)));
                    self.st.forks += 1;
                    self.work.push(o);
                }
                { let d = &mut Rc::make_mut(&mut st.dom)[idx as usize]; *d = [0; 4]; d[0] = 1; }
                Rc::make_mut(&mut st.fixed).insert(idx); st.choices.push(0);
                return ok(Val::C(0));
            }
            "sym_is_conc" => { let p = self.conc(st, &a[0])?; let k = self.conc(st, &a[1])? as usize; let es = self.bytes_e(st, p, k)?; let r = es.iter().all(|e| self.c.as_const(*e).is_some()); return ok(Val::C(r as u64)); }
            "sym_fix" => { let p = self.conc(st, &a[0])?; let k = self.conc(st, &a[1])? as usize; let b = self.conc_bytes(st, p, k)?; if k > 0 { let (id, off) = self.obj_chk(st, p, k, true)?; st.mem.get_mut(id).unwrap().set_conc(off, &b); } return Ok(X::V(None)); }
            "sym_dbg" => { let p = self.conc(st, &a[0])?; let k = self.conc(st, &a[1])? as usize; let es = self.bytes_e(st, p, k)?; let s: String = es.iter().map(|e| match self.c.as_const(*e) { Some(c) => (c as u8 as char).to_string(), None => format!("«{}»", self.c.eval(*e, &st.model)) }).collect(); eprintln!("DBG: {}", s); return Ok(X::V(None)); }
            "sym_native" => return ok(Val::C(0)),
            "sym_tier" => return ok(Val::C(self.tier)),
            _ => {}
        }
        Err(End::Engine(format!("external {}", n)))
    }
    fn fill_random(&mut self, st: &mut State, p: u64, k: u64) -> R<()> {
        let (id, off) = self.obj_chk(st, p, k as usize, true)?;
        if k > 0 { let b: Vec<u8> = (0..k).map(|i| 0x5a ^ (i as u8).wrapping_mul(37)).collect(); st.mem.get_mut(id).unwrap().set_conc(off, &b); }
        Ok(())
    }
    fn intrinsic(&mut self, st: &mut State, n: &str, a: Vec<Val>, tys: &[TyId], rty: TyId) -> R<X> {
        let ok = |v: Val| Ok(X::V(Some(v)));
        let base: String = { let mut parts: Vec<&str> = n.split('.').collect(); while parts.len() > 1 { let l = parts[parts.len() - 1]; let is_ty = (l.starts_with('i') || l.starts_with('p') || l.starts_with('f')) && l[1..].chars().all(|c| c.is_ascii_digit()) && l.len() > 1 || (l.starts_with('v') && l[1..].starts_with(|c: char| c.is_ascii_digit())); if is_ty { parts.pop(); } else { break; } } parts.join(".") };
        let lw = |s: &Self, t: TyId| -> u32 { s.m.lanes(t).1 };
        match base.as_str() {
            "memcpy" | "memmove" | "memcpy.inline" => { self.memcpy(st, &a[0], &a[1], &a[2])?; return Ok(X::V(None)); }
            "memset" => {
                let k = self.conc(st, &a[2])? as usize; if k == 0 { return Ok(X::V(None)); }
                let p = self.conc(st, &a[0])?; let (id, off) = self.obj_chk(st, p, k, true)?;
                match &a[1] { Val::E(e) => { let e = *e; for i in 0..k { st.mem.get_mut(id).unwrap().set_sym(off + i, e); } } v => { let b = v.c64() as u8; st.mem.get_mut(id).unwrap().set_conc(off, &vec![b; k]); } }
                return Ok(X::V(None));
            }
            "expect" | "expect.with.probability" | "threadlocal.address" | "launder.invariant.group" | "strip.invariant.group" | "ssa.copy" | "arithmetic.fence" => return ok(a[0].clone()),
            "ptrmask" => { let r = self.bin(BinOp::And, 64, &a[0], &a[1]); return ok(r); }
            "trap" | "debugtrap" | "ubsantrap" => return Ok(X::End(End::Panic("trap".into()))),
            "is.constant" => return ok(Val::C(0)),
            "stacksave" => return ok(Val::C(0)),
            "objectsize" => return ok(Val::C(u64::MAX)),
            "x86.xgetbv" => return ok(Val::C(0)),
            _ => {}
        }
        if let Some(op) = base.strip_suffix(".with.overflow") {
            let w = lw(self, tys[0]);
            let (signed, bop) = match op { "uadd" => (false, BinOp::Add), "usub" => (false, BinOp::Sub), "umul" => (false, BinOp::Mul), "sadd" => (true, BinOp::Add), "ssub" => (true, BinOp::Sub), "smul" => (true, BinOp::Mul), _ => return Err(End::Engine(n.into())) };
            let r = self.bin(bop, w, &a[0], &a[1]);
            let ov = if a[0].is_conc() && a[1].is_conc() {
                let (x, y) = (a[0].c128(), a[1].c128());
                if signed { let (p, q) = (sext128(x, w), sext128(y, w)); let t = match bop { BinOp::Add => p.checked_add(q), BinOp::Sub => p.checked_sub(q), _ => p.checked_mul(q) }; Val::C(match t { Some(t) => (t != sext128(r.c128(), w)) as u64, None => 1 }) }
                else { Val::C(match bop { BinOp::Add => (x.checked_add(y).map(|t| t > mask128(w)).unwrap_or(true)) as u64, BinOp::Sub => (x < y) as u64, _ => x.checked_mul(y).map(|t| t > mask128(w)).unwrap_or(true) as u64 }) }
            } else {
                let x = self.e(&a[0], w); let y = self.e(&a[1], w);
                let e = match (signed, bop) {
                    (false, BinOp::Add) => { let re = self.e(&r, w); self.c.ult(re, x) }
                    (false, BinOp::Sub) => self.c.ult(x, y),
                    _ => {
                        let w2 = if bop == BinOp::Mul { 2 * w } else { w + 1 };
                        if w2 > 128 { return Err(End::Engine("overflow width".into())); }
                        let (x2, y2) = if signed { (self.c.sext(x, w2), self.c.sext(y, w2)) } else { (self.c.zext(x, w2), self.c.zext(y, w2)) };
                        let t = self.c.bin(bop, w2, x2, y2);
                        let re = self.e(&r, w); let r2 = if signed { self.c.sext(re, w2) } else { self.c.zext(re, w2) };
                        let q = self.c.eq(t, r2); self.c.not(q)
                    }
                };
                self.v(e)
            };
            return ok(Val::A(Rc::from(vec![r, ov])));
        }
        let w = if tys.is_empty() { 0 } else { match self.m.ty(tys[0]) { Ty::Struct(..) | Ty::Array(..) | Ty::Other | Ty::Void => 0, _ => lw(self, tys[0]) } };
        match base.as_str() {
            "umin" | "umax" | "smin" | "smax" => { let p = match base.as_str() { "umin" => Pred::Ult, "umax" => Pred::Ugt, "smin" => Pred::Slt, _ => Pred::Sgt }; let r = self.lanewise2(&a[0], &a[1], &mut |s, x, y| { let c = s.icmp(p, w, x, y); s.ite_val(&c, x, y, w) }); ok(r) }
            "abs" => { let r = self.lanewise1(&a[0], &mut |s, x| { let c = s.icmp(Pred::Slt, w, x, &Val::C(0)); let n = s.bin(BinOp::Sub, w, &Val::C(0), x); s.ite_val(&c, &n, x, w) }); ok(r) }
            "usub.sat" => { let r = self.lanewise2(&a[0], &a[1], &mut |s, x, y| { let c = s.icmp(Pred::Ult, w, x, y); let d = s.bin(BinOp::Sub, w, x, y); s.ite_val(&c, &Val::C(0), &d, w) }); ok(r) }
            "uadd.sat" => { let r = self.lanewise2(&a[0], &a[1], &mut |s, x, y| { let d = s.bin(BinOp::Add, w, x, y); let c = s.icmp(Pred::Ult, w, &d, x); s.ite_val(&c, &Val::from128(mask128(w)), &d, w) }); ok(r) }
            "ssub.sat" | "sadd.sat" => { let add = base == "sadd.sat"; let x = self.conc128(st, &a[0])?; let y = self.conc128(st, &a[1])?; let (x, y) = (sext128(x, w), sext128(y, w)); let t = if add { x + y } else { x - y }; let hi = (1i128 << (w - 1)) - 1; let lo = -(1i128 << (w - 1)); ok(Val::from128(t.clamp(lo, hi) as u128 & mask128(w))) }
            "ucmp" | "scmp" => { let rw = self.m.int_width(rty); let (lt, gt) = if base == "ucmp" { (Pred::Ult, Pred::Ugt) } else { (Pred::Slt, Pred::Sgt) }; let l = self.icmp(lt, w, &a[0], &a[1]); let g = self.icmp(gt, w, &a[0], &a[1]); let x = self.ite_val(&g, &Val::C(1), &Val::C(0), rw); let r = self.ite_val(&l, &Val::from128(mask128(rw)), &x, rw); ok(r) }
            "bswap" => { let r = self.lanewise1(&a[0], &mut |s, x| if x.is_conc() { let b = x.c128().to_le_bytes(); let k = (w / 8) as usize; let mut o = 0u128; for i in 0..k { o |= (b[i] as u128) << (8 * (k - 1 - i)); } Val::from128(o) } else { let e = s.e(x, w); let k = w / 8; let ps: Vec<E> = (0..k).map(|i| s.c.ext(e, (k - 1 - i) * 8, 8)).collect(); let r = s.c.cat(&ps); s.v(r) }); ok(r) }
            "bitreverse" => { let r = self.lanewise1(&a[0], &mut |s, x| { let e = s.e(x, w); let ps: Vec<E> = (0..w).map(|i| s.c.ext(e, w - 1 - i, 1)).collect(); let r = s.c.cat(&ps); s.v(r) }); ok(r) }
            "ctpop" => { let r = self.lanewise1(&a[0], &mut |s, x| if x.is_conc() { Val::C(x.c128().count_ones() as u64) } else { let e = s.e(x, w); let mut acc = s.c.konst(0, w); for i in 0..w { let b = s.c.ext(e, i, 1); let z = s.c.zext(b, w); acc = s.c.bin(BinOp::Add, w, acc, z); } s.v(acc) }); ok(r) }
            "cttz" => { let r = self.lanewise1(&a[0], &mut |s, x| if x.is_conc() { let v = x.c128(); Val::C(if v == 0 { w as u64 } else { v.trailing_zeros() as u64 }) } else { let e = s.e(x, w); let mut acc = s.c.konst(w as u128, w); for i in (0..w).rev() { let b = s.c.ext(e, i, 1); let k = s.c.konst(i as u128, w); acc = s.c.ite(b, k, acc); } s.v(acc) }); if let Val::E(e) = &r { if w >= 16 { let c = self.concretize(st, *e)?; return ok(Val::from128(c)); } } ok(r) }
            "ctlz" => { let r = self.lanewise1(&a[0], &mut |s, x| if x.is_conc() { let v = x.c128(); Val::C(if v == 0 { w as u64 } else { (v.leading_zeros() - (128 - w)) as u64 }) } else { let e = s.e(x, w); let mut acc = s.c.konst(w as u128, w); for i in 0..w { let b = s.c.ext(e, i, 1); let k = s.c.konst((w - 1 - i) as u128, w); acc = s.c.ite(b, k, acc); } s.v(acc) }); ok(r) }
            "fshl" | "fshr" => {
                let mut out = vec![]; let lanes = if let Val::A(x) = &a[0] { x.len() } else { 0 };
                for i in 0..lanes.max(1) {
                    let g = |v: &Val| if let Val::A(x) = v { x[i].clone() } else { v.clone() };
                    let (x, y, z) = (g(&a[0]), g(&a[1]), g(&a[2]));
                    let sh = (self.conc(st, &z)? % w as u64) as u32;
                    let r = if sh == 0 { if base == "fshl" { x } else { y } } else { let s = if base == "fshl" { sh } else { w - sh }; let l = self.bin(BinOp::Shl, w, &x, &Val::C(s as u64)); let h = self.bin(BinOp::LShr, w, &y, &Val::C((w - s) as u64)); self.bin(BinOp::Or, w, &l, &h) };
                    out.push(r);
                }
                ok(if lanes == 0 { out[0].clone() } else { Val::A(Rc::from(out)) })
            }
            "vector.reduce.or" | "vector.reduce.and" | "vector.reduce.add" | "vector.reduce.xor" | "vector.reduce.umax" | "vector.reduce.umin" => {
                let xs = a[0].agg().clone(); let mut acc = xs[0].clone();
                for x in &xs[1..] { acc = match base.as_str() { "vector.reduce.or" => self.bin(BinOp::Or, w, &acc, x), "vector.reduce.and" => self.bin(BinOp::And, w, &acc, x), "vector.reduce.add" => self.bin(BinOp::Add, w, &acc, x), "vector.reduce.xor" => self.bin(BinOp::Xor, w, &acc, x), "vector.reduce.umax" => { let c = self.icmp(Pred::Ugt, w, &acc, x); self.ite_val(&c, &acc, x, w) } _ => { let c = self.icmp(Pred::Ult, w, &acc, x); self.ite_val(&c, &acc, x, w) } }; }
                ok(acc)
            }
            "fabs" => { let x = self.conc(st, &a[0])?; ok(Val::C(if w == 64 { x & !(1 << 63) } else { x & 0x7fff_ffff })) }
            "copysign" => { let x = self.conc(st, &a[0])?; let y = self.conc(st, &a[1])?; ok(Val::C(f64::from_bits(x).copysign(f64::from_bits(y)).to_bits())) }
            "floor" | "ceil" | "trunc" | "rint" | "round" | "sqrt" => { let x = self.conc(st, &a[0])?; let f = f64::from_bits(x); ok(Val::C((match base.as_str() { "floor" => f.floor(), "ceil" => f.ceil(), "trunc" => f.trunc(), "round" => f.round(), "sqrt" => f.sqrt(), _ => f.round_ties_even() }).to_bits())) }
            "fptoui.sat" => { let x = self.conc(st, &a[0])?; let f = if w == 64 { f64::from_bits(x) } else { f32::from_bits(x as u32) as f64 }; let rw = self.m.int_width(rty); let hi = mask128(rw); ok(Val::from128((f as u128).min(hi))) }
            "fptosi.sat" => { let x = self.conc(st, &a[0])?; let f = if w == 64 { f64::from_bits(x) } else { f32::from_bits(x as u32) as f64 }; let rw = self.m.int_width(rty); let hi = (1i128 << (rw - 1)) - 1; ok(Val::from128((f as i128).clamp(-hi - 1, hi) as u128 & mask128(rw))) }
            "x86.sse2.pmovmskb.128" => { let xs = a[0].agg().clone(); let mut ps = vec![]; for x in xs.iter() { let e = self.e(x, 8); ps.push(self.c.ext(e, 7, 1)); } let r = self.c.cat(&ps); let r = self.c.zext(r, 32); ok(self.v(r)) }
            _ => Err(End::Engine(format!("intrinsic llvm.{}", n))),
        }
    }
}
