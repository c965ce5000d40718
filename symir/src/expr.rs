//! Hash-consed bit-vector expressions (width ≤ 128) over 8-bit input variables, with a canonicalising simplifier.
//! Every expression that is a function of one base term of ≤ 8 bits is kept as a lookup table over that base
//! ("Tab"), so equal functions get equal nodes and byte-wise parser conditions fold exactly.
use crate::ir::{mask128, sext128, BinOp};
use std::collections::HashMap;
use std::rc::Rc;

pub type E = u32;
const SWAR_HI: u128 = 0x8080808080808080;

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum K {
    Const(u128),
    Var(u32),
    Tab(u32, E),
    Bin(BinOp, E, E),
    Eq(E, E),
    Ult(E, E),
    Slt(E, E),
    Ite(E, E, E),
    Cat(Rc<[E]>), // low part first
    Ext(E, u32),
    SExt(E),
}

pub struct Node { pub k: K, pub w: u32, pub vs: u32, pub ones: u128 }

#[derive(Clone, Copy, PartialEq, Eq, Hash)]
enum TOp { Bin(BinOp), Eq, Ult, Slt, Ext(u32), SExt(u32), CatLo(u32), Compose }

pub struct Ctx {
    pub nodes: Vec<Node>,
    idx: HashMap<(K, u32), E>,
    pub tabs: Vec<Rc<[u64]>>,
    tabidx: HashMap<Rc<[u64]>, u32>,
    tabmemo: HashMap<(TOp, u32, u64, u8, u32), u32>,
    pub vsets: Vec<Rc<[u32]>>,
    vsidx: HashMap<Rc<[u32]>, u32>,
    vsmemo: HashMap<(u32, u32), u32>,
    funmemo: HashMap<E, Option<(E, u32)>>,
    pub vars: Vec<E>,
    pub truth: HashMap<u32, [u64; 4]>,
}

fn bin_conc(op: BinOp, w: u32, a: u128, b: u128) -> u128 {
    let m = mask128(w);
    (match op {
        BinOp::Add => a.wrapping_add(b),
        BinOp::Sub => a.wrapping_sub(b),
        BinOp::Mul => a.wrapping_mul(b),
        BinOp::UDiv => if b == 0 { m } else { a / b },
        BinOp::URem => if b == 0 { a } else { a % b },
        BinOp::SDiv => { let (x, y) = (sext128(a, w), sext128(b, w)); if y == 0 { if x < 0 { 1 } else { m } } else { x.wrapping_div(y) as u128 } }
        BinOp::SRem => { let (x, y) = (sext128(a, w), sext128(b, w)); if y == 0 { a } else { x.wrapping_rem(y) as u128 } }
        BinOp::And => a & b,
        BinOp::Or => a | b,
        BinOp::Xor => a ^ b,
        BinOp::Shl => if b >= w as u128 { 0 } else { a << b },
        BinOp::LShr => if b >= w as u128 { 0 } else { a >> b },
        BinOp::AShr => { let s = if b >= w as u128 { w - 1 } else { b as u32 }; (sext128(a, w) >> s) as u128 }
    }) & m
}
pub fn bin_c(op: BinOp, w: u32, a: u128, b: u128) -> u128 { bin_conc(op, w, a, b) }

impl Ctx {
    pub fn new() -> Ctx {
        let mut c = Ctx { nodes: vec![], idx: HashMap::new(), tabs: vec![], tabidx: HashMap::new(), tabmemo: HashMap::new(), vsets: vec![], vsidx: HashMap::new(), vsmemo: HashMap::new(), funmemo: HashMap::new(), vars: vec![], truth: HashMap::new() };
        c.vset(Rc::from(vec![]));
        c.nodes.push(Node { k: K::Const(0), w: 0, vs: 0, ones: 0 }); // id 0 unused: "no expression"
        c
    }
    fn vset(&mut self, v: Rc<[u32]>) -> u32 {
        if let Some(&i) = self.vsidx.get(&v) { return i; }
        let i = self.vsets.len() as u32; self.vsets.push(v.clone()); self.vsidx.insert(v, i); i
    }
    pub fn vs_union(&mut self, a: u32, b: u32) -> u32 {
        if a == b || b == 0 { return a; }
        if a == 0 { return b; }
        let k = if a < b { (a, b) } else { (b, a) };
        if let Some(&r) = self.vsmemo.get(&k) { return r; }
        let mut v: Vec<u32> = self.vsets[a as usize].iter().chain(self.vsets[b as usize].iter()).copied().collect();
        v.sort_unstable(); v.dedup();
        let r = self.vset(Rc::from(v)); self.vsmemo.insert(k, r); r
    }
    #[inline] pub fn w(&self, e: E) -> u32 { self.nodes[e as usize].w }
    #[inline] pub fn k(&self, e: E) -> &K { &self.nodes[e as usize].k }
    #[inline] pub fn vs(&self, e: E) -> u32 { self.nodes[e as usize].vs }
    #[inline] pub fn vars_of(&self, e: E) -> Rc<[u32]> { self.vsets[self.vs(e) as usize].clone() }
    #[inline] pub fn as_const(&self, e: E) -> Option<u128> { if let K::Const(c) = self.k(e) { Some(*c) } else { None } }
    #[inline] fn ones(&self, e: E) -> u128 { self.nodes[e as usize].ones }

    fn mk(&mut self, k: K, w: u32) -> E {
        if let Some(&i) = self.idx.get(&(k.clone(), w)) { return i; }
        let m = mask128(w);
        let mut vs = 0;
        let kids: Vec<E> = match &k { K::Const(_) | K::Var(_) => vec![], K::Tab(_, b) => vec![*b], K::Bin(_, a, b) | K::Eq(a, b) | K::Ult(a, b) | K::Slt(a, b) => vec![*a, *b], K::Ite(a, b, c) => vec![*a, *b, *c], K::Cat(p) => p.to_vec(), K::Ext(a, _) | K::SExt(a) => vec![*a] };
        for x in &kids { let v = self.vs(*x); vs = self.vs_union(vs, v); }
        if let K::Var(i) = &k { vs = self.vset(Rc::from(vec![*i])); }
        let ones = match &k {
            K::Const(c) => *c,
            K::Tab(t, _) => self.tabs[*t as usize].iter().fold(0u64, |a, b| a | b) as u128,
            K::Bin(op, a, b) => { let (x, y) = (self.ones(*a), self.ones(*b)); match op {
                BinOp::And => x & y, BinOp::Or | BinOp::Xor => x | y,
                BinOp::Add => { let hb = 128 - (x | y).leading_zeros(); mask128((hb + 1).min(w)) }
                BinOp::Mul => { let hx = 128 - x.leading_zeros(); let hy = 128 - y.leading_zeros(); mask128((hx + hy).min(w)) }
                BinOp::UDiv | BinOp::LShr => { let h = 128 - x.leading_zeros(); mask128(h) }
                BinOp::URem => { let h = 128 - y.leading_zeros(); if let Some(c) = self.as_const(*b) { if c > 0 { mask128(128 - (c - 1).leading_zeros()) } else { m } } else { let _ = h; m } }
                _ => m } }
            K::Ite(_, a, b) => self.ones(*a) | self.ones(*b),
            K::Cat(p) => { let mut o = 0; let mut s = 0; for x in p.iter() { o |= self.ones(*x) << s; s += self.w(*x); } o }
            K::Ext(a, lo) => self.ones(*a) >> lo,
            _ => m,
        } & m;
        let i = self.nodes.len() as E;
        self.nodes.push(Node { k: k.clone(), w, vs, ones });
        self.idx.insert((k, w), i);
        i
    }
    pub fn konst(&mut self, v: u128, w: u32) -> E { self.mk(K::Const(v & mask128(w)), w) }
    pub fn new_var(&mut self) -> (u32, E) { let i = self.vars.len() as u32; let e = self.mk(K::Var(i), 8); self.vars.push(e); (i, e) }

    // ---- tables ----
    fn tab_intern(&mut self, t: Vec<u64>) -> u32 {
        if let Some(&i) = self.tabidx.get(&t[..]) { return i; }
        let r: Rc<[u64]> = Rc::from(t); let i = self.tabs.len() as u32;
        self.tabs.push(r.clone()); self.tabidx.insert(r, i); i
    }
    fn idtab(&mut self, w: u32) -> u32 { self.tab_intern((0..1u64 << w).collect()) }
    fn is_var(&self, e: E) -> bool { matches!(self.k(e), K::Var(_)) }

    /// view e as a function of a ≤8-bit base
    pub fn fun_of(&mut self, e: E) -> Option<(E, u32)> {
        let w = self.w(e);
        if w > 64 { return None; }
        match self.k(e) {
            K::Const(_) => None,
            K::Tab(t, b) => Some((*b, *t)),
            _ if w <= 8 => { let t = self.idtab(w); Some((e, t)) }
            K::Cat(p) => {
                if let Some(r) = self.funmemo.get(&e) { return *r; }
                let p = p.clone(); let mut n = 0; let mut sh = 0; let mut add = 0u64; let (mut osh, mut oend) = (0, 0); let (mut first, mut last) = (0, 0);
                for (i, x) in p.iter().enumerate() { match self.as_const(*x) { Some(c) => add |= (c as u64) << sh, None => { if n == 0 { first = i; osh = sh; } n += 1; last = i; oend = sh + self.w(*x); } } sh += self.w(*x); }
                let r = if n == 0 { None } else {
                    let only = if n == 1 { Some(p[first]) } else if oend - osh <= 8 && n == last - first + 1 { let q: Vec<E> = p[first..=last].to_vec(); Some(self.cat(&q)) } else { None };
                    match only { Some(o) => if let Some((b, t)) = self.fun_of(o) { let tt: Vec<u64> = self.tabs[t as usize].iter().map(|v| (v << osh) | add).collect(); let t2 = self.tab_intern(tt); Some((b, t2)) } else { None }, None => None }
                };
                self.funmemo.insert(e, r); r
            }
            _ => None,
        }
    }
    pub fn tab(&mut self, t: u32, base: E, w: u32) -> E {
        let tt = self.tabs[t as usize].clone();
        debug_assert_eq!(tt.len(), 1usize << self.w(base));
        if tt.iter().all(|x| *x == tt[0]) { return self.konst(tt[0] as u128, w); }
        let bw = self.w(base);
        let ident = tt.iter().enumerate().all(|(i, x)| i as u64 == *x);
        if ident && bw == w { return base; }
        if !self.is_var(base) {
            if ident && w > bw { let z = self.konst(0, w - bw); return self.mk(K::Cat(Rc::from(vec![base, z])), w); }
            if bw == 1 { let a = self.konst(tt[1] as u128, w); let b = self.konst(tt[0] as u128, w); return self.ite_raw(base, a, b); }
            if let K::Ite(c, a, b) = self.k(base).clone() {
                if self.as_const(a).is_some() || self.as_const(b).is_some() {
                    let f = |s: &mut Self, x: E| match s.as_const(x) { Some(c) => s.konst(tt[c as usize] as u128, w), None => s.apply_tab(t, x, w) };
                    let x = f(self, a); let y = f(self, b);
                    return self.ite(c, x, y);
                }
            }
        }
        self.mk(K::Tab(t, base), w)
    }
    /// apply table t (indexed by value of x, x of width ≤ 8) to expression x
    pub fn apply_tab(&mut self, t: u32, x: E, w: u32) -> E {
        if let Some(c) = self.as_const(x) { let v = self.tabs[t as usize][c as usize]; return self.konst(v as u128, w); }
        let (b, t0) = self.fun_of(x).expect("apply_tab");
        let key = (TOp::Compose, t0, t as u64, 0, w);
        let r = if let Some(&r) = self.tabmemo.get(&key) { r } else {
            let tt = self.tabs[t as usize].clone();
            let v: Vec<u64> = self.tabs[t0 as usize].iter().map(|i| tt[*i as usize]).collect();
            let r = self.tab_intern(v); self.tabmemo.insert(key, r); r
        };
        self.tab(r, b, w)
    }
    pub fn tab_from(&mut self, v: Vec<u64>, base: E, w: u32) -> E { let t = self.tab_intern(v); self.tab(t, base, w) }

    fn tab_bin(&mut self, op: TOp, wi: u32, wo: u32, a: Result<u32, u64>, b: Result<u32, u64>) -> u32 {
        let (key, n) = match (&a, &b) {
            (Ok(x), Ok(y)) => ((op, *x, *y as u64, 0u8, wi), self.tabs[*x as usize].len()),
            (Ok(x), Err(c)) => ((op, *x, *c, 1, wi), self.tabs[*x as usize].len()),
            (Err(c), Ok(y)) => ((op, *y, *c, 2, wi), self.tabs[*y as usize].len()),
            _ => unreachable!(),
        };
        if let Some(&r) = self.tabmemo.get(&key) { return r; }
        let ga = |s: &Self, i: usize| -> u64 { match &a { Ok(t) => s.tabs[*t as usize][i], Err(c) => *c } };
        let gb = |s: &Self, i: usize| -> u64 { match &b { Ok(t) => s.tabs[*t as usize][i], Err(c) => *c } };
        let mut out = Vec::with_capacity(n);
        for i in 0..n {
            let (x, y) = (ga(self, i), gb(self, i));
            out.push(match op {
                TOp::Bin(o) => bin_conc(o, wi, x as u128, y as u128) as u64,
                TOp::Eq => (x == y) as u64,
                TOp::Ult => (x < y) as u64,
                TOp::Slt => (sext128(x as u128, wi) < sext128(y as u128, wi)) as u64,
                TOp::CatLo(lw) => x | (y << lw),
                TOp::Ext(lo) => (x >> lo) & mask128(wo) as u64,
                TOp::SExt(_) => (sext128(x as u128, wi) as u128 & mask128(wo)) as u64,
                TOp::Compose => unreachable!(),
            });
        }
        let r = self.tab_intern(out); self.tabmemo.insert(key, r); r
    }
    /// try table form for binary op; returns None if not functions of a common base
    fn try_tab2(&mut self, op: TOp, wi: u32, wo: u32, a: E, b: E) -> Option<E> {
        if wi > 64 || wo > 64 { return None; }
        match (self.as_const(a), self.as_const(b)) {
            (Some(_), Some(_)) => None,
            (None, Some(c)) => { let (x, t) = self.fun_of(a)?; let r = self.tab_bin(op, wi, wo, Ok(t), Err(c as u64)); Some(self.tab(r, x, wo)) }
            (Some(c), None) => { let (x, t) = self.fun_of(b)?; let r = self.tab_bin(op, wi, wo, Err(c as u64), Ok(t)); Some(self.tab(r, x, wo)) }
            (None, None) => {
                if self.vs(a) != self.vs(b) { return None; }
                let (x, t) = self.fun_of(a)?; let (y, u) = self.fun_of(b)?;
                if x != y { return None; }
                let r = self.tab_bin(op, wi, wo, Ok(t), Ok(u)); Some(self.tab(r, x, wo))
            }
        }
    }
    /// base of the function view is an opaque (non-variable) node and e is that node itself or its zero/const extension
    fn opaque(&mut self, e: E) -> bool { match self.k(e) { K::Var(_) | K::Const(_) | K::Tab(..) => false, _ => true } }

    // ---- constructors ----
    pub fn not(&mut self, e: E) -> E { debug_assert_eq!(self.w(e), 1); let o = self.konst(1, 1); self.bin(BinOp::Xor, 1, e, o) }
    pub fn is_not(&self, e: E) -> Option<E> { if let K::Ite(c, a, b) = self.k(e) { if self.w(e) == 1 && self.as_const(*a) == Some(0) && self.as_const(*b) == Some(1) { return Some(*c); } } None }
    pub fn and(&mut self, a: E, b: E) -> E { self.bin(BinOp::And, 1, a, b) }
    pub fn or(&mut self, a: E, b: E) -> E { self.bin(BinOp::Or, 1, a, b) }

    pub fn bin(&mut self, op: BinOp, w: u32, a: E, b: E) -> E {
        debug_assert_eq!(self.w(a), w); debug_assert_eq!(self.w(b), w);
        if let (Some(x), Some(y)) = (self.as_const(a), self.as_const(b)) { return self.konst(bin_conc(op, w, x, y), w); }
        let (mut a, mut b) = (a, b);
        if matches!(op, BinOp::Add | BinOp::Mul | BinOp::And | BinOp::Or | BinOp::Xor) && (self.as_const(a).is_some() || (self.as_const(b).is_none() && a > b)) { std::mem::swap(&mut a, &mut b); }
        let m = mask128(w);
        let cb = self.as_const(b);
        // identities
        match (op, cb) {
            (BinOp::Add, Some(0)) | (BinOp::Sub, Some(0)) | (BinOp::Or, Some(0)) | (BinOp::Xor, Some(0)) | (BinOp::Shl, Some(0)) | (BinOp::LShr, Some(0)) | (BinOp::AShr, Some(0)) | (BinOp::Mul, Some(1)) | (BinOp::UDiv, Some(1)) => return a,
            (BinOp::And, Some(0)) | (BinOp::Mul, Some(0)) => return b,
            (BinOp::And, Some(c)) if self.ones(a) & !c & m == 0 => return a,
            (BinOp::Or, Some(c)) if c == m => return b,
            (BinOp::URem, Some(1)) => return self.konst(0, w),
            (BinOp::Shl, Some(c)) | (BinOp::LShr, Some(c)) if c >= w as u128 => return self.konst(0, w),
            (BinOp::Sub, Some(c)) => { let n = self.konst((!c).wrapping_add(1) & m, w); return self.bin(BinOp::Add, w, a, n); }
            (BinOp::Mul, Some(c)) if c.is_power_of_two() => { let s = self.konst(c.trailing_zeros() as u128, w); return self.bin(BinOp::Shl, w, a, s); }
            (BinOp::UDiv, Some(c)) if c.is_power_of_two() => { let s = self.konst(c.trailing_zeros() as u128, w); return self.bin(BinOp::LShr, w, a, s); }
            (BinOp::URem, Some(c)) if c.is_power_of_two() => { let s = self.konst(c - 1, w); return self.bin(BinOp::And, w, a, s); }
            _ => {}
        }
        if a == b { match op { BinOp::And | BinOp::Or => return a, BinOp::Xor | BinOp::Sub => return self.konst(0, w), _ => {} } }
        // width-1 boolean algebra
        if w == 1 {
            match op { BinOp::Add | BinOp::Sub => return self.bin(BinOp::Xor, 1, a, b), BinOp::Mul => return self.bin(BinOp::And, 1, a, b), _ => {} }
            if op == BinOp::And || op == BinOp::Or { if self.is_not(a) == Some(b) || self.is_not(b) == Some(a) { return self.konst((op == BinOp::Or) as u128, 1); } }
            if op == BinOp::Xor && cb == Some(1) {
                if let K::Ite(c, x, y) = self.k(a).clone() { if self.as_const(x).is_some() || self.as_const(y).is_some() { let nx = self.bin(BinOp::Xor, 1, x, b); let ny = self.bin(BinOp::Xor, 1, y, b); return self.ite(c, nx, ny); } }
            }
        }
        let slice = cb.is_some() && matches!(op, BinOp::And | BinOp::Or | BinOp::Shl | BinOp::LShr);
        if !(slice && w > 1 && self.opaque(a)) { if let Some(r) = self.try_tab2(TOp::Bin(op), w, w, a, b) { return r; } }
        // push through ite with constant leaves
        if let (K::Ite(c, x, y), Some(_)) = (self.k(a).clone(), cb) { if self.as_const(x).is_some() || self.as_const(y).is_some() { let nx = self.bin(op, w, x, b); let ny = self.bin(op, w, y, b); return self.ite(c, nx, ny); } }
        if let (Some(_), K::Ite(c, x, y)) = (self.as_const(a), self.k(b).clone()) { if self.as_const(x).is_some() || self.as_const(y).is_some() { let nx = self.bin(op, w, a, x); let ny = self.bin(op, w, a, y); return self.ite(c, nx, ny); } }
        match (op, cb) {
            (BinOp::Shl, Some(c)) => { let z = self.konst(0, c as u32); let x = self.ext(a, 0, w - c as u32); return self.cat(&[z, x]); }
            (BinOp::LShr, Some(c)) => { let x = self.ext(a, c as u32, w - c as u32); let z = self.konst(0, c as u32); return self.cat(&[x, z]); }
            (BinOp::AShr, Some(c)) => { let c = (c as u32).min(w - 1); let x = self.ext(a, c, w - c); return self.sext(x, w); }
            (BinOp::And, Some(c)) if c == SWAR_HI && w == 64 && self.swar_leaf(a) => return self.mk(K::Bin(op, a, b), w),
            (BinOp::And, Some(c)) | (BinOp::Or, Some(c)) if w > 1 => {
                let runs = bit_runs(c, w);
                if runs.len() <= 17 {
                    let mut parts = vec![];
                    for (lo, n, bit) in runs { let keep = if op == BinOp::And { bit } else { !bit }; parts.push(if keep { self.ext(a, lo, n) } else { self.konst(if bit { mask128(n) } else { 0 }, n) }); }
                    return self.cat(&parts);
                }
            }
            (BinOp::Add, Some(c)) if matches!(self.k(a), K::Cat(_)) && self.ripple(a) => {
                // byte-lane ripple carry: every carry is a condition on the lanes below
                let ps = if let K::Cat(p) = self.k(a).clone() { p } else { unreachable!() };
                let w0 = if self.as_const(ps[0]).is_some() { self.w(ps[0]) } else { 8 }; let c0 = c & mask128(w0); let ch = c >> w0; let wr = w - w0;
                let rest = self.ext(a, w0, wr); let p0 = self.ext(a, 0, w0);
                let k0 = self.konst(c0, w0); let low = self.bin(BinOp::Add, w0, p0, k0);
                let carry = if c0 == 0 { self.konst(0, 1) } else { self.ult(low, k0) };
                let kh = self.konst(ch, wr); let y = self.bin(BinOp::Add, wr, rest, kh);
                if self.as_const(carry) == Some(0) { return self.cat(&[low, y]); }
                let kh1 = self.konst(ch.wrapping_add(1), wr); let x = self.bin(BinOp::Add, wr, rest, kh1);
                if self.as_const(carry) == Some(1) { return self.cat(&[low, x]); }
                let mut parts = vec![low]; let mut lo = 0;
                while lo < wr { let n = 8.min(wr - lo); let p = self.ext(x, lo, n); let q = self.ext(y, lo, n); let r = self.ite(carry, p, q); parts.push(r); lo += n; }
                return self.cat(&parts);
            }
            (BinOp::Add, Some(c)) => { if let K::Bin(BinOp::Add, x, y) = self.k(a).clone() { if let Some(d) = self.as_const(y) { let s = self.konst(c.wrapping_add(d) & m, w); return self.bin(BinOp::Add, w, x, s); } } }
            (BinOp::Xor, Some(c)) if matches!(self.k(a), K::Cat(_)) => {
                let ps = if let K::Cat(p) = self.k(a).clone() { p } else { unreachable!() };
                let mut out = vec![]; let mut sh = 0;
                for x in ps.iter() { let n = self.w(*x); let k = self.konst((c >> sh) & mask128(n), n); out.push(self.bin(BinOp::Xor, n, *x, k)); sh += n; }
                return self.cat(&out);
            }
            (BinOp::Xor, Some(c)) => { if let K::Bin(BinOp::Xor, x, y) = self.k(a).clone() { if let Some(d) = self.as_const(y) { let s = self.konst(c ^ d, w); return self.bin(BinOp::Xor, w, x, s); } } }
            _ => {}
        }
        if w > 1 && matches!(op, BinOp::Or | BinOp::Add | BinOp::Xor) {
            let (x, y) = (self.ones(a), self.ones(b));
            if x & y == 0 && cb.is_none() {
                // disjoint: concatenate runs
                let runs = bit_runs(x, w);
                if runs.len() <= 17 {
                    let mut parts = vec![];
                    for (lo, n, bit) in runs { let e = if bit { a } else { b }; parts.push(self.ext(e, lo, n)); }
                    return self.cat(&parts);
                }
            }
        }
        if w > 8 && cb.is_none() && matches!(op, BinOp::And | BinOp::Or | BinOp::Xor) {
            // byte lanes
            let mut cuts: Vec<u32> = vec![]; let mut ok = true;
            for e in [a, b] { if let K::Cat(ps) = self.k(e).clone() { let mut s = 0; for &p in ps.iter() { s += self.w(p); if s < w { cuts.push(s); } } } else { ok = false; } }
            cuts.sort_unstable(); cuts.dedup(); if ok && cuts.len() <= 16 {
                cuts.sort_unstable(); cuts.dedup(); cuts.push(w);
                let mut lo = 0; let mut parts = vec![];
                for c in cuts { let x = self.ext(a, lo, c - lo); let y = self.ext(b, lo, c - lo); let e = self.bin(op, c - lo, x, y); parts.push(e); lo = c; }
                return self.cat(&parts);
            }
        }
        self.mk(K::Bin(op, a, b), w)
    }
    /// does an and-tree contain the word-wise "no zero byte" idiom (0x0101010101010100 - x) | x ?
    fn swar_leaf(&self, e: E) -> bool {
        match self.k(e) { K::Bin(BinOp::And, a, b) => self.swar_leaf(*a) || self.swar_leaf(*b), K::Bin(BinOp::Or, a, b) => self.swar_sub(*a).is_some() || self.swar_sub(*b).is_some(), _ => false }
    }
    fn swar_sub(&self, e: E) -> Option<E> { if let K::Bin(BinOp::Sub, c, x) = self.k(e) { if self.as_const(*c) == Some(0x0101010101010100) && self.w(e) == 64 { return Some(*x); } } None }
    /// (a & 0x8080808080808080) == 0x8080808080808080, the idiom turned into one condition per byte:
    /// the lowest zero byte of x is the first whose lane of (0x01..00 - x) | x lacks its top bit, so all lanes have it iff no byte is zero
    fn swar_all_hi(&mut self, e: E) -> E {
        match self.k(e).clone() {
            K::Bin(BinOp::And, a, b) => { let p = self.swar_all_hi(a); let q = self.swar_all_hi(b); self.and(p, q) }
            K::Bin(BinOp::Or, a, b) => {
                let (x, y) = match (self.swar_sub(a), self.swar_sub(b)) { (Some(x), _) => (x, b), (_, Some(x)) => (x, a), _ => { return self.swar_plain(e); } };
                let d = self.bin(BinOp::Xor, 64, x, y);
                match self.as_const(d) { Some(k) if k & SWAR_HI == 0 => {} _ => return self.swar_plain(e) }
                let mut acc = self.konst(1, 1); let z = self.konst(0, 8);
                for i in 0..8 { let l = self.ext(x, i * 8, 8); let q = self.eq(l, z); let n = self.not(q); acc = self.and(acc, n); }
                acc
            }
            _ => self.swar_plain(e),
        }
    }
    fn swar_plain(&mut self, e: E) -> E {
        let mut acc = self.konst(1, 1);
        for i in 0..8 { let l = self.ext(e, i * 8 + 7, 1); acc = self.and(acc, l); }
        acc
    }
    fn ripple(&self, e: E) -> bool {
        if let K::Cat(p) = self.k(e) {
            if self.w(e) % 8 != 0 || self.w(e) > 64 { return false; }
            let mut n = 0; let mut sh = 0;
            for x in p.iter() { if sh % 8 != 0 { return false; } if self.as_const(*x).is_none() { n += 1; if self.w(*x) % 8 != 0 { return false; } } sh += self.w(*x); }
            n >= 1 && p.len() >= 2 && self.vsets[self.vs(e) as usize].len() >= 2 || (n == 1 && p.len() >= 2 && self.as_const(p[0]).is_none())
        } else { false }
    }
    pub fn cat(&mut self, parts: &[E]) -> E {
        let mut out: Vec<E> = Vec::with_capacity(parts.len());
        let push = |s: &mut Self, out: &mut Vec<E>, x: E| {
            if s.w(x) == 0 { return; }
            if let Some(&l) = out.last() {
                if let (Some(a), Some(b)) = (s.as_const(l), s.as_const(x)) { let (wa, wb) = (s.w(l), s.w(x)); *out.last_mut().unwrap() = s.konst(a | (b << wa), wa + wb); return; }
                if let (K::Ext(a, lo), K::Ext(b, lo2)) = (s.k(l).clone(), s.k(x).clone()) { if a == b && lo + s.w(l) == lo2 { let n = s.w(l) + s.w(x); *out.last_mut().unwrap() = s.ext(a, lo, n); return; } }
            }
            out.push(x);
        };
        for &p in parts { if let K::Cat(ps) = self.k(p).clone() { for &q in ps.iter() { push(self, &mut out, q); } } else { push(self, &mut out, p); } }
        // merge adjacent functions of the same variable base, and whole-value functions of one variable
        let mut i = 0;
        while i + 1 < out.len() {
            let (a, b) = (out[i], out[i + 1]);
            let (wa, wb) = (self.w(a), self.w(b));
            let single = |s: &Self, e: E| s.vsets[s.vs(e) as usize].len() == 1;
            if wa + wb <= 64 && self.as_const(a).is_none() && self.as_const(b).is_none() && self.vs(a) == self.vs(b) && single(self, a) {
                if let Some(r) = self.try_tab2(TOp::CatLo(wa), wa.max(wb), wa + wb, a, b) { out[i] = r; out.remove(i + 1); continue; }
            }
            i += 1;
        }
        if out.len() == 1 { return out[0]; }
        let w: u32 = out.iter().map(|x| self.w(*x)).sum();
        assert!(w <= 128, "cat too wide");
        // one non-constant part which is a table over something: fold constants in
        let nc: Vec<usize> = (0..out.len()).filter(|i| self.as_const(out[*i]).is_none()).collect();
        if nc.len() == 1 && w <= 64 {
            let e = out[nc[0]];
            if matches!(self.k(e), K::Var(_) | K::Tab(..)) {
                let (b, t) = self.fun_of(e).unwrap();
                let mut sh = 0; let mut add = 0u64; let mut osh = 0;
                for (i, x) in out.iter().enumerate() { if i == nc[0] { osh = sh; } else { add |= (self.as_const(*x).unwrap() as u64) << sh; } sh += self.w(*x); }
                let tt: Vec<u64> = self.tabs[t as usize].iter().map(|v| (v << osh) | add).collect();
                let t2 = self.tab_intern(tt); return self.tab(t2, b, w);
            }
        }
        // ite with constant leaves + consts
        if nc.len() == 1 { if let K::Ite(c, x, y) = self.k(out[nc[0]]).clone() { if self.as_const(x).is_some() && self.as_const(y).is_some() {
            let mut o1 = out.clone(); o1[nc[0]] = x; let mut o2 = out.clone(); o2[nc[0]] = y;
            let r1 = self.cat(&o1); let r2 = self.cat(&o2); return self.ite(c, r1, r2);
        } } }
        self.mk(K::Cat(Rc::from(out)), w)
    }
    pub fn zext(&mut self, e: E, w: u32) -> E { let we = self.w(e); if we == w { return e; } let z = self.konst(0, w - we); self.cat(&[e, z]) }
    pub fn sext(&mut self, e: E, w: u32) -> E {
        let we = self.w(e); if we == w { return e; }
        if let Some(c) = self.as_const(e) { return self.konst(sext128(c, we) as u128, w); }
        if (self.ones(e) >> (we - 1)) & 1 == 0 { return self.zext(e, w); }
        if we == 1 { let a = self.konst(mask128(w), w); let b = self.konst(0, w); return self.ite(e, a, b); }
        if w <= 64 { if let Some((b, t)) = self.fun_of(e) { let z = Err(0u64); let r = self.tab_bin(TOp::SExt(w), we, w, Ok(t), z); return self.tab(r, b, w); } }
        if let K::SExt(x) = self.k(e) { let x = *x; return self.sext(x, w); }
        self.mk(K::SExt(e), w)
    }
    pub fn ext(&mut self, e: E, lo: u32, n: u32) -> E {
        let w = self.w(e);
        if n == 0 { return self.konst(0, 0); }
        if lo == 0 && n == w { return e; }
        debug_assert!(lo + n <= w);
        if (self.ones(e) >> lo) & mask128(n) == 0 { return self.konst(0, n); }
        match self.k(e).clone() {
            K::Const(c) => self.konst(c >> lo, n),
            K::Var(_) | K::Tab(..) => { let (b, t) = self.fun_of(e).unwrap(); let key = (TOp::Ext(lo), t, n as u64, 3, w); let r = if let Some(&r) = self.tabmemo.get(&key) { r } else { let v: Vec<u64> = self.tabs[t as usize].iter().map(|x| (x >> lo) & mask128(n) as u64).collect(); let r = self.tab_intern(v); self.tabmemo.insert(key, r); r }; self.tab(r, b, n) }
            K::Cat(ps) => {
                let mut out = vec![]; let mut s = 0;
                for &p in ps.iter() { let pw = self.w(p); let a = lo.max(s); let b = (lo + n).min(s + pw); if a < b { out.push(self.ext(p, a - s, b - a)); } s += pw; }
                self.cat(&out)
            }
            K::Ext(x, l2) => self.ext(x, lo + l2, n),
            K::Ite(c, a, b) => { let x = self.ext(a, lo, n); let y = self.ext(b, lo, n); self.ite(c, x, y) }
            K::Bin(op @ (BinOp::And | BinOp::Or | BinOp::Xor), a, b) => { let x = self.ext(a, lo, n); let y = self.ext(b, lo, n); self.bin(op, n, x, y) }
            K::Bin(op @ (BinOp::Add | BinOp::Sub | BinOp::Mul), a, b) if lo == 0 => { let x = self.ext(a, 0, n); let y = self.ext(b, 0, n); self.bin(op, n, x, y) }
            K::SExt(x) => { let wx = self.w(x); if lo + n <= wx { self.ext(x, lo, n) } else if lo < wx { let y = self.ext(x, lo, wx - lo); self.sext(y, n) } else { let s = self.ext(x, wx - 1, 1); self.sext(s, n) } }
            _ => self.mk(K::Ext(e, lo), n),
        }
    }
    fn ite_raw(&mut self, c: E, a: E, b: E) -> E {
        let w = self.w(a);
        if a == b { return a; }
        if w == 1 { match (self.as_const(a), self.as_const(b)) { (Some(1), Some(0)) => return c, (Some(0), Some(1)) => { if let Some(x) = self.is_not(c) { return x; } } _ => {} } }
        self.mk(K::Ite(c, a, b), w)
    }
    pub fn ite(&mut self, c: E, a: E, b: E) -> E {
        if let Some(x) = self.as_const(c) { return if x == 1 { a } else { b }; }
        if a == b { return a; }
        let w = self.w(a);
        if w == 1 {
            match (self.as_const(a), self.as_const(b)) {
                (Some(1), Some(_)) => return c,
                (Some(1), None) => return self.or(c, b),
                (None, Some(0)) => return self.and(c, a),
                (Some(0), None) => { let n = self.not(c); return self.and(n, b); }
                (None, Some(1)) => { let n = self.not(c); return self.or(n, a); }
                (Some(_), Some(_)) => return self.not(c),
                _ => {}
            }
        }
        if let Some(x) = self.is_not(c) { return self.ite(x, b, a); }
        // all functions of one variable base
        if w <= 64 { if let Some((x, tc)) = self.fun_of(c) { if self.is_var(x) || (x != c) {
            let get = |s: &mut Self, e: E| -> Option<Result<u32, u64>> { match s.as_const(e) { Some(k) => Some(Err(k as u64)), None => match s.fun_of(e) { Some((y, t)) if y == x => Some(Ok(t)), _ => None } } };
            if let (Some(fa), Some(fb)) = (get(self, a), get(self, b)) {
                let t = self.tabs[tc as usize].clone();
                let v: Vec<u64> = (0..t.len()).map(|i| { let f = if t[i] == 1 { &fa } else { &fb }; match f { Ok(u) => self.tabs[*u as usize][i], Err(k) => *k } }).collect();
                return self.tab_from(v, x, w);
            }
        } } }
        if let K::Ite(c2, x, y) = self.k(a).clone() { if c2 == c { return self.ite(c, x, b); } let _ = y; }
        if let K::Ite(c2, x, y) = self.k(b).clone() { if c2 == c { return self.ite(c, a, y); } if x == a { let o = self.or(c, c2); return self.ite(o, a, y); } }
        self.ite_raw(c, a, b)
    }
    pub fn eq(&mut self, a: E, b: E) -> E {
        let w = self.w(a); debug_assert_eq!(w, self.w(b));
        if a == b { return self.konst(1, 1); }
        let (mut a, mut b) = (a, b);
        if self.as_const(a).is_some() || (self.as_const(b).is_none() && a > b) { std::mem::swap(&mut a, &mut b); }
        let cb = self.as_const(b);
        if let (Some(x), Some(y)) = (self.as_const(a), cb) { return self.konst((x == y) as u128, 1); }
        if let Some(c) = cb { if c & !self.ones(a) != 0 { return self.konst(0, 1); } }
        if w == 1 { if cb == Some(1) { return a; } if cb == Some(0) { return self.not(a); } let x = self.bin(BinOp::Xor, 1, a, b); return self.not(x); }
        if !(self.opaque(a) && w > 8 && cb.is_some()) { if let Some(r) = self.try_tab2(TOp::Eq, w, 1, a, b) { if !(cb.is_some() && matches!(self.k(a), K::Cat(_) | K::Ite(..))) { return r; } } }
        if let (K::Ite(c, x, y), Some(_)) = (self.k(a).clone(), cb) { if self.as_const(x).is_some() || self.as_const(y).is_some() { let nx = self.eq(x, b); let ny = self.eq(y, b); return self.ite(c, nx, ny); } }
        if let Some(c) = cb {
            if c == SWAR_HI && w == 64 && self.swar_leaf(a) { return self.swar_all_hi(a); }
            match self.k(a).clone() {
                K::Bin(BinOp::Xor, x, y) if c == 0 => return self.eq(x, y),
                K::Bin(BinOp::Xor, x, y) if self.as_const(y).is_some() => { let d = self.as_const(y).unwrap(); let k = self.konst(c ^ d, w); return self.eq(x, k); }
                K::Bin(BinOp::Or, x, y) if c == 0 => { let p = self.eq(x, b); let q = self.eq(y, b); return self.and(p, q); }
                K::Bin(BinOp::Add, x, y) if self.as_const(y).is_some() => { let d = self.as_const(y).unwrap(); let k = self.konst(c.wrapping_sub(d), w); return self.eq(x, k); }
                K::Bin(BinOp::Sub, x, y) if c == 0 => return self.eq(x, y),
                _ => {}
            }
        }
        // split at concat boundaries
        let mut cuts: Vec<u32> = vec![];
        for e in [a, b] { if let K::Cat(ps) = self.k(e).clone() { let mut s = 0; for &p in ps.iter() { s += self.w(p); if s < w { cuts.push(s); } } } }
        if !cuts.is_empty() {
            cuts.sort_unstable(); cuts.dedup(); cuts.push(w);
            let mut lo = 0; let mut acc = self.konst(1, 1);
            for c in cuts { let x = self.ext(a, lo, c - lo); let y = self.ext(b, lo, c - lo); let e = self.eq(x, y); acc = self.and(acc, e); if self.as_const(acc) == Some(0) { return acc; } lo = c; }
            return acc;
        }
        self.mk(K::Eq(a, b), 1)
    }
    pub fn ult(&mut self, a: E, b: E) -> E {
        let w = self.w(a);
        if a == b { return self.konst(0, 1); }
        if let (Some(x), Some(y)) = (self.as_const(a), self.as_const(b)) { return self.konst((x < y) as u128, 1); }
        if w == 1 { let n = self.not(a); return self.and(n, b); }
        if self.as_const(b) == Some(0) || self.as_const(a) == Some(mask128(w)) { return self.konst(0, 1); }
        if let Some(c) = self.as_const(b) { if self.ones(a) < c { return self.konst(1, 1); } if c == 1 { let z = self.konst(0, w); return self.eq(a, z); } }
        if let Some(c) = self.as_const(a) { if self.ones(b) <= c { return self.konst(0, 1); } if c == 0 { let z = self.konst(0, w); let e = self.eq(b, z); return self.not(e); } }
        if let Some(r) = self.try_tab2(TOp::Ult, w, 1, a, b) { return r; }
        let hi = (128 - (self.ones(a) | self.ones(b)).leading_zeros()).max(1);
        if hi < w { let x = self.ext(a, 0, hi); let y = self.ext(b, 0, hi); return self.ult(x, y); }
        if let (K::Ite(c, x, y), Some(_)) = (self.k(a).clone(), self.as_const(b)) { if self.as_const(x).is_some() || self.as_const(y).is_some() { let nx = self.ult(x, b); let ny = self.ult(y, b); return self.ite(c, nx, ny); } }
        if let (Some(_), K::Ite(c, x, y)) = (self.as_const(a), self.k(b).clone()) { if self.as_const(x).is_some() || self.as_const(y).is_some() { let nx = self.ult(a, x); let ny = self.ult(a, y); return self.ite(c, nx, ny); } }
        self.mk(K::Ult(a, b), 1)
    }
    pub fn slt(&mut self, a: E, b: E) -> E {
        let w = self.w(a);
        if a == b { return self.konst(0, 1); }
        if let (Some(x), Some(y)) = (self.as_const(a), self.as_const(b)) { return self.konst((sext128(x, w) < sext128(y, w)) as u128, 1); }
        if (self.ones(a) | self.ones(b)) >> (w - 1) & 1 == 0 { return self.ult(a, b); }
        if let Some(r) = self.try_tab2(TOp::Slt, w, 1, a, b) { return r; }
        if let Some(0) = self.as_const(b) { return self.ext(a, w - 1, 1); }
        if self.as_const(a) == Some(mask128(w)) { let s = self.ext(b, w - 1, 1); return self.not(s); }
        if let (K::Ite(c, x, y), Some(_)) = (self.k(a).clone(), self.as_const(b)) { if self.as_const(x).is_some() || self.as_const(y).is_some() { let nx = self.slt(x, b); let ny = self.slt(y, b); return self.ite(c, nx, ny); } }
        if let (Some(_), K::Ite(c, x, y)) = (self.as_const(a), self.k(b).clone()) { if self.as_const(x).is_some() || self.as_const(y).is_some() { let nx = self.slt(a, x); let ny = self.slt(a, y); return self.ite(c, nx, ny); } }
        self.mk(K::Slt(a, b), 1)
    }
    pub fn ule(&mut self, a: E, b: E) -> E { let x = self.ult(b, a); self.not(x) }
    pub fn sle(&mut self, a: E, b: E) -> E { let x = self.slt(b, a); self.not(x) }

    // ---- evaluation ----
    pub fn eval(&self, e: E, model: &[u8]) -> u128 { let mut memo = HashMap::new(); self.eval_m(e, model, &mut memo) }
    pub fn eval_m(&self, e: E, model: &[u8], memo: &mut HashMap<E, u128>) -> u128 {
        match self.k(e) { K::Const(c) => return *c, K::Var(i) => return *model.get(*i as usize).unwrap_or(&0) as u128, _ => {} }
        if let Some(v) = memo.get(&e) { return *v; }
        let w = self.w(e);
        let r = match self.k(e) {
            K::Tab(t, b) => { let i = self.eval_m(*b, model, memo); self.tabs[*t as usize][i as usize] as u128 }
            K::Bin(op, a, b) => { let x = self.eval_m(*a, model, memo); let y = self.eval_m(*b, model, memo); bin_conc(*op, w, x, y) }
            K::Eq(a, b) => (self.eval_m(*a, model, memo) == self.eval_m(*b, model, memo)) as u128,
            K::Ult(a, b) => (self.eval_m(*a, model, memo) < self.eval_m(*b, model, memo)) as u128,
            K::Slt(a, b) => { let wa = self.w(*a); (sext128(self.eval_m(*a, model, memo), wa) < sext128(self.eval_m(*b, model, memo), wa)) as u128 }
            K::Ite(c, a, b) => if self.eval_m(*c, model, memo) == 1 { self.eval_m(*a, model, memo) } else { self.eval_m(*b, model, memo) },
            K::Cat(ps) => { let mut s = 0; let mut r = 0u128; for &p in ps.iter() { r |= self.eval_m(p, model, memo) << s; s += self.w(p); } r }
            K::Ext(a, lo) => (self.eval_m(*a, model, memo) >> lo) & mask128(w),
            K::SExt(a) => { let wa = self.w(*a); sext128(self.eval_m(*a, model, memo), wa) as u128 & mask128(w) }
            _ => unreachable!(),
        };
        memo.insert(e, r); r
    }
    /// value of one node from the values of its operands
    pub fn eval_node(&self, e: E, model: &[u8], val: &[u128]) -> u128 {
        let w = self.w(e); let g = |x: &E| val[*x as usize];
        match self.k(e) {
            K::Const(c) => *c, K::Var(i) => *model.get(*i as usize).unwrap_or(&0) as u128,
            K::Tab(t, b) => self.tabs[*t as usize][g(b) as usize] as u128,
            K::Bin(op, a, b) => bin_conc(*op, w, g(a), g(b)),
            K::Eq(a, b) => (g(a) == g(b)) as u128,
            K::Ult(a, b) => (g(a) < g(b)) as u128,
            K::Slt(a, b) => { let wa = self.w(*a); (sext128(g(a), wa) < sext128(g(b), wa)) as u128 }
            K::Ite(c, a, b) => if g(c) == 1 { g(a) } else { g(b) },
            K::Cat(ps) => { let mut s = 0; let mut r = 0u128; for p in ps.iter() { r |= g(p) << s; s += self.w(*p); } r }
            K::Ext(a, lo) => (g(a) >> lo) & mask128(w),
            K::SExt(a) => { let wa = self.w(*a); sext128(g(a), wa) as u128 & mask128(w) }
        }
    }
    /// for a boolean function of one variable: (var, truth bitmap)
    pub fn single_truth(&mut self, e: E) -> Option<(u32, [u64; 4])> {
        let v = self.vsets[self.vs(e) as usize].clone();
        if v.len() != 1 { return None; }
        if let Some(t) = self.truth.get(&e) { return Some((v[0], *t)); }
        let mut bm = [0u64; 4];
        if let K::Tab(t, b) = self.k(e) { if self.is_var(*b) { let tt = &self.tabs[*t as usize]; for i in 0..256 { if tt[i] == 1 { bm[i / 64] |= 1 << (i % 64); } } self.truth.insert(e, bm); return Some((v[0], bm)); } }
        let mut model = vec![0u8; v[0] as usize + 1];
        for i in 0..256 { model[v[0] as usize] = i as u8; if self.eval(e, &model) == 1 { bm[i / 64] |= 1 << (i % 64); } }
        self.truth.insert(e, bm);
        Some((v[0], bm))
    }
}

pub fn bit_runs(c: u128, w: u32) -> Vec<(u32, u32, bool)> {
    let mut out = vec![]; let mut i = 0;
    while i < w { let b = (c >> i) & 1 == 1; let s = i; while i < w && ((c >> i) & 1 == 1) == b { i += 1; } out.push((s, i - s, b)); }
    out
}
