//! Parser for textual LLVM IR (LLVM 18+ syntax, opaque pointers) into a compact form for execution.
use crate::val::Val;
use std::collections::HashMap;
use std::rc::Rc;

pub type TyId = u32;

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum Ty {
    Void,
    Int(u32),
    Ptr,
    Float(u32), // 16, 32, 64, 80, 128
    Array(u64, TyId),
    Struct(Vec<TyId>, bool),
    Vector(u32, TyId),
    Func,
    Other,
}

#[derive(Clone, Debug)]
pub enum Op {
    Reg(u32),
    C(Val),
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum BinOp { Add, Sub, Mul, UDiv, SDiv, URem, SRem, And, Or, Xor, Shl, LShr, AShr }
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Pred { Eq, Ne, Ugt, Uge, Ult, Ule, Sgt, Sge, Slt, Sle }
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum CastOp { Trunc, ZExt, SExt, PtrToInt, IntToPtr, Bitcast, FpToUi, FpToSi, UiToFp, SiToFp, FpExt, FpTrunc, Freeze }
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum FBin { Add, Sub, Mul, Div, Rem, Neg }
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Rmw { Xchg, Add, Sub, And, Nand, Or, Xor, Max, Min, UMax, UMin }

#[derive(Debug)]
pub enum Callee { Direct(u32), Indirect(Op), Asm(String) }

#[derive(Debug)]
pub enum Inst {
    Bin { op: BinOp, w: u32, lanes: u32, dst: u32, a: Op, b: Op },
    ICmp { pred: Pred, w: u32, lanes: u32, dst: u32, a: Op, b: Op },
    FBin { op: FBin, w: u32, lanes: u32, dst: u32, a: Op, b: Op },
    FCmp { pred: String, w: u32, dst: u32, a: Op, b: Op },
    Cast { op: CastOp, from: TyId, to: TyId, dst: u32, a: Op },
    Load { ty: TyId, dst: u32, ptr: Op },
    Store { ty: TyId, val: Op, ptr: Op },
    Alloca { dst: u32, size: u64, count: Op },
    Gep { dst: u32, base: Op, off: u64, terms: Vec<(Op, u32, u64)> },
    Select { dst: u32, ty: TyId, cty: TyId, c: Op, a: Op, b: Op },
    ExtractValue { dst: u32, a: Op, path: Vec<u32> },
    InsertValue { dst: u32, ty: TyId, a: Op, v: Op, path: Vec<u32> },
    ExtractElement { dst: u32, a: Op, idx: Op },
    InsertElement { dst: u32, ty: TyId, a: Op, v: Op, idx: Op },
    Shuffle { dst: u32, a: Op, b: Op, n: u32, mask: Vec<i32> },
    Call { dst: Option<u32>, rty: TyId, callee: Callee, args: Vec<(Op, TyId, u64)>, normal: Option<u32> },
    AtomicRmw { op: Rmw, dst: u32, w: u32, ty: TyId, ptr: Op, val: Op },
    CmpXchg { dst: u32, ty: TyId, ptr: Op, cmp: Op, new: Op },
    Br { e: u32 },
    CondBr { c: Op, t: u32, f: u32 },
    Switch { v: Op, w: u32, default: u32, cases: Vec<(u128, u32)>, small: Option<HashMap<u64, u32>> },
    Ret { v: Option<Op>, ty: TyId },
    Unreachable,
    Nop,
}

#[derive(Debug)]
pub struct Edge { pub block: u32, pub moves: Vec<(u32, Op)> }

pub struct Func {
    pub name: String,
    pub nregs: u32,
    pub nparams: u32,
    pub varargs: bool,
    pub blocks: Vec<Vec<Inst>>,
    pub edges: Vec<Edge>,
    pub defined: bool,
    pub entry_edge: u32,
}

pub struct Global { pub name: String, pub ty: TyId, pub constant: bool, pub init: Option<Vec<u8>>, pub relocs: (), pub size: u64, pub obj: u32 }

pub struct Module {
    pub tys: Vec<Ty>,
    tyidx: HashMap<Ty, TyId>,
    named: HashMap<String, TyId>,
    pub globals: Vec<Global>,
    pub gidx: HashMap<String, u32>,
    pub funcs: Vec<Func>,
    pub fidx: HashMap<String, u32>,
    pub aliases: HashMap<String, String>,
    pub funcobj_base: u32,
    layout_cache: std::cell::RefCell<HashMap<TyId, (u64, u64)>>,
}

pub const OBJ_SHIFT: u32 = 32;

impl Module {
    pub fn ty(&self, t: TyId) -> &Ty { &self.tys[t as usize] }
    fn intern(&mut self, t: Ty) -> TyId {
        if let Some(&i) = self.tyidx.get(&t) { return i; }
        let i = self.tys.len() as u32;
        self.tys.push(t.clone());
        self.tyidx.insert(t, i);
        i
    }
    pub fn size_align(&self, t: TyId) -> (u64, u64) {
        if let Some(&r) = self.layout_cache.borrow().get(&t) { return r; }
        let r = match &self.tys[t as usize] {
            Ty::Void | Ty::Func | Ty::Other => (0, 1),
            Ty::Int(w) => {
                let b = ((*w as u64) + 7) / 8;
                let a = b.next_power_of_two().min(16).max(1);
                ((b + a - 1) / a * a, a)
            }
            Ty::Ptr => (8, 8),
            Ty::Float(w) => match w { 16 => (2, 2), 32 => (4, 4), 64 => (8, 8), _ => (16, 16) },
            Ty::Array(n, e) => { let (s, a) = self.size_align(*e); (s * n, a) }
            Ty::Vector(n, e) => {
                let bits = match &self.tys[*e as usize] { Ty::Int(w) => *w as u64, Ty::Ptr => 64, Ty::Float(w) => *w as u64, _ => 8 };
                let s = (bits * *n as u64 + 7) / 8;
                let a = s.next_power_of_two().max(1);
                ((s + a - 1) / a * a, a)
            }
            Ty::Struct(fs, packed) => {
                let mut off = 0u64; let mut al = 1u64;
                for f in fs { let (s, a) = self.size_align(*f); let a = if *packed { 1 } else { a }; al = al.max(a); off = (off + a - 1) / a * a + s; }
                ((off + al - 1) / al * al, al)
            }
        };
        self.layout_cache.borrow_mut().insert(t, r);
        r
    }
    pub fn field_off(&self, t: TyId, i: u64) -> (u64, TyId) {
        match &self.tys[t as usize] {
            Ty::Struct(fs, packed) => {
                let mut off = 0u64;
                for (k, f) in fs.iter().enumerate() {
                    let (s, a) = self.size_align(*f); let a = if *packed { 1 } else { a };
                    off = (off + a - 1) / a * a;
                    if k as u64 == i { return (off, *f); }
                    off += s;
                }
                panic!("field index")
            }
            Ty::Array(_, e) => (self.size_align(*e).0.wrapping_mul(i), *e),
            Ty::Vector(_, e) => {
                let bits = match &self.tys[*e as usize] { Ty::Int(w) => *w as u64, Ty::Ptr => 64, Ty::Float(w) => *w as u64, _ => 8 };
                ((bits / 8).wrapping_mul(i), *e)
            }
            _ => panic!("field_off of {:?}", self.tys[t as usize]),
        }
    }
    pub fn int_width(&self, t: TyId) -> u32 {
        match &self.tys[t as usize] { Ty::Int(w) => *w, Ty::Ptr => 64, Ty::Float(w) => *w, x => panic!("int_width {:?}", x) }
    }
    pub fn lanes(&self, t: TyId) -> (u32, u32) { // (lanes or 0, width)
        match &self.tys[t as usize] { Ty::Vector(n, e) => (*n, self.int_width(*e)), _ => (0, self.int_width(t)) }
    }
    pub fn zero(&self, t: TyId) -> Val {
        match &self.tys[t as usize] {
            Ty::Array(n, e) => { let z = self.zero(*e); Val::A(Rc::from(vec![z; *n as usize])) }
            Ty::Vector(n, e) => { let z = self.zero(*e); Val::A(Rc::from(vec![z; *n as usize])) }
            Ty::Struct(fs, _) => Val::A(Rc::from(fs.iter().map(|f| self.zero(*f)).collect::<Vec<_>>())),
            _ => Val::C(0),
        }
    }
    pub fn func_addr(&self, f: u32) -> u64 { ((self.funcobj_base + f) as u64) << OBJ_SHIFT }
    pub fn addr_of_sym(&self, n: &str) -> Option<u64> {
        let n = self.aliases.get(n).map(|s| s.as_str()).unwrap_or(n);
        if let Some(&g) = self.gidx.get(n) { return Some((self.globals[g as usize].obj as u64) << OBJ_SHIFT); }
        if let Some(&f) = self.fidx.get(n) { return Some(self.func_addr(f)); }
        None
    }
    /// serialise a constant into bytes at `off` (all-concrete)
    pub fn write_const(&self, t: TyId, v: &Val, out: &mut [u8]) {
        match (&self.tys[t as usize], v) {
            (Ty::Array(_, e), Val::A(xs)) => { let s = self.size_align(*e).0 as usize; for (i, x) in xs.iter().enumerate() { self.write_const(*e, x, &mut out[i * s..]); } }
            (Ty::Vector(_, e), Val::A(xs)) => {
                let w = self.int_width(*e) as usize;
                if w % 8 == 0 { for (i, x) in xs.iter().enumerate() { self.write_const(*e, x, &mut out[i * w / 8..]); } }
                else { for (i, x) in xs.iter().enumerate() { if x.c128() & 1 != 0 { out[i / 8] |= 1 << (i % 8); } } }
            }
            (Ty::Struct(fs, _), Val::A(xs)) => { for (i, x) in xs.iter().enumerate() { let (o, ft) = self.field_off(t, i as u64); let _ = fs; self.write_const(ft, x, &mut out[o as usize..]); } }
            (Ty::Void, _) | (Ty::Other, _) => {}
            (_, v) => {
                let n = ((self.int_width(t) + 7) / 8) as usize;
                let b = v.c128().to_le_bytes();
                out[..n].copy_from_slice(&b[..n]);
            }
        }
    }
}

pub struct P<'a> { s: &'a [u8], i: usize }

fn is_id(c: u8) -> bool { c.is_ascii_alphanumeric() || c == b'_' || c == b'.' || c == b'$' || c == b'-' }

impl<'a> P<'a> {
    fn ws(&mut self) {
        loop {
            while self.i < self.s.len() && (self.s[self.i] as char).is_ascii_whitespace() { self.i += 1; }
            if self.i < self.s.len() && self.s[self.i] == b';' { while self.i < self.s.len() && self.s[self.i] != b'\n' { self.i += 1; } } else { return; }
        }
    }
    /// whitespace on the current line only
    fn hs(&mut self) { while self.i < self.s.len() && (self.s[self.i] == b' ' || self.s[self.i] == b'\t') { self.i += 1; } }
    fn peek(&mut self) -> u8 { self.ws(); if self.i < self.s.len() { self.s[self.i] } else { 0 } }
    fn err(&self, m: &str) -> ! {
        let a = self.i.saturating_sub(200); let b = (self.i + 120).min(self.s.len());
        panic!("parse error: {} near:\n{}\n<<<HERE>>>\n{}", m, String::from_utf8_lossy(&self.s[a..self.i]), String::from_utf8_lossy(&self.s[self.i..b]))
    }
    fn eat(&mut self, c: u8) -> bool { if self.peek() == c { self.i += 1; true } else { false } }
    fn expect(&mut self, c: u8) { if !self.eat(c) { self.err(&format!("expected {}", c as char)) } }
    fn word_at(&mut self) -> &'a str {
        self.ws();
        let st = self.i; let mut j = st;
        while j < self.s.len() && is_id(self.s[j]) { j += 1; }
        std::str::from_utf8(&self.s[st..j]).unwrap()
    }
    fn word(&mut self) -> &'a str { let w = self.word_at(); self.i += w.len(); w }
    fn eat_word(&mut self, w: &str) -> bool { if self.word_at() == w { self.i += w.len(); true } else { false } }
    fn expect_word(&mut self, w: &str) { if !self.eat_word(w) { self.err(&format!("expected {}", w)) } }
    fn quoted(&mut self) -> String { // at '"'
        self.i += 1; let mut out = Vec::new();
        while self.s[self.i] != b'"' {
            if self.s[self.i] == b'\\' {
                if self.s[self.i + 1] == b'\\' { out.push(b'\\'); self.i += 2; continue; }
                let h = std::str::from_utf8(&self.s[self.i + 1..self.i + 3]).unwrap();
                out.push(u8::from_str_radix(h, 16).unwrap()); self.i += 3;
            } else { out.push(self.s[self.i]); self.i += 1; }
        }
        self.i += 1;
        unsafe { String::from_utf8_unchecked(out) }
    }
    /// name after sigil (sigil consumed)
    fn name(&mut self) -> String {
        if self.s[self.i] == b'"' { return self.quoted(); }
        let st = self.i; while self.i < self.s.len() && is_id(self.s[self.i]) { self.i += 1; }
        String::from_utf8_lossy(&self.s[st..self.i]).into_owned()
    }
    fn skip_balanced(&mut self) { // at '(' '[' '{' or '<'
        let mut d = 0;
        loop {
            match self.s[self.i] {
                b'(' | b'[' | b'{' => d += 1,
                b')' | b']' | b'}' => { d -= 1; if d == 0 { self.i += 1; return; } }
                b'"' => { self.quoted(); continue; }
                _ => {}
            }
            self.i += 1;
        }
    }
    fn skip_line(&mut self) { while self.i < self.s.len() && self.s[self.i] != b'\n' { self.i += 1; } }
    fn rest_of_line(&mut self) { self.skip_line() }
}

struct FnCtx { regs: HashMap<String, u32>, blocks: HashMap<String, u32>, nblocks: u32 }
impl FnCtx {
    fn reg(&mut self, n: &str) -> u32 { if let Some(&r) = self.regs.get(n) { return r; } let r = self.regs.len() as u32; self.regs.insert(n.to_string(), r); r }
    fn block(&mut self, n: &str) -> u32 { if let Some(&r) = self.blocks.get(n) { return r; } let r = self.nblocks; self.nblocks += 1; self.blocks.insert(n.to_string(), r); r }
}

pub fn mask128(w: u32) -> u128 { if w >= 128 { u128::MAX } else { (1u128 << w) - 1 } }

pub struct Parser<'a> { p: P<'a>, pub m: Module }

impl<'a> Parser<'a> {
    pub fn parse(text: &'a str) -> Module {
        let m = Module { tys: vec![], tyidx: HashMap::new(), named: HashMap::new(), globals: vec![], gidx: HashMap::new(), funcs: vec![], fidx: HashMap::new(), aliases: HashMap::new(), funcobj_base: 0, layout_cache: Default::default() };
        let mut s = Parser { p: P { s: text.as_bytes(), i: 0 }, m };
        s.scan(text);
        s.m
    }
    fn scan(&mut self, text: &'a str) {
        // pass 1: symbol names
        let mut def_pos: Vec<(usize, bool)> = vec![];
        let mut glob_pos: Vec<(usize, u32)> = vec![];
        let mut pos = 0usize;
        let mut type_lines: Vec<usize> = vec![];
        for line in text.split_inclusive('\n') {
            if line.starts_with("define ") || line.starts_with("declare ") { def_pos.push((pos, line.starts_with("define "))); }
            else if line.starts_with('@') { glob_pos.push((pos, 0)); }
            else if line.starts_with('%') && line.contains(" = type ") { type_lines.push(pos); }
            pos += line.len();
        }
        for t in type_lines {
            self.p.i = t + 1; let n = self.p.name(); self.p.expect(b'='); self.p.expect_word("type");
            let id = self.parse_ty(); self.m.named.insert(n, id);
        }
        let mut nextobj = 16u32;
        let mut gparse: Vec<(usize, u32)> = vec![];
        for (pos, _) in &glob_pos {
            self.p.i = pos + 1; let n = self.p.name(); self.p.expect(b'=');
            let save = self.p.i;
            // alias?
            let mut is_alias = false;
            for _ in 0..10 { let w = self.p.word(); if w == "alias" { is_alias = true; break; } if w == "global" || w == "constant" || w.is_empty() { break; } if self.p.peek() == b'(' { self.p.skip_balanced(); } }
            if is_alias {
                let _ = self.parse_ty(); self.p.expect(b','); let _ = self.parse_ty();
                if self.p.peek() == b'@' { self.p.i += 1; let t = self.p.name(); self.m.aliases.insert(n, t); }
                continue;
            }
            let gi = self.m.globals.len() as u32;
            self.m.globals.push(Global { name: n.clone(), ty: 0, constant: false, init: None, relocs: (), size: 0, obj: nextobj });
            nextobj += 1;
            self.m.gidx.insert(n, gi);
            gparse.push((save, gi));
        }
        self.m.funcobj_base = nextobj;
        let mut fheads = vec![];
        for (pos, isdef) in &def_pos {
            // find name: first '@' on the line outside of quotes/parens before '('
            let mut j = *pos; let s = text.as_bytes(); let mut depth = 0;
            loop { match s[j] { b'@' if depth == 0 => break, b'(' => depth += 1, b')' => depth -= 1, b'"' => { j += 1; while s[j] != b'"' { j += 1; } } _ => {} } j += 1; }
            self.p.i = j + 1; let n = self.p.name();
            let fi = self.m.funcs.len() as u32;
            self.m.funcs.push(Func { name: n.clone(), nregs: 0, nparams: 0, varargs: false, blocks: vec![], edges: vec![], defined: *isdef, entry_edge: 0 });
            self.m.fidx.insert(n, fi);
            fheads.push((*pos, *isdef, self.p.i, fi));
        }
        for (pos, gi) in gparse { self.parse_global(pos, gi); }
        for (_, isdef, after_name, fi) in fheads { if isdef { self.parse_func(after_name, fi); } }
    }
    fn parse_global(&mut self, pos: usize, gi: u32) {
        self.p.i = pos;
        let constant;
        let mut external = false;
        loop {
            let w = self.p.word();
            match w {
                "global" => { constant = false; break; }
                "constant" => { constant = true; break; }
                "external" | "extern_weak" => { external = true; }
                "" => self.p.err("global"),
                _ => { if self.p.s[self.p.i] == b'(' { self.p.skip_balanced(); } }
            }
        }
        let ty = self.parse_ty();
        let size = self.m.size_align(ty).0;
        let init = if external { None } else {
            let v = self.parse_const(ty);
            let mut b = vec![0u8; size as usize];
            self.m.write_const(ty, &v, &mut b);
            Some(b)
        };
        let g = &mut self.m.globals[gi as usize];
        g.ty = ty; g.constant = constant; g.size = size; g.init = init;
    }
    pub fn parse_ty(&mut self) -> TyId {
        let c = self.p.peek();
        let t = match c {
            b'{' => { self.p.i += 1; let mut fs = vec![]; if !self.p.eat(b'}') { loop { fs.push(self.parse_ty()); if self.p.eat(b'}') { break; } self.p.expect(b','); } } self.m.intern(Ty::Struct(fs, false)) }
            b'<' => {
                self.p.i += 1;
                if self.p.peek() == b'{' { self.p.i += 1; let mut fs = vec![]; if !self.p.eat(b'}') { loop { fs.push(self.parse_ty()); if self.p.eat(b'}') { break; } self.p.expect(b','); } } self.p.expect(b'>'); self.m.intern(Ty::Struct(fs, true)) }
                else { let n: u32 = self.p.word().parse().unwrap(); self.p.expect_word("x"); let e = self.parse_ty(); self.p.expect(b'>'); self.m.intern(Ty::Vector(n, e)) }
            }
            b'[' => { self.p.i += 1; let n: u64 = self.p.word().parse().unwrap(); self.p.expect_word("x"); let e = self.parse_ty(); self.p.expect(b']'); self.m.intern(Ty::Array(n, e)) }
            b'%' => { self.p.i += 1; let n = self.p.name(); match self.m.named.get(&n) { Some(&t) => t, None => self.p.err(&format!("named type {}", n)) } }
            _ => {
                let w = self.p.word();
                match w {
                    "void" => self.m.intern(Ty::Void),
                    "ptr" => { if self.p.s[self.p.i..].starts_with(b" addrspace") { self.p.word(); self.p.ws(); self.p.skip_balanced(); } self.m.intern(Ty::Ptr) }
                    "half" | "bfloat" => self.m.intern(Ty::Float(16)),
                    "float" => self.m.intern(Ty::Float(32)),
                    "double" => self.m.intern(Ty::Float(64)),
                    "x86_fp80" => self.m.intern(Ty::Float(80)),
                    "fp128" => self.m.intern(Ty::Float(128)),
                    "metadata" | "label" | "token" => self.m.intern(Ty::Other),
                    _ if w.starts_with('i') && w[1..].parse::<u32>().is_ok() => { let n = w[1..].parse().unwrap(); self.m.intern(Ty::Int(n)) }
                    _ => self.p.err(&format!("type '{}'", w)),
                }
            }
        };
        t
    }
    fn parse_const(&mut self, ty: TyId) -> Val {
        match self.parse_operand(ty, None) { Op::C(v) => v, _ => self.p.err("const expected") }
    }
    fn fixw(&self, ty: TyId, v: u128) -> Val {
        let w = match self.m.ty(ty) { Ty::Int(w) => *w, Ty::Ptr => 64, Ty::Float(w) => *w, _ => 64 };
        Val::from128(v & mask128(w))
    }
    fn parse_operand(&mut self, ty: TyId, f: Option<&mut FnCtx>) -> Op {
        let c = self.p.peek();
        match c {
            b'%' => { self.p.i += 1; let n = self.p.name(); match f { Some(f) => Op::Reg(f.reg(&n)), None => self.p.err("reg in const") } }
            b'@' => {
                self.p.i += 1; let n = self.p.name();
                match self.m.addr_of_sym(&n) { Some(a) => Op::C(Val::C(a)), None => self.p.err(&format!("unknown symbol {}", n)) }
            }
            b'[' | b'{' => {
                self.p.i += 1; let close = if c == b'[' { b']' } else { b'}' };
                let mut xs = vec![]; if !self.p.eat(close) { loop { let t = self.parse_ty(); xs.push(self.parse_const(t)); if self.p.eat(close) { break; } self.p.expect(b','); } }
                Op::C(Val::A(Rc::from(xs)))
            }
            b'<' => {
                self.p.i += 1;
                let packed = self.p.eat(b'{');
                let close = if packed { b'}' } else { b'>' };
                let mut xs = vec![]; if !self.p.eat(close) { loop { let t = self.parse_ty(); xs.push(self.parse_const(t)); if self.p.eat(close) { break; } self.p.expect(b','); } }
                if packed { self.p.expect(b'>'); }
                Op::C(Val::A(Rc::from(xs)))
            }
            b'-' | b'+' | b'0'..=b'9' => {
                let st = self.p.i; self.p.i += 1;
                while is_id(self.p.s[self.p.i]) || self.p.s[self.p.i] == b'+' { self.p.i += 1; }
                let t = std::str::from_utf8(&self.p.s[st..self.p.i]).unwrap();
                let isf = matches!(self.m.ty(ty), Ty::Float(_));
                if isf { return Op::C(self.float_const(ty, t)); }
                if let Some(h) = t.strip_prefix("0x") { return Op::C(self.fixw(ty, u128::from_str_radix(h, 16).unwrap())); }
                let v: u128 = if let Some(n) = t.strip_prefix('-') { (n.parse::<u128>().unwrap() as i128).wrapping_neg() as u128 } else { t.parse::<u128>().unwrap_or_else(|_| panic!("int {}", t)) };
                Op::C(self.fixw(ty, v))
            }
            b'c' if self.p.s[self.p.i + 1] == b'"' => {
                self.p.i += 1; let s = self.p.quoted();
                Op::C(Val::A(Rc::from(s.as_bytes().iter().map(|b| Val::C(*b as u64)).collect::<Vec<_>>())))
            }
            b'!' => { // metadata operand
                self.p.i += 1; if self.p.s[self.p.i] == b'{' || self.p.s[self.p.i] == b'"' { if self.p.s[self.p.i] == b'"' { self.p.quoted(); } else { self.p.skip_balanced(); } } else { self.p.name(); if self.p.s[self.p.i] == b'(' { self.p.skip_balanced(); } }
                Op::C(Val::C(0))
            }
            _ => {
                let w = self.p.word();
                match w {
                    "true" => Op::C(Val::C(1)),
                    "false" | "null" | "none" => Op::C(Val::C(0)),
                    "undef" | "poison" | "zeroinitializer" => Op::C(self.m.zero(ty)),
                    "splat" => {
                        self.p.expect(b'('); let t = self.parse_ty(); let v = self.parse_const(t); self.p.expect(b')');
                        let n = match self.m.ty(ty) { Ty::Vector(n, _) => *n as usize, Ty::Array(n, _) => *n as usize, _ => self.p.err("splat") };
                        Op::C(Val::A(Rc::from(vec![v; n])))
                    }
                    "getelementptr" => {
                        while matches!(self.p.word_at(), "inbounds" | "nuw" | "nusw" | "inrange") { let w = self.p.word(); if w == "inrange" && self.p.peek() == b'(' { self.p.skip_balanced(); } }
                        self.p.expect(b'('); let et = self.parse_ty(); self.p.expect(b',');
                        let pt = self.parse_ty(); let base = self.parse_const(pt);
                        let mut a = base.c64(); let mut t = et; let mut first = true;
                        while self.p.eat(b',') {
                            let it = self.parse_ty(); let iv = self.parse_const(it); let iw = self.m.int_width(it);
                            let i = sext128(iv.c128(), iw) as i64 as u64;
                            if first { a = a.wrapping_add(self.m.size_align(et).0.wrapping_mul(i)); first = false; }
                            else { let (o, nt) = self.m.field_off(t, i); a = a.wrapping_add(o); t = nt; }
                        }
                        self.p.expect(b')');
                        Op::C(Val::C(a))
                    }
                    "ptrtoint" | "inttoptr" | "bitcast" | "trunc" | "addrspacecast" | "ptrtoaddr" => {
                        while matches!(self.p.word_at(), "nuw" | "nsw") { self.p.word(); }
                        self.p.expect(b'('); let t = self.parse_ty(); let v = self.parse_const(t); self.p.expect_word("to"); let t2 = self.parse_ty(); self.p.expect(b')');
                        let x = v.c128(); Op::C(self.fixw(t2, x))
                    }
                    "add" | "sub" | "xor" | "mul" => {
                        while matches!(self.p.word_at(), "nuw" | "nsw") { self.p.word(); }
                        self.p.expect(b'('); let t = self.parse_ty(); let a = self.parse_const(t).c128(); self.p.expect(b','); let t2 = self.parse_ty(); let b = self.parse_const(t2).c128(); self.p.expect(b')');
                        let r = match w { "add" => a.wrapping_add(b), "sub" => a.wrapping_sub(b), "mul" => a.wrapping_mul(b), _ => a ^ b };
                        Op::C(self.fixw(t, r))
                    }
                    _ if matches!(self.m.ty(ty), Ty::Float(_)) => Op::C(self.float_const(ty, w)),
                    _ => self.p.err(&format!("operand '{}'", w)),
                }
            }
        }
    }
    fn float_const(&self, ty: TyId, t: &str) -> Val {
        let w = self.m.int_width(ty);
        let bits64: u64 = if let Some(h) = t.strip_prefix("0x") {
            if h.starts_with('H') || h.starts_with('K') || h.starts_with('L') { return Val::C(0); }
            u64::from_str_radix(h, 16).unwrap()
        } else if let Some(h) = t.strip_prefix("f0x") {
            return Val::from128(u128::from_str_radix(h, 16).unwrap());
        } else if t.ends_with("inf") { if t.starts_with('-') { f64::NEG_INFINITY.to_bits() } else { f64::INFINITY.to_bits() }
        } else if t.contains("nan") { f64::NAN.to_bits()
        } else { t.parse::<f64>().unwrap_or_else(|_| panic!("float const {}", t)).to_bits() };
        if w == 32 { Val::C((f64::from_bits(bits64) as f32).to_bits() as u64) } else { Val::C(bits64) }
    }
    fn skip_attrs(&mut self) {
        // skip parameter/return attributes until an operand or type start
        loop {
            let c = self.p.peek();
            if c == b'%' || c == b'@' || c == b'<' || c == b'{' || c == b'[' || c == b'-' || c == b'+' || c.is_ascii_digit() || c == b'!' || c == b',' || c == b')' { return; }
            if c == b'"' { self.p.quoted(); if self.p.s[self.p.i] == b'=' { self.p.i += 1; self.p.quoted(); } continue; }
            if c == b'c' && self.p.s[self.p.i + 1] == b'"' { return; }
            if c == b'#' { self.p.i += 1; self.p.word(); continue; }
            let w = self.p.word_at();
            if w.is_empty() { self.p.err("attr"); }
            match w {
                "true" | "false" | "null" | "none" | "undef" | "poison" | "zeroinitializer" | "splat" | "getelementptr" | "ptrtoint" | "inttoptr" | "bitcast" | "trunc" | "add" | "sub" | "xor" | "mul" | "ptrtoaddr" | "nan" | "inf" => return,
                "void" | "ptr" | "half" | "float" | "double" | "fp128" | "x86_fp80" | "metadata" | "token" | "label" => return,
                "f0x" => return,
                _ if w.starts_with('i') && w.len() > 1 && w[1..].bytes().all(|b| b.is_ascii_digit()) => return,
                _ if w.starts_with("f0x") => return,
                "align" => { self.p.word(); if self.p.peek() == b'(' { self.p.skip_balanced(); } else { self.p.word(); } continue; }
                _ => { self.p.word(); if self.p.s[self.p.i] == b'(' { self.p.skip_balanced(); } }
            }
        }
    }
    /// attributes, reporting a byval type size
    fn skip_param_attrs(&mut self) -> u64 {
        let st = self.p.i; self.skip_attrs(); let en = self.p.i;
        let txt = std::str::from_utf8(&self.p.s[st..en]).unwrap();
        if let Some(k) = txt.find("byval(") { let save = self.p.i; self.p.i = st + k + 6; let t = self.parse_ty(); self.p.i = save; return self.m.size_align(t).0; }
        0
    }
    fn parse_func(&mut self, after_name: usize, fi: u32) {
        self.p.i = after_name;
        let mut fc = FnCtx { regs: HashMap::new(), blocks: HashMap::new(), nblocks: 0 };
        self.p.expect(b'(');
        let mut np = 0u32; let mut unnamed = 0u32;
        let mut varargs = false;
        if !self.p.eat(b')') {
            loop {
                if self.p.s[self.p.i..].starts_with(b"...") || (self.p.peek() == b'.' ) { self.p.i += 3; varargs = true; self.p.expect(b')'); break; }
                let _t = self.parse_ty(); self.skip_attrs();
                if self.p.peek() == b'%' { self.p.i += 1; let n = self.p.name(); fc.reg(&n); } else { fc.reg(&format!("{}", unnamed)); }
                unnamed += 1;
                np += 1;
                if self.p.eat(b')') { break; } self.p.expect(b',');
            }
        }
        // to '{' at end of line
        let mut j = self.p.i; while self.p.s[j] != b'\n' { j += 1; }
        self.p.i = j + 1;
        let mut blocks: Vec<Vec<Inst>> = vec![];
        let mut edges: Vec<Edge> = vec![];
        let mut phis: HashMap<u32, Vec<(u32, Vec<(Op, u32)>)>> = HashMap::new(); // block -> (dst, [(val, pred)])
        let mut edge_from: Vec<u32> = vec![];
        // entry block label: the implicit label is the next unnamed number; detect if explicit
        let mut cur: Option<u32> = None;
        let implicit_entry = format!("{}", np);
        let mut body: Vec<Inst> = vec![];
        let mut done: HashMap<u32, Vec<Inst>> = HashMap::new();
        let mut entry_block = 0u32; let mut have_entry = false;
        loop {
            self.p.ws();
            let c = self.p.s[self.p.i];
            if c == b'}' { self.p.i += 1; break; }
            // label?
            let save = self.p.i;
            let lab = if c == b'"' { let n = self.p.quoted(); if self.p.s[self.p.i] == b':' { self.p.i += 1; Some(n) } else { self.p.i = save; None } }
                else if is_id(c) { let w = self.p.word(); if self.p.s[self.p.i] == b':' { let w = w.to_string(); self.p.i += 1; Some(w) } else { self.p.i = save; None } } else { None };
            if let Some(l) = lab {
                if let Some(b) = cur { done.insert(b, std::mem::take(&mut body)); }
                let b = fc.block(&l); cur = Some(b);
                if !have_entry { entry_block = b; have_entry = true; }
                continue;
            }
            if cur.is_none() { let b = fc.block(&implicit_entry); cur = Some(b); entry_block = b; have_entry = true; }
            let curb = cur.unwrap();
            let mut mk_edge = |edges: &mut Vec<Edge>, to: u32| -> u32 { edges.push(Edge { block: to, moves: vec![] }); edge_from.push(curb); (edges.len() - 1) as u32 };
            let st = self.p.i;
            if let Some(i) = self.parse_inst(&mut fc, &mut edges, &mut mk_edge, &mut phis, curb) { body.push(i); }
            let txt = &self.p.s[st..self.p.i];
            if txt.contains(&b'\n') { let t = String::from_utf8_lossy(txt); if !(t.contains("switch ") || t.contains("landingpad") || t.contains("invoke ") || t.contains("callbr")) { self.p.err("instruction swallowed a line") } }
        }
        if let Some(b) = cur { done.insert(b, body); }
        let n = fc.nblocks;
        for b in 0..n { blocks.push(done.remove(&b).unwrap_or_else(|| vec![Inst::Unreachable])); }
        // phi moves
        for (ei, e) in edges.iter_mut().enumerate() {
            if let Some(ps) = phis.get(&e.block) {
                let from = edge_from[ei];
                for (dst, ins) in ps { for (v, pb) in ins { if *pb == from { e.moves.push((*dst, v.clone())); break; } } }
            }
        }
        edges.push(Edge { block: entry_block, moves: vec![] });
        let f = &mut self.m.funcs[fi as usize];
        f.nregs = fc.regs.len() as u32; f.nparams = np; f.varargs = varargs; f.blocks = blocks; f.entry_edge = (edges.len() - 1) as u32; f.edges = edges;
    }
    fn label(&mut self, fc: &mut FnCtx) -> u32 { self.p.expect_word("label"); self.p.expect(b'%'); let n = self.p.name(); fc.block(&n) }
    fn ty_op(&mut self, fc: &mut FnCtx) -> (TyId, Op) { let t = self.parse_ty(); let o = self.parse_operand(t, Some(fc)); (t, o) }
    fn parse_inst(&mut self, fc: &mut FnCtx, edges: &mut Vec<Edge>, mk_edge: &mut dyn FnMut(&mut Vec<Edge>, u32) -> u32, phis: &mut HashMap<u32, Vec<(u32, Vec<(Op, u32)>)>>, cur: u32) -> Option<Inst> {
        let mut dst: Option<u32> = None;
        if self.p.peek() == b'%' { self.p.i += 1; let n = self.p.name(); dst = Some(fc.reg(&n)); self.p.expect(b'='); }
        if self.p.peek() == b'#' { self.p.rest_of_line(); return None; }
        let mut w = self.p.word();
        if w == "tail" || w == "musttail" || w == "notail" { w = self.p.word(); }
        let d = dst.unwrap_or(u32::MAX);
        let inst = match w {
            "add" | "sub" | "mul" | "udiv" | "sdiv" | "urem" | "srem" | "and" | "or" | "xor" | "shl" | "lshr" | "ashr" => {
                while matches!(self.p.word_at(), "nuw" | "nsw" | "exact" | "disjoint") { self.p.word(); }
                let (t, a) = self.ty_op(fc); self.p.expect(b','); let b = self.parse_operand(t, Some(fc));
                let op = match w { "add" => BinOp::Add, "sub" => BinOp::Sub, "mul" => BinOp::Mul, "udiv" => BinOp::UDiv, "sdiv" => BinOp::SDiv, "urem" => BinOp::URem, "srem" => BinOp::SRem, "and" => BinOp::And, "or" => BinOp::Or, "xor" => BinOp::Xor, "shl" => BinOp::Shl, "lshr" => BinOp::LShr, _ => BinOp::AShr };
                let (lanes, wd) = self.m.lanes(t);
                Inst::Bin { op, w: wd, lanes, dst: d, a, b }
            }
            "icmp" => {
                while matches!(self.p.word_at(), "samesign") { self.p.word(); }
                let pr = self.p.word(); let (t, a) = self.ty_op(fc); self.p.expect(b','); let b = self.parse_operand(t, Some(fc));
                let pred = match pr { "eq" => Pred::Eq, "ne" => Pred::Ne, "ugt" => Pred::Ugt, "uge" => Pred::Uge, "ult" => Pred::Ult, "ule" => Pred::Ule, "sgt" => Pred::Sgt, "sge" => Pred::Sge, "slt" => Pred::Slt, "sle" => Pred::Sle, _ => self.p.err("pred") };
                let (lanes, wd) = self.m.lanes(t);
                Inst::ICmp { pred, w: wd, lanes, dst: d, a, b }
            }
            "fadd" | "fsub" | "fmul" | "fdiv" | "frem" | "fneg" => {
                while matches!(self.p.word_at(), "fast" | "nnan" | "ninf" | "nsz" | "arcp" | "contract" | "afn" | "reassoc") { self.p.word(); }
                let (t, a) = self.ty_op(fc);
                let b = if w == "fneg" { Op::C(Val::C(0)) } else { self.p.expect(b','); self.parse_operand(t, Some(fc)) };
                let op = match w { "fadd" => FBin::Add, "fsub" => FBin::Sub, "fmul" => FBin::Mul, "fdiv" => FBin::Div, "frem" => FBin::Rem, _ => FBin::Neg };
                let (lanes, wd) = self.m.lanes(t);
                Inst::FBin { op, w: wd, lanes, dst: d, a, b }
            }
            "fcmp" => {
                while matches!(self.p.word_at(), "fast" | "nnan" | "ninf" | "nsz" | "arcp" | "contract" | "afn" | "reassoc") { self.p.word(); }
                let pr = self.p.word().to_string(); let (t, a) = self.ty_op(fc); self.p.expect(b','); let b = self.parse_operand(t, Some(fc));
                Inst::FCmp { pred: pr, w: self.m.lanes(t).1, dst: d, a, b }
            }
            "trunc" | "zext" | "sext" | "ptrtoint" | "inttoptr" | "bitcast" | "fptoui" | "fptosi" | "uitofp" | "sitofp" | "fpext" | "fptrunc" | "addrspacecast" | "ptrtoaddr" => {
                while matches!(self.p.word_at(), "nuw" | "nsw" | "nneg") { self.p.word(); }
                let (t, a) = self.ty_op(fc); self.p.expect_word("to"); let t2 = self.parse_ty();
                let op = match w { "trunc" => CastOp::Trunc, "zext" => CastOp::ZExt, "sext" => CastOp::SExt, "ptrtoint" | "ptrtoaddr" => CastOp::PtrToInt, "inttoptr" => CastOp::IntToPtr, "bitcast" | "addrspacecast" => CastOp::Bitcast, "fptoui" => CastOp::FpToUi, "fptosi" => CastOp::FpToSi, "uitofp" => CastOp::UiToFp, "sitofp" => CastOp::SiToFp, "fpext" => CastOp::FpExt, _ => CastOp::FpTrunc };
                Inst::Cast { op, from: t, to: t2, dst: d, a }
            }
            "freeze" => { let (t, a) = self.ty_op(fc); Inst::Cast { op: CastOp::Freeze, from: t, to: t, dst: d, a } }
            "load" => {
                while matches!(self.p.word_at(), "volatile" | "atomic") { self.p.word(); }
                let t = self.parse_ty(); self.p.expect(b','); let (_, ptr) = self.ty_op(fc);
                Inst::Load { ty: t, dst: d, ptr }
            }
            "store" => {
                while matches!(self.p.word_at(), "volatile" | "atomic") { self.p.word(); }
                let (t, val) = self.ty_op(fc); self.p.expect(b','); let (_, ptr) = self.ty_op(fc);
                Inst::Store { ty: t, val, ptr }
            }
            "alloca" => {
                while matches!(self.p.word_at(), "inalloca" | "swifterror") { self.p.word(); }
                let t = self.parse_ty(); let mut count = Op::C(Val::C(1));
                let save = self.p.i;
                if self.p.eat(b',') { if self.p.word_at() == "align" || self.p.word_at() == "addrspace" { self.p.i = save; } else if self.p.peek() == b'!' { self.p.i = save; } else { let (_, c) = self.ty_op(fc); count = c; } }
                Inst::Alloca { dst: d, size: self.m.size_align(t).0, count }
            }
            "getelementptr" => {
                while matches!(self.p.word_at(), "inbounds" | "nuw" | "nusw" | "inrange") { let w = self.p.word(); if w == "inrange" { self.p.ws(); self.p.skip_balanced(); } }
                let et = self.parse_ty(); self.p.expect(b','); let (_, base) = self.ty_op(fc);
                let mut off = 0u64; let mut terms = vec![]; let mut t = et; let mut first = true;
                loop {
                    let save = self.p.i; self.p.hs();
                    if self.p.s[self.p.i] != b',' { self.p.i = save; break; }
                    self.p.i += 1; self.p.hs();
                    if self.p.s[self.p.i] == b'!' { self.p.i = save; break; }
                    let (it, iv) = self.ty_op(fc); let iw = self.m.int_width(it);
                    let (scale, nt) = if first { (self.m.size_align(et).0, et) } else {
                        match self.m.ty(t).clone() {
                            Ty::Struct(..) => { if let Op::C(v) = &iv { let (o, nt) = self.m.field_off(t, v.c64()); off = off.wrapping_add(o); t = nt; continue; } else { self.p.err("gep struct idx") } }
                            Ty::Array(_, e) => (self.m.size_align(e).0, e),
                            Ty::Vector(_, e) => ((self.m.int_width(e) / 8) as u64, e),
                            _ => self.p.err("gep into scalar"),
                        }
                    };
                    first = false; t = nt;
                    match &iv { Op::C(v) => { let i = sext128(v.c128(), iw) as i64 as u64; off = off.wrapping_add(i.wrapping_mul(scale)); } _ => terms.push((iv, iw, scale)) }
                }
                Inst::Gep { dst: d, base, off, terms }
            }
            "select" => {
                while matches!(self.p.word_at(), "fast" | "nnan" | "ninf" | "nsz" | "arcp" | "contract" | "afn" | "reassoc") { self.p.word(); }
                let (ct, c) = self.ty_op(fc); self.p.expect(b','); let (t, a) = self.ty_op(fc); self.p.expect(b','); let (_, b) = self.ty_op(fc);
                Inst::Select { dst: d, ty: t, cty: ct, c, a, b }
            }
            "extractvalue" => { let (_, a) = self.ty_op(fc); let path = self.idx_path(); Inst::ExtractValue { dst: d, a, path } }
            "insertvalue" => { let (t, a) = self.ty_op(fc); self.p.expect(b','); let (_, v) = self.ty_op(fc); let path = self.idx_path(); Inst::InsertValue { dst: d, ty: t, a, v, path } }
            "extractelement" => { let (_, a) = self.ty_op(fc); self.p.expect(b','); let (_, idx) = self.ty_op(fc); Inst::ExtractElement { dst: d, a, idx } }
            "insertelement" => { let (t, a) = self.ty_op(fc); self.p.expect(b','); let (_, v) = self.ty_op(fc); self.p.expect(b','); let (_, idx) = self.ty_op(fc); Inst::InsertElement { dst: d, ty: t, a, v, idx } }
            "shufflevector" => {
                let (t, a) = self.ty_op(fc); self.p.expect(b','); let (_, b) = self.ty_op(fc); self.p.expect(b',');
                let mt = self.parse_ty(); let mv = self.parse_const(mt);
                let n = self.m.lanes(t).0;
                let mask = match mv { Val::A(xs) => xs.iter().map(|x| x.c64() as i32).collect(), _ => self.p.err("mask") };
                Inst::Shuffle { dst: d, a, b, n, mask }
            }
            "phi" => {
                while matches!(self.p.word_at(), "fast" | "nnan" | "ninf" | "nsz" | "arcp" | "contract" | "afn" | "reassoc") { self.p.word(); }
                let t = self.parse_ty(); let mut ins = vec![];
                loop {
                    self.p.expect(b'['); let v = self.parse_operand(t, Some(fc)); self.p.expect(b','); self.p.expect(b'%'); let n = self.p.name(); let b = fc.block(&n); self.p.expect(b']');
                    ins.push((v, b));
                    let save = self.p.i; self.p.hs();
                    if self.p.s[self.p.i] == b',' { self.p.i += 1; self.p.hs(); if self.p.s[self.p.i] == b'!' { self.p.i = save; break; } } else { break; }
                }
                phis.entry(cur).or_default().push((d, ins));
                self.p.rest_of_line(); return None;
            }
            "br" => {
                if self.p.word_at() == "label" { let b = self.label(fc); Inst::Br { e: mk_edge(edges, b) } }
                else { let (_, c) = self.ty_op(fc); self.p.expect(b','); let t = self.label(fc); self.p.expect(b','); let f = self.label(fc); Inst::CondBr { c, t: mk_edge(edges, t), f: mk_edge(edges, f) } }
            }
            "switch" => {
                let (t, v) = self.ty_op(fc); let wd = self.m.int_width(t); self.p.expect(b','); let db = self.label(fc);
                let mut by: HashMap<u32, u32> = HashMap::new();
                let default = mk_edge(edges, db); by.insert(db, default);
                self.p.expect(b'['); let mut cases = vec![];
                while !self.p.eat(b']') { let ct = self.parse_ty(); let cv = self.parse_const(ct).c128(); self.p.expect(b','); let b = self.label(fc); let e = *by.entry(b).or_insert_with(|| mk_edge(edges, b)); cases.push((cv, e)); }
                let small = if wd <= 64 { Some(cases.iter().map(|(c, e)| (*c as u64, *e)).collect()) } else { None };
                Inst::Switch { v, w: wd, default, cases, small }
            }
            "ret" => { if self.p.word_at() == "void" { self.p.word(); let t = self.m.intern(Ty::Void); Inst::Ret { v: None, ty: t } } else { let (t, v) = self.ty_op(fc); Inst::Ret { v: Some(v), ty: t } } }
            "unreachable" => Inst::Unreachable,
            "resume" => { self.p.rest_of_line(); Inst::Unreachable }
            "landingpad" => { // skip following clause lines
                self.p.rest_of_line();
                loop { let save = self.p.i; self.p.ws(); let w = self.p.word_at(); if w == "cleanup" || w == "catch" || w == "filter" { self.p.rest_of_line(); } else { self.p.i = save; break; } }
                return None;
            }
            "fence" => Inst::Nop,
            "call" | "invoke" => {
                while matches!(self.p.word_at(), "fast" | "nnan" | "ninf" | "nsz" | "arcp" | "contract" | "afn" | "reassoc") { self.p.word(); }
                // calling convention + return attributes
                loop { match self.p.word_at() { "fastcc" | "coldcc" | "ccc" | "tailcc" | "preserve_mostcc" | "preserve_allcc" | "preserve_nonecc" | "win64cc" | "x86_64_sysvcc" => { self.p.word(); } "cc" => { self.p.word(); self.p.word(); } _ => break } }
                self.skip_attrs();
                let rty = self.parse_ty();
                if self.p.peek() == b'(' { // function type
                    self.p.skip_balanced();
                }
                let callee = if self.p.word_at() == "asm" {
                    self.p.word(); while self.p.peek() != b'"' { self.p.word(); }
                    let a = self.p.quoted(); self.p.expect(b','); self.p.ws(); let c = self.p.quoted(); Callee::Asm(if a.starts_with("/*") && a.ends_with("*/") && c.starts_with("=&r,0,") { String::from("identity") } else { a.to_string() })
                } else {
                    match self.p.peek() {
                        b'@' => { self.p.i += 1; let n = self.p.name(); let n2 = self.m.aliases.get(&n).cloned().unwrap_or(n); match self.m.fidx.get(&n2) { Some(&f) => Callee::Direct(f), None => self.p.err(&format!("unknown function {}", n2)) } }
                        _ => { let pt = self.m.intern(Ty::Ptr); let o = self.parse_operand(pt, Some(fc)); Callee::Indirect(o) }
                    }
                };
                self.p.expect(b'('); let mut args = vec![];
                if !self.p.eat(b')') { loop {
                    let t = self.parse_ty();
                    if matches!(self.m.ty(t), Ty::Other) {
                        // metadata / token argument: skip to , or )
                        let mut depth = 0; loop { let c = self.p.s[self.p.i]; match c { b'(' | b'{' | b'[' => depth += 1, b')' | b'}' | b']' if depth > 0 => depth -= 1, b',' | b')' if depth == 0 => break, b'"' => { self.p.quoted(); continue; } _ => {} } self.p.i += 1; }
                        args.push((Op::C(Val::C(0)), t, 0));
                    } else {
                        let bv = self.skip_param_attrs(); let o = self.parse_operand(t, Some(fc)); args.push((o, t, bv));
                    }
                    if self.p.eat(b')') { break; } self.p.expect(b',');
                } }
                let mut normal = None;
                if w == "invoke" {
                    // to label %x unwind label %y (may be on the next line)
                    loop { let c = self.p.peek(); if c == b'#' { self.p.i += 1; self.p.word(); continue; } if c == b'[' { self.p.skip_balanced(); continue; } if self.p.word_at() == "to" { break; } if c == b'"' { self.p.quoted(); if self.p.s[self.p.i] == b'=' { self.p.i += 1; self.p.quoted(); } continue; } let ww = self.p.word(); if ww.is_empty() { self.p.err("invoke") } if self.p.s[self.p.i] == b'(' { self.p.skip_balanced(); } }
                    self.p.expect_word("to"); let n = self.label(fc); self.p.expect_word("unwind"); let _u = self.label(fc);
                    normal = Some(mk_edge(edges, n));
                }
                Inst::Call { dst, rty, callee, args, normal }
            }
            "atomicrmw" => {
                if self.p.word_at() == "volatile" { self.p.word(); }
                let o = self.p.word(); let (_, ptr) = self.ty_op(fc); self.p.expect(b','); let (t, val) = self.ty_op(fc);
                let op = match o { "xchg" => Rmw::Xchg, "add" => Rmw::Add, "sub" => Rmw::Sub, "and" => Rmw::And, "nand" => Rmw::Nand, "or" => Rmw::Or, "xor" => Rmw::Xor, "max" => Rmw::Max, "min" => Rmw::Min, "umax" => Rmw::UMax, "umin" => Rmw::UMin, _ => self.p.err("rmw") };
                Inst::AtomicRmw { op, dst: d, w: self.m.int_width(t), ty: t, ptr, val }
            }
            "cmpxchg" => {
                while matches!(self.p.word_at(), "weak" | "volatile") { self.p.word(); }
                let (_, ptr) = self.ty_op(fc); self.p.expect(b','); let (t, cmp) = self.ty_op(fc); self.p.expect(b','); let (_, new) = self.ty_op(fc);
                Inst::CmpXchg { dst: d, ty: t, ptr, cmp, new }
            }
            _ => self.p.err(&format!("instruction '{}'", w)),
        };
        self.p.rest_of_line();
        Some(inst)
    }
    fn idx_path(&mut self) -> Vec<u32> {
        let mut v = vec![];
        loop { let save = self.p.i; self.p.hs(); if self.p.s[self.p.i] == b',' { self.p.i += 1; self.p.hs(); if self.p.s[self.p.i].is_ascii_digit() { v.push(self.p.word().parse().unwrap()); continue; } } self.p.i = save; return v; }
    }
}

pub fn sext128(v: u128, w: u32) -> i128 { if w >= 128 { v as i128 } else { let s = 128 - w; ((v << s) as i128) >> s } }
