//! Parser for textual LLVM IR (the subset rustc emits), lazily per function.
use std::collections::HashMap;
use std::rc::Rc;
use crate::expr::{self, E};

#[derive(Clone, Debug)]
pub enum Val { C(u128), S(E), A(Rc<Vec<Val>>) }

#[derive(Clone, Debug, PartialEq)]
pub enum Ty {
    Void, Int(u16), Ptr, F32, F64, Label, Meta,
    Vec(u64, Rc<Ty>), Arr(u64, Rc<Ty>), Struct(Rc<Vec<Ty>>, bool), Named(Rc<str>), Fn,
}

#[derive(Clone, Debug)]
pub enum Opd { R(u32), K(Val) }

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Pred { Eq, Ne, Ugt, Uge, Ult, Ule, Sgt, Sge, Slt, Sle }
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum CastK { Trunc, ZExt, SExt, Bitcast, Copy }
#[derive(Clone, Debug)]
pub enum Callee { F(u32), Ext(Rc<str>), P(Opd) }
/// scalar shape: n == 0 for a scalar, otherwise a vector of n
#[derive(Clone, Copy, Debug)]
pub struct Sh { pub n: u32, pub w: u16 }

#[derive(Debug)]
pub enum Inst {
    Bin { op: expr::Op, dst: u32, sh: Sh, a: Opd, b: Opd },
    ICmp { p: Pred, dst: u32, sh: Sh, a: Opd, b: Opd },
    Cast { k: CastK, dst: u32, from: Sh, to: Sh, a: Opd },
    Select { dst: u32, c: Opd, a: Opd, b: Opd, ty: Ty, vc: bool },
    Load { dst: u32, ty: Ty, p: Opd },
    Store { ty: Ty, v: Opd, p: Opd },
    Gep { dst: u32, base: Opd, off: i64, idx: Vec<(Opd, i64, u16)> },
    Alloca { dst: u32, size: u64, align: u64, count: Opd },
    Call { dst: Option<u32>, rty: Ty, callee: Callee, args: Vec<(Opd, Ty)>, norm: Option<u32> },
    Br(u32),
    CBr { c: Opd, t: u32, f: u32 },
    Switch { v: Opd, w: u16, def: u32, cases: Vec<(u128, u32)> },
    Ret(Option<Opd>),
    Unreachable,
    ExtractV { dst: u32, a: Opd, idx: Vec<u32> },
    InsertV { dst: u32, a: Opd, v: Opd, idx: Vec<u32> },
    ExtractE { dst: u32, a: Opd, i: Opd, n: u32 },
    InsertE { dst: u32, a: Opd, v: Opd, i: Opd, n: u32 },
    Shuffle { dst: u32, a: Opd, b: Opd, mask: Vec<i32>, n: u32 },
    Rmw { dst: u32, op: String, w: u16, p: Opd, v: Opd },
    CmpX { dst: u32, w: u16, p: Opd, c: Opd, n: Opd },
    Nop,
    Unsup(String),
}
#[derive(Debug, Default)]
pub struct Block { pub phis: Vec<(u32, Vec<(u32, Opd)>)>, pub phiw: Vec<u16>, pub ins: Vec<Inst>, pub dbg: Vec<u32>, pub name: String }
#[derive(Debug)]
pub struct Func { pub name: Rc<str>, pub params: Vec<u32>, pub nregs: u32, pub blocks: Vec<Block>, pub dbg: u32 }

pub struct FDef { pub name: Rc<str>, pub head: (usize, usize), pub body: (usize, usize), pub addr: u64 }
pub struct GDef { pub name: Rc<str>, pub ty: Ty, pub init: Option<(usize, usize)>, pub size: u64, pub align: u64, pub konst: bool, pub addr: u64, pub tls: bool }

pub struct Module {
    pub src: String,
    pub named: HashMap<Rc<str>, Ty>,
    pub funcs: Vec<FDef>,
    pub parsed: std::cell::RefCell<Vec<Option<Rc<Func>>>>,
    pub fidx: HashMap<Rc<str>, u32>,
    pub decls: HashMap<Rc<str>, u64>,
    pub decl_names: HashMap<u64, Rc<str>>,
    pub globals: Vec<GDef>,
    pub gaddr: HashMap<Rc<str>, u64>,
    pub alias: HashMap<Rc<str>, Rc<str>>,
    pub metas: HashMap<u32, (usize, usize)>,
}
/// relative tables hold 32-bit differences of addresses of globals
pub const SLOT: u64 = 19;
pub const FBASE: u64 = 0x7f00_0000_0000;
pub const OFF0: u64 = 0x1000;

pub fn round(x: u64, a: u64) -> u64 { (x + a - 1) / a * a }

pub struct P<'a> { pub s: &'a [u8], pub i: usize, w: (usize, usize), pub m: Option<&'a Module>, pub regs: HashMap<String, u32>, pub labels: HashMap<String, u32>, pub named: Option<&'a HashMap<Rc<str>, Ty>> }
impl<'a> P<'a> {
    pub fn new(s: &'a [u8], m: Option<&'a Module>) -> Self { P { s, i: 0, w: (0, usize::MAX), m, regs: HashMap::new(), labels: HashMap::new(), named: None } }
    fn ws(&mut self) {
        let a = self.i;
        while self.i < self.s.len() {
            match self.s[self.i] { b' ' | b'\n' | b'\t' | b'\r' => self.i += 1, b';' => { while self.i < self.s.len() && self.s[self.i] != b'\n' { self.i += 1 } } _ => break }
        }
        if self.i != a { self.w = (a, self.i); }
    }
    fn pk(&mut self) -> u8 { self.ws(); if self.i < self.s.len() { self.s[self.i] } else { 0 } }
    fn eat(&mut self, t: &str) -> bool { self.ws(); if self.s[self.i..].starts_with(t.as_bytes()) { self.i += t.len(); true } else { false } }
    fn exp(&mut self, t: &str) { if !self.eat(t) { self.die(&format!("expected {t}")) } }
    fn die(&self, m: &str) -> ! {
        let a = self.i.saturating_sub(80); let b = (self.i + 120).min(self.s.len());
        panic!("ir parse: {} at <<{}|{}>>", m, String::from_utf8_lossy(&self.s[a..self.i]), String::from_utf8_lossy(&self.s[self.i..b]))
    }
    fn isid(c: u8) -> bool { c.is_ascii_alphanumeric() || c == b'_' || c == b'.' || c == b'$' || c == b'-' }
    fn id(&mut self) -> &'a str {
        self.ws();
        let a = self.i;
        while self.i < self.s.len() && Self::isid(self.s[self.i]) { self.i += 1 }
        std::str::from_utf8(&self.s[a..self.i]).unwrap()
    }
    fn pkid(&mut self) -> &'a str { let k = self.i; let r = self.id(); self.i = k; r }
    /// name after @ or %
    fn name(&mut self) -> String {
        if self.s[self.i] == b'"' {
            self.i += 1; let a = self.i;
            while self.s[self.i] != b'"' { self.i += 1 }
            let r = String::from_utf8_lossy(&self.s[a..self.i]).into_owned();
            self.i += 1; r
        } else { let a = self.i; while self.i < self.s.len() && Self::isid(self.s[self.i]) { self.i += 1 } String::from_utf8_lossy(&self.s[a..self.i]).into_owned() }
    }
    fn int(&mut self) -> i128 {
        self.ws();
        let neg = self.s[self.i] == b'-'; if neg { self.i += 1 }
        let a = self.i;
        while self.i < self.s.len() && self.s[self.i].is_ascii_digit() { self.i += 1 }
        if a == self.i { self.die("int") }
        let t = std::str::from_utf8(&self.s[a..self.i]).unwrap();
        let v: u128 = t.parse().unwrap_or_else(|_| self.die("int range"));
        if neg { (v as i128).wrapping_neg() } else { v as i128 }
    }
    fn balanced(&mut self) {
        // at '(' : skip to after matching ')'
        let mut d = 0;
        loop {
            match self.s[self.i] {
                b'(' => d += 1,
                b')' => { d -= 1; if d == 0 { self.i += 1; return; } }
                b'"' => { self.i += 1; while self.s[self.i] != b'"' { self.i += 1 } }
                _ => {}
            }
            self.i += 1;
        }
    }
    fn is_ty_start(&mut self) -> bool {
        match self.pk() {
            b'%' | b'[' | b'{' | b'<' => true,
            b'i' => { let t = self.pkid(); t.len() > 1 && t[1..].bytes().all(|c| c.is_ascii_digit()) }
            _ => matches!(self.pkid(), "void" | "ptr" | "float" | "double" | "label" | "metadata" | "token" | "half"),
        }
    }
    pub fn ty(&mut self) -> Ty {
        let mut t = match self.pk() {
            b'[' => { self.i += 1; let n = self.int() as u64; self.exp("x"); let e = self.ty(); self.exp("]"); Ty::Arr(n, Rc::new(e)) }
            b'<' => {
                self.i += 1;
                if self.pk() == b'{' { self.i += 1; let f = self.fields(); self.exp("}"); self.exp(">"); Ty::Struct(Rc::new(f), true) }
                else { let n = self.int() as u64; self.exp("x"); let e = self.ty(); self.exp(">"); Ty::Vec(n, Rc::new(e)) }
            }
            b'{' => { self.i += 1; let f = self.fields(); self.exp("}"); Ty::Struct(Rc::new(f), false) }
            b'%' => { self.i += 1; let n = self.name(); Ty::Named(n.as_str().into()) }
            _ => {
                let t = self.id();
                match t {
                    "void" => Ty::Void, "ptr" => { if self.pkid() == "addrspace" { self.id(); self.balanced(); } Ty::Ptr }
                    "float" => Ty::F32, "double" => Ty::F64, "label" => Ty::Label, "metadata" | "token" => Ty::Meta, "half" => Ty::Int(16),
                    "opaque" => Ty::Struct(Rc::new(vec![]), false),
                    _ if t.starts_with('i') && t.len() > 1 => Ty::Int(t[1..].parse().unwrap_or_else(|_| self.die("type"))),
                    _ => self.die("type"),
                }
            }
        };
        // function type
        if self.i + 1 < self.s.len() && self.s[self.i] == b' ' && self.s[self.i + 1] == b'(' { self.i += 1; self.balanced(); t = Ty::Fn; let _ = &t; }
        t
    }
    fn fields(&mut self) -> Vec<Ty> {
        let mut f = vec![];
        if self.pk() == b'}' { return f; }
        loop { f.push(self.ty()); if !self.eat(",") { return f; } }
    }
    fn attrs(&mut self) {
        // skip parameter attributes up to a value
        loop {
            let c = self.pk();
            if c == b'"' { self.i += 1; while self.s[self.i] != b'"' { self.i += 1 } self.i += 1; if self.s[self.i] == b'=' { self.i += 2; while self.s[self.i] != b'"' { self.i += 1 } self.i += 1; } continue; }
            if !c.is_ascii_alphabetic() { return; }
            let t = self.pkid();
            match t {
                "null" | "undef" | "poison" | "true" | "false" | "zeroinitializer" | "none" | "getelementptr" | "inttoptr" | "ptrtoint" | "ptrtoaddr" | "splat" | "trunc" | "add" | "sub" | "xor" | "bitcast" | "c" | "asm" | "blockaddress" => return,
                "align" => { self.id(); if self.pk() == b'(' { self.balanced() } else { self.int(); } }
                _ => { self.id(); if self.i < self.s.len() && self.s[self.i] == b'(' { self.balanced(); } }
            }
        }
    }
    fn m(&self) -> &'a Module { self.m.unwrap() }
    fn reg(&mut self, n: String) -> u32 { let k = self.regs.len() as u32; *self.regs.entry(n).or_insert(k) }
    /// value of type t
    pub fn val(&mut self, t: &Ty) -> Opd {
        match self.pk() {
            b'%' => { self.i += 1; let n = self.name(); Opd::R(self.reg(n)) }
            b'!' => { // metadata operand: skip to , or )
                while !matches!(self.s[self.i], b',' | b')') { if self.s[self.i] == b'(' { self.balanced() } else { self.i += 1 } }
                Opd::K(Val::C(0))
            }
            _ => Opd::K(self.kval(t)),
        }
    }
    pub fn kval(&mut self, t: &Ty) -> Val {
        let t = self.m().resolve(t);
        match self.pk() {
            b'@' => { self.i += 1; let n = self.name(); Val::C(self.m().addr_of(&n) as u128) }
            b'c' if self.s[self.i + 1] == b'"' => {
                self.i += 2; let mut v = vec![];
                while self.s[self.i] != b'"' {
                    if self.s[self.i] == b'\\' && self.s[self.i + 1] == b'\\' { v.push(Val::C(92)); self.i += 2; }
                    else if self.s[self.i] == b'\\' {
                        let h = std::str::from_utf8(&self.s[self.i + 1..self.i + 3]).unwrap();
                        v.push(Val::C(u128::from_str_radix(h, 16).unwrap())); self.i += 3;
                    } else { v.push(Val::C(self.s[self.i] as u128)); self.i += 1 }
                }
                self.i += 1;
                Val::A(Rc::new(v))
            }
            b'[' | b'{' => {
                let c = self.s[self.i]; self.i += 1;
                let e = if c == b'[' { "]" } else { "}" };
                let mut v = vec![];
                if !self.eat(e) { loop { let et = self.ty(); v.push(self.kval(&et)); if !self.eat(",") { break } } self.exp(e); }
                Val::A(Rc::new(v))
            }
            b'<' => {
                self.i += 1;
                let packed = self.eat("{");
                let mut v = vec![];
                let e = if packed { "}" } else { ">" };
                if !self.eat(e) { loop { let et = self.ty(); v.push(self.kval(&et)); if !self.eat(",") { break } } self.exp(e); }
                if packed { self.exp(">"); }
                Val::A(Rc::new(v))
            }
            b'-' | b'0'..=b'9' => {
                match t {
                    Ty::F64 | Ty::F32 => {
                        let s = self.id().to_string();
                        let mut s = s; while self.i < self.s.len() && (self.s[self.i] == b'+' || Self::isid(self.s[self.i])) { s.push(self.s[self.i] as char); self.i += 1 }
                        let bits = if let Some(h) = s.strip_prefix("0x") { u64::from_str_radix(h, 16).unwrap() } else { s.parse::<f64>().unwrap().to_bits() };
                        Val::C(if t == Ty::F64 { bits as u128 } else { (f64::from_bits(bits) as f32).to_bits() as u128 })
                    }
                    Ty::Int(w) => { let v = self.int(); Val::C(v as u128 & expr::mask(w.min(128))) }
                    _ => self.die("int literal of non-int type"),
                }
            }
            _ => {
                let w = self.id();
                match w {
                    "null" | "undef" | "poison" | "zeroinitializer" | "none" => self.m().zero(&t),
                    "true" => Val::C(1), "false" => Val::C(0),
                    "splat" => {
                        self.exp("("); let et = self.ty(); let v = self.kval(&et); self.exp(")");
                        match t { Ty::Vec(n, _) => Val::A(Rc::new(vec![v; n as usize])), _ => self.die("splat") }
                    }
                    "ptrtoint" | "inttoptr" | "bitcast" | "ptrtoaddr" | "trunc" => {
                        self.exp("("); let et = self.ty(); let v = self.kval(&et); self.exp("to"); let tt = self.ty(); self.exp(")");
                        match (v, tt) { (Val::C(v), Ty::Int(w)) => Val::C(v & expr::mask(w)), (v, _) => v }
                    }
                    "add" | "sub" | "xor" => {
                        while matches!(self.pkid(), "nuw" | "nsw") { self.id(); }
                        self.exp("("); let et = self.ty(); let a = self.kval(&et); self.exp(","); let _ = self.ty(); let b = self.kval(&et); self.exp(")");
                        let wd = match self.m().resolve(&et) { Ty::Int(w) => w, _ => 64 };
                        match (a, b) { (Val::C(a), Val::C(b)) => Val::C(match w { "add" => a.wrapping_add(b), "sub" => a.wrapping_sub(b), _ => a ^ b } & expr::mask(wd)), _ => self.die("constexpr") }
                    }
                    "getelementptr" => {
                        while self.pk() != b'(' { self.id(); if self.i < self.s.len() && self.s[self.i] == b'(' && self.s[self.i - 1] == b'e' { let k = self.i; if self.s[..k].ends_with(b"inrange") { self.balanced(); } } }
                        self.exp("(");
                        let st = self.ty(); self.exp(","); let _ = self.ty(); let b = self.kval(&Ty::Ptr);
                        let mut idx = vec![];
                        while self.eat(",") { let it = self.ty(); let v = self.kval(&it); idx.push(match v { Val::C(v) => { let w = match it { Ty::Int(w) => w, _ => 64 }; Some(expr::sx(v, w) as i64) } _ => self.die("gep idx") }); }
                        self.exp(")");
                        let mut off = 0i64;
                        let mut ct = st.clone();
                        for (k, ix) in idx.iter().enumerate() {
                            let ix = ix.unwrap();
                            if k == 0 { off += ix * self.m().size(&ct) as i64; }
                            else { let (o, nt) = self.m().step(&ct, ix); off += o; ct = nt; }
                        }
                        match b { Val::C(v) => Val::C((v as u64).wrapping_add(off as u64) as u128), _ => self.die("gep base") }
                    }
                    _ => self.die(&format!("value '{w}'")),
                }
            }
        }
    }
    /// end of the line of the last token read (white space looked past does not count)
    fn eol(&mut self) { if self.i == self.w.1 { self.i = self.w.0; } while self.i < self.s.len() && self.s[self.i] != b'\n' { self.i += 1 } }
    fn label(&mut self) -> u32 { self.exp("label"); self.exp("%"); let n = self.name(); self.lab(n) }
    fn lab(&mut self, n: String) -> u32 { match self.labels.get(&n) { Some(k) => *k, None => self.die(&format!("label {n}")) } }
    fn shape(&self, t: &Ty) -> Sh {
        let t = self.m().resolve(t);
        match &t {
            Ty::Vec(n, e) => { let s = self.shape(e); Sh { n: *n as u32, w: s.w } }
            Ty::Int(w) => Sh { n: 0, w: *w },
            Ty::Ptr => Sh { n: 0, w: 64 },
            Ty::F32 => Sh { n: 0, w: 32 }, Ty::F64 => Sh { n: 0, w: 64 },
            _ => Sh { n: 0, w: 0 },
        }
    }
    fn tv(&mut self) -> (Ty, Opd) { let t = self.ty(); self.attrs(); let v = self.val(&t); (t, v) }

    fn inst(&mut self, dst: Option<u32>) -> Inst {
        use expr::Op;
        let d = dst.unwrap_or(u32::MAX);
        let mut w = self.id();
        while matches!(w, "tail" | "musttail" | "notail") { w = self.id(); }
        match w {
            "add" | "sub" | "mul" | "udiv" | "sdiv" | "urem" | "srem" | "shl" | "lshr" | "ashr" | "and" | "or" | "xor" => {
                let op = match w { "add" => Op::Add, "sub" => Op::Sub, "mul" => Op::Mul, "udiv" => Op::UDiv, "sdiv" => Op::SDiv, "urem" => Op::URem, "srem" => Op::SRem, "shl" => Op::Shl, "lshr" => Op::LShr, "ashr" => Op::AShr, "and" => Op::And, "or" => Op::Or, _ => Op::Xor };
                while !self.is_ty_start() { self.id(); }
                let t = self.ty(); let a = self.val(&t); self.exp(","); let b = self.val(&t);
                Inst::Bin { op, dst: d, sh: self.shape(&t), a, b }
            }
            "icmp" => {
                let mut p = self.id(); if p == "samesign" { p = self.id(); }
                let p = match p { "eq" => Pred::Eq, "ne" => Pred::Ne, "ugt" => Pred::Ugt, "uge" => Pred::Uge, "ult" => Pred::Ult, "ule" => Pred::Ule, "sgt" => Pred::Sgt, "sge" => Pred::Sge, "slt" => Pred::Slt, "sle" => Pred::Sle, _ => self.die("pred") };
                let t = self.ty(); let a = self.val(&t); self.exp(","); let b = self.val(&t);
                Inst::ICmp { p, dst: d, sh: self.shape(&t), a, b }
            }
            "trunc" | "zext" | "sext" | "bitcast" | "ptrtoint" | "inttoptr" | "ptrtoaddr" | "addrspacecast" => {
                while !self.is_ty_start() { self.id(); }
                let (t, a) = { let t = self.ty(); let v = self.val(&t); (t, v) };
                self.exp("to"); let tt = self.ty();
                let (from, to) = (self.shape(&t), self.shape(&tt));
                let k = match w { "trunc" => CastK::Trunc, "zext" => CastK::ZExt, "sext" => CastK::SExt, "bitcast" => CastK::Bitcast, _ => if from.w == to.w { CastK::Copy } else if from.w > to.w { CastK::Trunc } else { CastK::ZExt } };
                Inst::Cast { k, dst: d, from, to, a }
            }
            "freeze" => { let (t, a) = self.tv(); let s = self.shape(&t); Inst::Cast { k: CastK::Copy, dst: d, from: s, to: s, a } }
            "select" => {
                while !self.is_ty_start() { self.id(); }
                let (ct, c) = self.tv(); self.exp(","); let (t, a) = self.tv(); self.exp(","); let (_, b) = self.tv();
                Inst::Select { dst: d, c, a, b, ty: self.m().resolve(&t), vc: matches!(self.m().resolve(&ct), Ty::Vec(..)) }
            }
            "load" => {
                loop { let k = self.pkid(); if k == "atomic" || k == "volatile" { self.id(); } else { break } }
                let t = self.ty(); self.exp(","); let (_, p) = self.tv();
                Inst::Load { dst: d, ty: self.m().resolve(&t), p }
            }
            "store" => {
                loop { let k = self.pkid(); if k == "atomic" || k == "volatile" { self.id(); } else { break } }
                let (t, v) = self.tv(); self.exp(","); let (_, p) = self.tv();
                Inst::Store { ty: self.m().resolve(&t), v, p }
            }
            "getelementptr" => {
                while !self.is_ty_start() { self.id(); if self.s[self.i] == b'(' { self.balanced() } }
                let st = self.ty(); self.exp(","); let (bt, base) = self.tv();
                if matches!(bt, Ty::Vec(..)) { self.eol(); return Inst::Unsup("vector gep".into()); }
                let mut off = 0i64; let mut idx = vec![]; let mut ct = st; let mut k = 0;
                loop {
                    let save = self.i;
                    if !self.eat(",") { break; }
                    if self.pk() == b'!' { self.i = save; break; }
                    let (it, v) = self.tv();
                    let iw = self.shape(&it).w;
                    match &v {
                        Opd::K(Val::C(c)) => {
                            let ix = expr::sx(*c, iw) as i64;
                            if k == 0 { off += ix * self.m().size(&ct) as i64 } else { let (o, nt) = self.m().step(&ct, ix); off += o; ct = nt; }
                        }
                        Opd::R(_) => {
                            if k == 0 { idx.push((v, self.m().size(&ct) as i64, iw)); }
                            else { let (_, nt) = self.m().step(&ct, 0); idx.push((v, self.m().size(&nt) as i64, iw)); ct = nt; }
                        }
                        _ => { self.eol(); return Inst::Unsup("gep".into()) }
                    }
                    k += 1;
                }
                Inst::Gep { dst: d, base, off, idx }
            }
            "alloca" => {
                let t = self.ty();
                let mut count = Opd::K(Val::C(1)); let mut align = 16;
                while self.eat(",") {
                    if self.pkid() == "align" { self.id(); align = self.int() as u64; }
                    else if self.pk() == b'!' { break }
                    else { let (_, v) = self.tv(); count = v; }
                }
                Inst::Alloca { dst: d, size: self.m().size(&t), align, count }
            }
            "call" | "invoke" => {
                // skip cc and return attrs
                while !self.is_ty_start() {
                    if self.pk() == b'"' { self.attrs(); continue; }
                    let t = self.id();
                    if t.is_empty() { self.die("call") }
                    if t == "align" { self.int(); }
                    else if t == "cc" { self.int(); }
                    else if self.s[self.i] == b'(' { self.balanced() }
                }
                // rust emits "T (args...)" function types only for varargs
                let k = self.i;
                let mut t = self.ty();
                if t == Ty::Fn { self.i = k; t = self.ty_nofn(); self.ws(); if self.s[self.i] == b'(' { self.balanced(); } }
                let callee = match self.pk() {
                    b'@' => { self.i += 1; let n = self.name(); let n = self.m().unalias(&n); match self.m().fidx.get(&*n) { Some(k) => Callee::F(*k), None => Callee::Ext(n.as_str().into()) } }
                    b'%' => { let v = self.val(&Ty::Ptr); Callee::P(v) }
                    b'a' => { // asm
                        // optimisation barriers (black_box): no instructions
                        let a = self.i; self.eol();
                        let l = String::from_utf8_lossy(&self.s[a..self.i]).into_owned();
                        if dst.is_none() && (l.starts_with("asm sideeffect \"\",") || l.starts_with("asm \"\",")) { return Inst::Nop; }
                        return Inst::Unsup(format!("asm {}", String::from_utf8_lossy(&self.s[a..self.i])));
                    }
                    _ => { let v = self.val(&Ty::Ptr); Callee::P(v) }
                };
                self.exp("(");
                let skip = if let Callee::Ext(n) = &callee { n.starts_with("llvm.dbg.") || n.starts_with("llvm.experimental.noalias") } else { false };
                let mut args = vec![];
                if skip { self.i -= 1; self.balanced(); }
                else {
                    while self.pk() != b')' { let (at, v) = self.tv(); args.push((v, self.m().resolve(&at))); if !self.eat(",") { break } }
                    self.exp(")");
                }
                let norm = if w == "invoke" {
                    // skip to "to label"
                    loop { self.ws(); if self.s[self.i..].starts_with(b"to label") { break } self.i += 1; }
                    self.exp("to"); let n = self.label(); self.exp("unwind"); self.label(); Some(n)
                } else { None };
                if skip { return Inst::Nop; }
                if let Callee::Ext(n) = &callee { if matches!(&**n, "llvm.lifetime.start.p0" | "llvm.lifetime.end.p0" | "llvm.assume" | "llvm.x86.sse2.pause" | "llvm.donothing" | "llvm.prefetch.p0") { return Inst::Nop; } }
                Inst::Call { dst, rty: self.m().resolve(&t), callee, args, norm }
            }
            "br" => {
                if self.pkid() == "label" { Inst::Br(self.label()) }
                else { let (_, c) = self.tv(); self.exp(","); let t = self.label(); self.exp(","); let f = self.label(); Inst::CBr { c, t, f } }
            }
            "switch" => {
                let (t, v) = self.tv(); self.exp(","); let def = self.label(); self.exp("[");
                let mut cases = vec![];
                while self.pk() != b']' { let ct = self.ty(); let k = match self.kval(&ct) { Val::C(k) => k, _ => self.die("case") }; self.exp(","); let l = self.label(); cases.push((k, l)); }
                self.exp("]");
                Inst::Switch { v, w: self.shape(&t).w, def, cases }
            }
            "ret" => { let t = self.ty(); if t == Ty::Void { Inst::Ret(None) } else { let v = self.val(&t); Inst::Ret(Some(v)) } }
            "unreachable" => Inst::Unreachable,
            "resume" => { self.eol(); Inst::Unsup("resume".into()) }
            "landingpad" => { self.eol(); Inst::Unsup("landingpad".into()) }
            "extractvalue" => { let (_, a) = self.tv(); let mut idx = vec![]; while self.eat(",") { if self.pk() == b'!' { break } idx.push(self.int() as u32); } Inst::ExtractV { dst: d, a, idx } }
            "insertvalue" => { let (_, a) = self.tv(); self.exp(","); let (_, v) = self.tv(); let mut idx = vec![]; while self.eat(",") { if self.pk() == b'!' { break } idx.push(self.int() as u32); } Inst::InsertV { dst: d, a, v, idx } }
            "extractelement" => { let (t, a) = self.tv(); self.exp(","); let (_, i) = self.tv(); Inst::ExtractE { dst: d, a, i, n: self.shape(&t).n } }
            "insertelement" => { let (t, a) = self.tv(); self.exp(","); let (_, v) = self.tv(); self.exp(","); let (_, i) = self.tv(); Inst::InsertE { dst: d, a, v, i, n: self.shape(&t).n } }
            "shufflevector" => {
                let (t, a) = self.tv(); self.exp(","); let (_, b) = self.tv(); self.exp(","); let (_, m) = self.tv();
                let mask = match m { Opd::K(Val::A(v)) => v.iter().map(|x| match x { Val::C(k) => *k as i32, _ => 0 }).collect(), _ => self.die("shuffle mask") };
                Inst::Shuffle { dst: d, a, b, mask, n: self.shape(&t).n }
            }
            "fence" => { self.eol(); Inst::Nop }
            "atomicrmw" => {
                if self.pkid() == "volatile" { self.id(); }
                let op = self.id().to_string(); let (_, p) = self.tv(); self.exp(","); let (t, v) = self.tv();
                Inst::Rmw { dst: d, op, w: self.shape(&t).w, p, v }
            }
            "cmpxchg" => {
                while matches!(self.pkid(), "weak" | "volatile") { self.id(); }
                let (_, p) = self.tv(); self.exp(","); let (t, c) = self.tv(); self.exp(","); let (_, n) = self.tv();
                Inst::CmpX { dst: d, w: self.shape(&t).w, p, c, n }
            }
            _ => { let s = w.to_string(); self.eol(); Inst::Unsup(s) }
        }
    }
    fn ty_nofn(&mut self) -> Ty {
        let t = self.id();
        match t { "void" => Ty::Void, "ptr" => Ty::Ptr, _ if t.starts_with('i') => Ty::Int(t[1..].parse().unwrap()), _ => self.die("fn type") }
    }
}

impl Module {
    pub fn unalias(&self, n: &str) -> String { match self.alias.get(n) { Some(x) => self.unalias(x), None => n.to_string() } }
    pub fn addr_of(&self, n: &str) -> u64 {
        if let Some(a) = self.gaddr.get(n) { return *a; }
        if let Some(k) = self.fidx.get(n) { return self.funcs[*k as usize].addr; }
        if let Some(a) = self.decls.get(n) { return *a; }
        if let Some(a) = self.alias.get(n) { return self.addr_of(a); }
        panic!("unknown symbol @{n}")
    }
    pub fn resolve(&self, t: &Ty) -> Ty { match t { Ty::Named(n) => self.resolve(&self.named[n]), _ => t.clone() } }
    pub fn align(&self, t: &Ty) -> u64 {
        match t {
            Ty::Int(w) => match w { 0..=8 => 1, 9..=16 => 2, 17..=32 => 4, 33..=64 => 8, _ => 16 },
            Ty::Ptr | Ty::F64 => 8, Ty::F32 => 4,
            Ty::Vec(..) => self.size(t).next_power_of_two(),
            Ty::Arr(_, e) => self.align(e),
            Ty::Struct(f, p) => if *p { 1 } else { f.iter().map(|x| self.align(x)).max().unwrap_or(1) },
            Ty::Named(n) => self.align(&self.named[n]),
            _ => 1,
        }
    }
    pub fn size(&self, t: &Ty) -> u64 {
        match t {
            Ty::Int(w) => round((*w as u64 + 7) / 8, self.align(t)),
            Ty::Ptr | Ty::F64 => 8, Ty::F32 => 4,
            Ty::Vec(n, e) => { let b = match &**e { Ty::Int(w) => *w as u64, o => self.size(o) * 8 }; ((n * b + 7) / 8).next_power_of_two() }
            Ty::Arr(n, e) => n * self.size(e),
            Ty::Struct(f, p) => {
                let mut o = 0; for x in f.iter() { if !*p { o = round(o, self.align(x)); } o += self.size(x); }
                if *p { o } else { round(o, self.align(t)) }
            }
            Ty::Named(n) => self.size(&self.named[n]),
            _ => 0,
        }
    }
    pub fn field_off(&self, f: &[Ty], packed: bool, i: usize) -> u64 {
        let mut o = 0;
        for (k, x) in f.iter().enumerate() { if !packed { o = round(o, self.align(x)); } if k == i { return o; } o += self.size(x); }
        o
    }
    pub fn step(&self, t: &Ty, i: i64) -> (i64, Ty) {
        match self.resolve(t) {
            Ty::Arr(_, e) | Ty::Vec(_, e) => (i * self.size(&e) as i64, (*e).clone()),
            Ty::Struct(f, p) => (self.field_off(&f, p, i as usize) as i64, f[i as usize].clone()),
            x => panic!("gep step into {:?}", x),
        }
    }
    pub fn zero(&self, t: &Ty) -> Val {
        match self.resolve(t) {
            Ty::Arr(n, e) | Ty::Vec(n, e) => { let z = self.zero(&e); Val::A(Rc::new(vec![z; n as usize])) }
            Ty::Struct(f, _) => Val::A(Rc::new(f.iter().map(|x| self.zero(x)).collect())),
            _ => Val::C(0),
        }
    }
    pub fn func(&self, k: u32) -> Rc<Func> {
        if let Some(f) = &self.parsed.borrow()[k as usize] { return f.clone(); }
        let f = Rc::new(self.parse_func(k));
        self.parsed.borrow_mut()[k as usize] = Some(f.clone());
        f
    }
    fn parse_func(&self, k: u32) -> Func {
        let fd = &self.funcs[k as usize];
        let s = self.src.as_bytes();
        // header params
        let mut p = P::new(&s[fd.head.0..fd.head.1], Some(self));
        p.exp("(");
        let mut params = vec![];
        let mut nparams = 0;
        while p.pk() != b')' {
            if p.eat("...") { break }
            p.ty(); 
            loop { match p.pk() { b'%' => { p.i += 1; let n = p.name(); if n.bytes().all(|c| c.is_ascii_digit()) { nparams += 1; } let r = p.reg(n); params.push(r); break } b',' | b')' => { let n = format!("{}", params.len()); let r = p.reg(n); params.push(r); break } b'(' => p.balanced(), b'"' => { p.attrs() } _ => { let t = p.id(); if t.is_empty() { p.die("param") } if t == "align" && p.pk() != b'(' { p.int(); } } } }
            if !p.eat(",") { break }
        }
        let regs = std::mem::take(&mut p.regs);
        let head = &self.src[fd.head.0..fd.head.1];
        let dbg = head.rfind("!dbg !").map(|i| head[i + 6..].chars().take_while(|c| c.is_ascii_digit()).collect::<String>().parse().unwrap_or(0)).unwrap_or(0);
        let body = &s[fd.body.0..fd.body.1];
        let mut p = P::new(body, Some(self));
        p.regs = regs;
        // labels
        let mut blocks: Vec<Block> = vec![];
        let text = &self.src[fd.body.0..fd.body.1];
        let mut first = true;
        for line in text.lines() {
            if line.is_empty() { continue; }
            if !line.starts_with(' ') && !line.starts_with(';') && !line.starts_with('}') {
                // label
                let l = line.split(';').next().unwrap().trim_end();
                let l = l.trim_end_matches(':').trim_matches('"').to_string();
                let kk = blocks.len() as u32;
                p.labels.insert(l.clone(), kk);
                blocks.push(Block { name: l, ..Default::default() });
                first = false;
            } else if first && !line.starts_with(';') && line.trim_start() != "" {
                // unnamed entry
                let l = format!("{}", nparams);
                p.labels.insert(l.clone(), 0);
                blocks.push(Block { name: l, ..Default::default() });
                first = false;
            }
        }
        // explicit names may clash with numbering: the parser above covers what rustc emits
        let mut cur: i64 = if text.lines().find(|l| !l.is_empty() && !l.starts_with(';')).map_or(false, |l| l.starts_with(' ')) { 0 } else { -1 };
        loop {
            p.ws();
            p.w.1 = usize::MAX;
            if p.i >= p.s.len() { break }
            let ls = p.i;
            // label line?
            let at_bol = ls == 0 || p.s[ls - 1] == b'\n';
            if at_bol && p.s[ls] != b'%' && p.s[ls] != b'}' { cur += 1; p.eol(); continue; }
            if p.s[ls] == b'}' { break }
            if p.s[ls] == b'#' { p.eol(); continue; }
            let w = p.pkid();
            if matches!(w, "cleanup" | "catch" | "filter") && p.s[ls] != b'%' { p.eol(); continue; }
            let mut dst = None;
            if p.s[p.i] == b'%' { p.i += 1; let n = p.name(); dst = Some(p.reg(n)); p.exp("="); }
            if dst.is_some() && p.pkid() == "phi" {
                p.id();
                while !p.is_ty_start() { p.id(); }
                let t = p.ty();
                let mut inc = vec![];
                loop {
                    p.exp("["); let v = p.val(&t); p.exp(","); p.exp("%"); let n = p.name(); let l = p.lab(n); p.exp("]"); inc.push((l, v));
                    let save = p.i;
                    if !p.eat(",") { p.i = save; break }
                    if p.pk() != b'[' { p.i = save; break }
                }
                p.eol();
                blocks[cur as usize].phis.push((dst.unwrap(), inc));
                blocks[cur as usize].phiw.push(match &t { Ty::Int(w) => *w, _ => 64 });
                continue;
            }
            let ins = p.inst(dst);
            if p.i == p.w.1 { p.i = p.w.0; p.w.1 = usize::MAX; }
            let st = p.i; p.eol();
            let tail = &p.s[st..p.i];
            let tail = unsafe { std::str::from_utf8_unchecked(tail) };
            let dbg = match tail.rfind("!dbg !") { Some(i) => tail[i + 6..].bytes().take_while(|c| c.is_ascii_digit()).fold(0u32, |a, c| a * 10 + (c - b'0') as u32), None => 0 };
            if cur < 0 { panic!("IR: {} line {:?}", fd.name, std::str::from_utf8(&p.s[ls..p.i])); }
            blocks[cur as usize].ins.push(ins);
            blocks[cur as usize].dbg.push(dbg);
        }
        Func { name: fd.name.clone(), params, nregs: p.regs.len() as u32, blocks, dbg }
    }

    pub fn load(path: &str) -> Module {
        let src = std::fs::read_to_string(path).expect("read .ll");
        let mut m = Module { src: String::new(), named: HashMap::new(), funcs: vec![], parsed: Default::default(), fidx: HashMap::new(), decls: HashMap::new(), decl_names: HashMap::new(), globals: vec![], gaddr: HashMap::new(), alias: HashMap::new(), metas: HashMap::new() };
        // pass 1: line scan
        let b = src.as_bytes();
        let mut i = 0;
        let n = b.len();
        let mut glines: Vec<(usize, usize)> = vec![];
        while i < n {
            let mut e = i; while e < n && b[e] != b'\n' { e += 1 }
            let line = &src[i..e];
            if line.starts_with('@') { glines.push((i, e)); }
            else if line.starts_with('%') {
                let mut p = P::new(&b[i + 1..e], None);
                let name = p.name(); p.exp("="); p.exp("type");
                let t = if p.pkid() == "opaque" { Ty::Struct(Rc::new(vec![]), false) } else { p.ty() };
                m.named.insert(name.as_str().into(), t);
            } else if line.starts_with("declare") || line.starts_with("define") {
                let at = line.find('@').unwrap();
                let mut p = P::new(&b[i + at + 1..e], None);
                let name: Rc<str> = p.name().as_str().into();
                let hs = i + at + 1 + p.i;
                if line.starts_with("declare") {
                    let a = FBASE + 0x10_0000 * 16 + 16 * m.decls.len() as u64;
                    m.decls.insert(name.clone(), a); m.decl_names.insert(a, name);
                } else {
                    let k = m.funcs.len();
                    // body ends at "\n}"
                    let mut q = e;
                    let be = loop { if b[q] == b'\n' && b[q + 1] == b'}' { break q + 1 } q += 1; };
                    m.funcs.push(FDef { name: name.clone(), head: (hs, e), body: (e + 1, be), addr: FBASE + 16 * (k as u64 + 1) });
                    m.fidx.insert(name, k as u32);
                    e = be; while e < n && b[e] != b'\n' { e += 1 }
                }
            } else if line.starts_with('!') {
                let d: String = line[1..].chars().take_while(|c| c.is_ascii_digit()).collect();
                if !d.is_empty() { m.metas.insert(d.parse().unwrap(), (i, e)); }
            }
            i = e + 1;
        }
        m.parsed = std::cell::RefCell::new((0..m.funcs.len()).map(|_| None).collect());
        // globals
        let mut id = 1u64;
        for (s, e) in glines {
            let mut p = P::new(&b[s + 1..e], Some(&m));
            let name: Rc<str> = p.name().as_str().into();
            p.exp("=");
            let mut ext = false; let mut tls = false; let konst;
            let mut al = false;
            loop {
                let w = p.id();
                match w {
                    "external" | "extern_weak" => ext = true,
                    "thread_local" => { tls = true; if p.s[p.i] == b'(' { p.balanced() } }
                    "global" => { konst = false; break }
                    "constant" => { konst = true; break }
                    "alias" => { al = true; konst = false; break }
                    "" => { if p.pk() == b'(' { p.balanced() } else { p.die("global") } }
                    _ => {}
                }
            }
            if al { p.ty(); p.exp(","); p.exp("ptr"); p.exp("@"); let t = p.name(); m.alias.insert(name, t.as_str().into()); continue; }
            let ty = p.ty();
            let off = s + 1 + p.i;
            let line = &src[s..e];
            let align = line.rfind(", align ").map(|i| line[i + 8..].chars().take_while(|c| c.is_ascii_digit()).collect::<String>().parse().unwrap()).unwrap_or(16);
            let size = m.size(&ty);
            assert!(size < (1 << SLOT) - 0x2000 && id < 1 << (31 - SLOT));
            let addr = (id << SLOT) + round(OFF0, align); id += 1;
            m.gaddr.insert(name.clone(), addr);
            m.globals.push(GDef { name, ty, init: if ext { None } else { Some((off, e)) }, size, align, konst, addr, tls });
        }
        m.src = src;
        m
    }
    pub fn ginit(&self, g: &GDef) -> Option<Val> {
        let (s, e) = g.init?;
        let mut p = P::new(&self.src.as_bytes()[s..e], Some(self));
        Some(p.kval(&g.ty))
    }
    // ---- debug info ----
    fn meta(&self, id: u32) -> &str { match self.metas.get(&id) { Some((s, e)) => &self.src[*s..*e], None => "" } }
    fn mref(t: &str, key: &str) -> Option<u32> {
        let k = format!("{key}: !"); let i = t.find(&k)?; t[i + k.len()..].chars().take_while(|c| c.is_ascii_digit()).collect::<String>().parse().ok()
    }
    fn mint(t: &str, key: &str) -> u32 { let k = format!("{key}: "); t.find(&k).and_then(|i| t[i + k.len()..].chars().take_while(|c| c.is_ascii_digit()).collect::<String>().parse().ok()).unwrap_or(0) }
    fn mstr<'b>(t: &'b str, key: &str) -> &'b str { let k = format!("{key}: \""); match t.find(&k) { Some(i) => { let r = &t[i + k.len()..]; &r[..r.find('"').unwrap_or(0)] } None => "" } }
    /// (file, function, line) of a DILocation and of every location it was inlined at
    pub fn locate(&self, mut id: u32) -> Vec<(String, String, u32)> {
        let mut out = vec![];
        let mut guard = 0;
        while id != 0 && guard < 40 {
            guard += 1;
            let t = self.meta(id);
            if t.is_empty() { break }
            let line = Self::mint(t, "line");
            let mut sc = Self::mref(t, "scope").unwrap_or(0);
            let mut file = String::new(); let mut func = String::new();
            let mut g2 = 0;
            while sc != 0 && g2 < 60 {
                g2 += 1;
                let st = self.meta(sc);
                if file.is_empty() { if let Some(f) = Self::mref(st, "file") { let ft = self.meta(f); let fname = Self::mstr(ft, "filename"); file = if fname.starts_with('/') { fname.to_string() } else { format!("{}/{}", Self::mstr(ft, "directory"), fname) }; } }
                if st.contains("!DISubprogram(") { func = Self::mstr(st, "name").to_string(); let mut up = Self::mref(st, "scope").unwrap_or(0); let mut path = vec![]; let mut g3 = 0; while up != 0 && g3 < 10 { g3 += 1; let ut = self.meta(up); if ut.contains("!DINamespace(") || ut.contains("!DICompositeType(") { path.push(Self::mstr(ut, "name").to_string()); up = Self::mref(ut, "scope").unwrap_or(0); } else { break } } path.reverse(); if !path.is_empty() { func = format!("{}::{}", path.join("::"), func); } break; }
                sc = Self::mref(st, "scope").unwrap_or(0);
            }
            out.push((file, func, line));
            id = Self::mref(t, "inlinedAt").unwrap_or(0);
        }
        out
    }
}
