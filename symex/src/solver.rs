//! Incremental SMT solving (QF_BV) with constraint caching and a portfolio fallback.
use crate::expr::*;
use std::collections::{HashMap, HashSet};
use std::io::{BufRead, BufReader, Write};
use std::process::{Child, ChildStdin, ChildStdout, Command, Stdio};
use std::rc::Rc;
use std::time::Instant;

#[derive(Clone)]
pub enum R { Sat(Rc<Model>), Unsat, Unknown }

pub struct Solver {
    child: Option<(Child, ChildStdin, BufReader<ChildStdout>)>,
    defined: HashSet<E>,
    tdef: HashSet<(u32, u16)>,
    vdef: HashSet<u32>,
    cache: HashMap<Vec<E>, R>,
    pub queries: u64, pub sat: u64, pub unsat: u64, pub unknown: u64, pub cached: u64, pub fallbacks: u64,
    pub time: f64, pub max_time: f64,
    pub timeout_ms: u64,
    pub cmds: Vec<Vec<String>>,
}

fn lit(v: u128, w: u16) -> String {
    if w % 4 == 0 { format!("#x{:0width$x}", v, width = (w / 4) as usize) } else { format!("#b{:0width$b}", v, width = w as usize) }
}
fn rf(e: E) -> String {
    let n = node(e);
    match n.op { Op::Const => lit(cv(e).unwrap(), n.w), Op::Var => format!("v{}", n.a), _ => format!("e{}", e) }
}
fn mux(vals: &[u128], w: u16, iw: u16, out: &mut String) {
    // vals indexed by x; split on the top bit
    if vals.iter().all(|v| *v == vals[0]) { out.push_str(&lit(vals[0], w)); return; }
    let h = vals.len() / 2;
    let bit = iw - 1;
    out.push_str(&format!("(ite (= ((_ extract {bit} {bit}) x) #b1) "));
    mux(&vals[h..], w, iw - 1, out); out.push(' '); mux(&vals[..h], w, iw - 1, out); out.push(')');
}

fn emit(roots: &[E], out: &mut String, defined: &mut HashSet<E>, tdef: &mut HashSet<(u32, u16)>, vdef: &mut HashSet<u32>) {
    let mut stack: Vec<E> = roots.to_vec();
    while let Some(&t) = stack.last() {
        let n = node(t);
        if n.op == Op::Const || defined.contains(&t) { stack.pop(); continue; }
        if n.op == Op::Var {
            if vdef.insert(n.a) { out.push_str(&format!("(declare-const v{} (_ BitVec {}))\n", n.a, n.w)); }
            stack.pop(); continue;
        }
        let (ch, k) = children(&n);
        let mut ready = true;
        for i in 0..k {
            let c = node(ch[i]);
            if c.op == Op::Const { continue; }
            if c.op == Op::Var { if vdef.insert(c.a) { out.push_str(&format!("(declare-const v{} (_ BitVec {}))\n", c.a, c.w)); } continue; }
            if !defined.contains(&ch[i]) { stack.push(ch[i]); ready = false; }
        }
        if !ready { continue; }
        stack.pop();
        let (a, b) = (rf(ch[0]), rf(ch[1]));
        let body = match n.op {
            Op::Add => format!("(bvadd {a} {b})"), Op::Sub => format!("(bvsub {a} {b})"), Op::Mul => format!("(bvmul {a} {b})"),
            Op::UDiv => format!("(bvudiv {a} {b})"), Op::SDiv => format!("(bvsdiv {a} {b})"), Op::URem => format!("(bvurem {a} {b})"), Op::SRem => format!("(bvsrem {a} {b})"),
            Op::Shl => format!("(bvshl {a} {b})"), Op::LShr => format!("(bvlshr {a} {b})"), Op::AShr => format!("(bvashr {a} {b})"),
            Op::And => format!("(bvand {a} {b})"), Op::Or => format!("(bvor {a} {b})"), Op::Xor => format!("(bvxor {a} {b})"),
            Op::Eq => format!("(ite (= {a} {b}) #b1 #b0)"), Op::Ult => format!("(ite (bvult {a} {b}) #b1 #b0)"), Op::Slt => format!("(ite (bvslt {a} {b}) #b1 #b0)"),
            Op::Ite => format!("(ite (= {a} #b1) {b} {})", rf(ch[2])),
            Op::Extract => format!("((_ extract {} {}) {a})", n.b + n.w as u32 - 1, n.b),
            Op::Concat => format!("(concat {a} {b})"),
            Op::SExt => format!("((_ sign_extend {}) {a})", n.w - width(n.a)),
            Op::Table => {
                let iw = width(n.a);
                if tdef.insert((n.b, n.w)) {
                    let t = cx().tables[n.b as usize].clone();
                    let mut m = String::new();
                    mux(&t, n.w, iw, &mut m);
                    out.push_str(&format!("(define-fun T{}_{} ((x (_ BitVec {iw}))) (_ BitVec {}) {m})\n", n.b, n.w, n.w));
                }
                format!("(T{}_{} {a})", n.b, n.w)
            }
            Op::Const | Op::Var => unreachable!(),
        };
        out.push_str(&format!("(define-fun e{} () (_ BitVec {}) {})\n", t, n.w, body));
        defined.insert(t);
    }
}

impl Solver {
    pub fn new() -> Solver {
        Solver { child: None, defined: HashSet::new(), tdef: HashSet::new(), vdef: HashSet::new(), cache: HashMap::new(), queries: 0, sat: 0, unsat: 0, unknown: 0, cached: 0, fallbacks: 0, time: 0.0, max_time: 0.0, timeout_ms: 20000,
            cmds: vec![vec!["z3-new".into(), "-in".into()], vec!["cvc5".into(), "--lang=smt2".into(), "--produce-models".into()]] }
    }
    fn start(&mut self) {
        let mut c = Command::new(&self.cmds[0][0]).args(&self.cmds[0][1..]).stdin(Stdio::piped()).stdout(Stdio::piped()).stderr(Stdio::null()).spawn().expect("start solver");
        let mut i = c.stdin.take().unwrap();
        let o = BufReader::new(c.stdout.take().unwrap());
        i.write_all(format!("(set-option :global-declarations true)\n(set-option :produce-models true)\n(set-option :timeout {})\n(set-logic QF_BV)\n", self.timeout_ms).as_bytes()).unwrap();
        self.child = Some((c, i, o));
        self.defined.clear(); self.tdef.clear(); self.vdef.clear();
    }
    pub fn kill(&mut self) { if let Some((mut c, _, _)) = self.child.take() { let _ = c.kill(); let _ = c.wait(); } }

    pub fn check(&mut self, cs: &[E]) -> R {
        let mut key: Vec<E> = cs.iter().copied().filter(|c| cv(*c) != Some(1)).collect();
        key.sort(); key.dedup();
        if key.iter().any(|c| cv(*c) == Some(0)) { return R::Unsat; }
        if key.is_empty() { return R::Sat(Model::new(HashMap::new())); }
        if let Some(r) = self.cache.get(&key) { self.cached += 1; return r.clone(); }
        let t0 = Instant::now();
        self.queries += 1;
        let mut vars: Vec<u32> = vec![];
        for c in &key { vars.extend(support(*c).iter()); }
        vars.sort(); vars.dedup();
        let r = match self.inc(&key, &vars) { R::Unknown => { self.fallbacks += 1; self.oneshot(&key, &vars) } r => r };
        if let R::Sat(m) = &r {
            for c in &key { if m.eval(*c) != 1 { panic!("solver model does not satisfy the constraint {}", show(*c, 6)); } }
        }
        let dt = t0.elapsed().as_secs_f64();
        self.time += dt; if dt > self.max_time { self.max_time = dt; }
        if dt > 3.0 && std::env::var("SX_SLOW").is_ok() { eprintln!("SLOW {dt:.1}"); for c in &key { eprintln!("  {}", show(*c, 14)); } }
        match r { R::Sat(_) => self.sat += 1, R::Unsat => self.unsat += 1, R::Unknown => self.unknown += 1 }
        if self.cache.len() > 200_000 { self.cache.clear(); }
        self.cache.insert(key, r.clone());
        r
    }
    fn inc(&mut self, key: &[E], vars: &[u32]) -> R {
        if self.child.is_none() || self.defined.len() > 60_000 { self.kill(); self.start(); }
        let mut out = String::new();
        emit(key, &mut out, &mut self.defined, &mut self.tdef, &mut self.vdef);
        out.push_str("(push 1)\n");
        for c in key { out.push_str(&format!("(assert (= {} #b1))\n", rf(*c))); }
        out.push_str("(check-sat)\n");
        let (_, i, o) = self.child.as_mut().unwrap();
        if i.write_all(out.as_bytes()).is_err() { self.kill(); return R::Unknown; }
        let _ = i.flush();
        let mut line = String::new();
        if o.read_line(&mut line).unwrap_or(0) == 0 { self.kill(); return R::Unknown; }
        match line.trim() {
            "sat" => {
                let mut q = String::from("(get-value (");
                for v in vars { q.push_str(&format!("v{v} ")); }
                q.push_str("))\n(pop 1)\n");
                i.write_all(q.as_bytes()).unwrap(); let _ = i.flush();
                let txt = read_sexp(o);
                R::Sat(Model::new(parse_vals(&txt)))
            }
            "unsat" => { let _ = i.write_all(b"(pop 1)\n"); R::Unsat }
            "unknown" => { let _ = i.write_all(b"(pop 1)\n"); R::Unknown }
            s => { eprintln!("solver said: {s}"); self.kill(); R::Unknown }
        }
    }
    /// the whole query as a standalone script
    pub fn script(key: &[E], vars: &[u32]) -> String {
        let mut out = String::from("(set-option :produce-models true)\n(set-logic QF_BV)\n");
        emit(key, &mut out, &mut HashSet::new(), &mut HashSet::new(), &mut HashSet::new());
        for c in key { out.push_str(&format!("(assert (= {} #b1))\n", rf(*c))); }
        out.push_str("(check-sat)\n");
        if !vars.is_empty() { out.push_str("(get-value ("); for v in vars { out.push_str(&format!("v{v} ")); } out.push_str("))\n"); }
        out
    }
    fn oneshot(&mut self, key: &[E], vars: &[u32]) -> R {
        let s = Self::script(key, vars);
        let limit = self.timeout_ms / 1000 * 4;
        for cmd in [vec!["z3-new".to_string(), "-in".into(), format!("-T:{limit}")], vec!["cvc5".into(), "--lang=smt2".into(), format!("--tlimit={}", limit * 1000)]] {
            let mut c = Command::new(&cmd[0]).args(&cmd[1..]).stdin(Stdio::piped()).stdout(Stdio::piped()).stderr(Stdio::null()).spawn().expect("solver");
            let mut si = c.stdin.take().unwrap();
            let s2 = s.clone();
            let h = std::thread::spawn(move || { let _ = si.write_all(s2.as_bytes()); });
            let out = c.wait_with_output().unwrap();
            let _ = h.join();
            let t = String::from_utf8_lossy(&out.stdout).into_owned();
            let first = t.lines().next().unwrap_or("").trim().to_string();
            match first.as_str() {
                "unsat" => return R::Unsat,
                "sat" => { let rest = &t[t.find('\n').unwrap()..]; return R::Sat(Model::new(parse_vals(rest))); }
                _ => {}
            }
        }
        R::Unknown
    }
}
fn read_sexp(o: &mut BufReader<ChildStdout>) -> String {
    let mut s = String::new(); let mut d = 0i32; let mut started = false;
    loop {
        let mut line = String::new();
        if o.read_line(&mut line).unwrap_or(0) == 0 { return s; }
        for c in line.bytes() { if c == b'(' { d += 1; started = true } else if c == b')' { d -= 1 } }
        s.push_str(&line);
        if started && d <= 0 { return s; }
    }
}
fn parse_vals(t: &str) -> HashMap<u32, u128> {
    let mut m = HashMap::new();
    let tok: Vec<&str> = t.split(|c: char| c.is_whitespace() || c == '(' || c == ')').filter(|x| !x.is_empty()).collect();
    let mut i = 0;
    while i + 1 < tok.len() {
        if let Some(v) = tok[i].strip_prefix('v') {
            if let Ok(v) = v.parse::<u32>() {
                let l = tok[i + 1];
                let val = if let Some(h) = l.strip_prefix("#x") { u128::from_str_radix(h, 16).unwrap() } else if let Some(b) = l.strip_prefix("#b") { u128::from_str_radix(b, 2).unwrap() } else { i += 1; continue };
                m.insert(v, val); i += 2; continue;
            }
        }
        i += 1;
    }
    m
}
