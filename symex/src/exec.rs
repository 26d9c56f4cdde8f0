//! The symbolic interpreter.
use crate::expr::*;
use crate::ir::*;
use crate::mem::*;
use crate::solver::{Solver, R};
use std::collections::{BTreeMap, HashMap, HashSet};
use std::rc::Rc;
use std::time::Instant;

#[derive(Clone)]
pub struct Frame { pub f: Rc<Func>, pub fid: u32, pub bb: u32, pub ip: u32, pub regs: Vec<Val>, pub allocas: Vec<u64>, pub dst: Option<u32>, pub norm: Option<u32> }

#[derive(Clone)]
pub struct UfApp { pub name: Rc<str>, pub inp: Rc<Vec<E>>, pub out: Rc<Vec<E>> }
#[derive(Clone)]
pub enum Ev { Any(Rc<Vec<E>>), Bits(E), Choose(u32) }

#[derive(Clone)]
pub struct State {
    pub frames: Vec<Frame>, pub mem: Mem, pub pc: Vec<E>, pub model: Rc<Model>,
    pub ufs: Vec<Rc<UfApp>>, pub tape: Vec<Ev>, pub watch: Vec<(u64, Option<Rc<Vec<E>>>)>, pub notes: Vec<(Rc<str>, Rc<Vec<E>>)>,
    pub nchoose: u32, pub covers: Vec<Rc<str>>, pub steps: u64,
}

pub enum Ctl { Next, Goto(u32), Dead, Done, Pushed }
#[derive(Debug)]
pub enum Stop { Dead, Done, Err(String), Viol(String, String), Ahead } // Viol(tag, detail)
type Res<T> = Result<T, Stop>;

#[derive(Clone)]
pub struct Violation { pub tag: String, pub detail: String, pub tape: String, pub trace: Vec<String> }

pub struct Limits { pub max_paths: u64, pub max_steps: u64, pub wall: f64, pub stop: u64 }

pub struct Exec<'a> {
    pub m: &'a Module, pub s: Solver, pub work: Vec<State>,
    pub cov: Vec<Vec<bool>>, pub lim: Limits, pub t0: Instant,
    pub paths: u64, pub pruned: u64, pub steps: u64, pub forks: u64,
    pub checks: BTreeMap<String, [u64; 4]>, // tag -> [smt-discharged, simplifier-discharged, violated, reached]
    pub covers: BTreeMap<String, u64>,
    pub viols: Vec<Violation>, pub reported: u64, pub errors: Vec<String>, pub samples: Vec<String>, pub max_samples: usize,
    pub shard: (u32, u32), pub funcs_by_addr: HashMap<u64, u32>, pub ext_used: HashSet<String>,
    pub uf_apps: BTreeMap<String, u64>, pub errno: u64, pub cross: bool, pub crossed: u64, pub incomplete: bool, pub seed: u64,
    pub ufv: HashMap<(String, Vec<E>, usize, usize), Vec<E>>, pub nv: HashMap<(String, u16), E>, pub sites: HashMap<(u32, u32, u32), u64>,
    /// running ahead to a join: nesting depth, remaining instructions, and the states at block entries
    pub ahead: u32, pub budget: u64, pub snaps: Vec<State>, pub wide: Vec<(u64, u64)>, rnd: u64, pub guessed: u64, blind: bool, pub flows: crate::merge::Flows, pub joins: u64, pub ranged: u64, ranges: crate::range::Ranges, pub nojoin: HashMap<(u32, u32), u32>,
}

pub fn ve(e: E) -> Val { match cv(e) { Some(v) => Val::C(v), None => Val::S(e) } }
pub fn te(v: &Val, w: u16) -> E { match v { Val::C(k) => konst(*k, w), Val::S(e) => *e, Val::A(_) => panic!("aggregate as scalar") } }

fn err<T>(s: impl Into<String>) -> Res<T> { Err(Stop::Err(s.into())) }

impl<'a> Exec<'a> {
    pub fn new(m: &'a Module, lim: Limits) -> Exec<'a> {
        let mut funcs_by_addr = HashMap::new();
        for (k, f) in m.funcs.iter().enumerate() { funcs_by_addr.insert(f.addr, k as u32); }
        Exec { m, s: Solver::new(), work: vec![], cov: (0..m.funcs.len()).map(|_| vec![]).collect(), lim, t0: Instant::now(), paths: 0, pruned: 0, steps: 0, forks: 0,
            checks: BTreeMap::new(), covers: BTreeMap::new(), viols: vec![], reported: 0, errors: vec![], samples: vec![], max_samples: 4, shard: (0, 1), funcs_by_addr, ext_used: HashSet::new(), uf_apps: BTreeMap::new(), errno: 0, cross: false, crossed: 0, incomplete: false, seed: 1, ufv: HashMap::new(), nv: HashMap::new(), sites: HashMap::new(), ahead: 0, budget: 0, snaps: vec![], wide: vec![], rnd: 0x9e3779b97f4a7c15, guessed: 0, blind: false, flows: crate::merge::Flows(HashMap::new()), joins: 0, ranged: 0, ranges: Default::default(), nojoin: HashMap::new() }
    }
    fn flat(&self, t: &Ty, v: &Val, o: &mut Obj, off: usize) {
        match t {
            Ty::Arr(_, e) | Ty::Vec(_, e) => if let Val::A(vs) = v { let sz = self.m.size(e) as usize; for (i, x) in vs.iter().enumerate() { self.flat(&self.m.resolve(e), x, o, off + i * sz); } },
            Ty::Struct(f, p) => if let Val::A(vs) = v { for (i, x) in vs.iter().enumerate() { self.flat(&self.m.resolve(&f[i]), x, o, off + self.m.field_off(f, *p, i) as usize); } },
            _ => if let Val::C(k) = v { let n = self.m.size(t) as usize; for i in 0..n.min(16) { o.conc[off + i] = (k >> (8 * i)) as u8; } },
        }
    }
    pub fn init_state(&mut self) -> State {
        let mut gl: Vec<Option<Rc<Obj>>> = vec![None];
        for g in &self.m.globals {
            let mut o = Obj { base: g.addr, conc: vec![0; g.size as usize], sym: vec![], konst: g.konst, heap: false };
            if let Some(v) = self.m.ginit(g) { self.flat(&self.m.resolve(&g.ty), &v, &mut o, 0); }
            gl.push(Some(Rc::new(o)));
        }
        let mut mem = Mem::new(gl);
        self.errno = mem.alloc(16, 16, true).unwrap();
        State { frames: vec![], mem, pc: vec![], model: Model::new(HashMap::new()), ufs: vec![], tape: vec![], watch: vec![], notes: vec![], nchoose: 0, covers: vec![], steps: 0 }
    }
    fn push_frame(&mut self, st: &mut State, fid: u32, args: &[Val], dst: Option<u32>, norm: Option<u32>) -> Res<()> {
        let f = self.m.func(fid);
        if st.frames.len() > 400 { return err("call depth"); }
        let mut regs = vec![Val::C(0); f.nregs as usize];
        for (i, p) in f.params.iter().enumerate() { if i < args.len() { regs[*p as usize] = args[i].clone(); } }
        if self.cov[fid as usize].is_empty() { self.cov[fid as usize] = vec![false; f.blocks.len()]; }
        self.cov[fid as usize][0] = true;
        st.frames.push(Frame { f, fid, bb: 0, ip: 0, regs, allocas: vec![], dst, norm });
        Ok(())
    }
    pub fn run(&mut self, entry: &str) {
        let fid = match self.m.fidx.get(entry) { Some(k) => *k, None => { self.errors.push(format!("no harness {entry}")); return } };
        let mut st = self.init_state();
        if self.push_frame(&mut st, fid, &[], None, None).is_err() { return; }
        self.work.push(st);
        while let Some(mut st) = self.work.pop() {
            if self.t0.elapsed().as_secs_f64() > self.lim.wall || self.paths + self.pruned > self.lim.max_paths { self.incomplete = true; self.errors.push("limit reached: wall or paths".into()); break; }
            loop {
                match self.step(&mut st) {
                    Ok(()) => {}
                    Err(Stop::Dead) => { self.pruned += 1; break }
                    Err(Stop::Ahead) => { self.errors.push("ahead".into()); break }
                    Err(Stop::Done) => {
                        self.paths += 1;
                        for c in &st.covers { *self.covers.entry(c.to_string()).or_insert(0) += 1; }
                        let keep = self.samples.len() < self.max_samples;
                        if keep { let t = self.tape(&st, &st.model.clone()); self.samples.push(t); }
                        break
                    }
                    Err(Stop::Err(e)) => { let tr = self.trace(&st); if self.errors.len() < 5 { self.errors.push(format!("{e} :: {}", tr.join(" <- "))); } else { self.errors.push("more".into()) } if self.errors.len() > 20 { self.incomplete = true; return; } break }
                    Err(Stop::Viol(tag, detail)) => { self.paths += 1; let m = st.model.clone(); self.report(&st, &m, &tag, &detail); break }
                }
            }
            if self.viols.len() >= 40 || (self.lim.stop > 0 && self.reported >= self.lim.stop) { self.incomplete = true; break; }
        }
    }
    pub fn report(&mut self, st: &State, m: &Rc<Model>, tag: &str, detail: &str) {
        self.checks.entry(tag.to_string()).or_default()[2] += 1;
        self.reported += 1;
        if self.viols.iter().filter(|v| v.tag == tag).count() >= 6 { return; }
        let v = Violation { tag: tag.into(), detail: detail.into(), tape: self.tape(st, m), trace: self.trace(st) };
        self.viols.push(v);
    }
    pub fn trace(&self, st: &State) -> Vec<String> {
        let mut out = vec![];
        for fr in st.frames.iter().rev() {
            let b = &fr.f.blocks[fr.bb as usize];
            let d = b.dbg.get(fr.ip as usize).copied().unwrap_or(0);
            let l = self.m.locate(d);
            if l.is_empty() { out.push(format!("{}:{}:{}", fr.f.name, b.name, fr.ip)); }
            for (f, func, line) in l { out.push(format!("{func} ({f}:{line})")); }
            if out.len() > 14 { break }
        }
        out
    }
    fn hex(&self, es: &[E], m: &Model) -> String { es.iter().map(|e| format!("{:02x}", m.eval(*e) as u8)).collect() }
    pub fn tape(&self, st: &State, m: &Rc<Model>) -> String {
        // line-based: any <hex> / bits <v> / choose <v> / uf name in out
        let mut s = String::new();
        for e in &st.tape { match e {
            Ev::Any(v) => s.push_str(&format!("any {}\n", if v.is_empty() { "-".into() } else { self.hex(v, m) })),
            Ev::Bits(e) => s.push_str(&format!("bits {}\n", m.eval(*e))),
            Ev::Choose(k) => s.push_str(&format!("choose {}\n", k)),
        } }
        for u in &st.ufs { s.push_str(&format!("uf {} {} {}\n", u.name, if u.inp.is_empty() { "-".into() } else { self.hex(&u.inp, m) }, if u.out.is_empty() { "-".into() } else { self.hex(&u.out, m) })); }
        s
    }

    // ---------- constraints ----------
    fn slice(&self, st: &State, c: E) -> Vec<E> {
        let mut vars: HashSet<u32> = support(c).iter().copied().collect();
        let mut used = vec![false; st.pc.len()];
        loop {
            let mut ch = false;
            for (i, p) in st.pc.iter().enumerate() {
                if used[i] { continue; }
                let s = support(*p);
                if s.iter().any(|v| vars.contains(v)) { used[i] = true; ch = true; for v in s.iter() { vars.insert(*v); } }
            }
            if !ch { break }
        }
        let mut out: Vec<E> = (0..used.len()).filter(|i| used[*i]).map(|i| st.pc[i]).collect();
        out.push(c);
        out
    }
    fn known(&self, st: &State, c: E) -> Option<bool> {
        if let Some(v) = cv(c) { return Some(v != 0); }
        let n = not1(c);
        for p in &st.pc { if *p == c { return Some(true); } if *p == n { return Some(false); } }
        None
    }
    /// a model of pc and c by changing a few bits of the present one
    fn guess(&mut self, st: &State, cs: &[E], c: E) -> Option<Rc<Model>> {
        let vs = support(c);
        if vs.len() > 3 || cs.len() > 24 { return None; }
        let mut base: HashMap<u32, u128> = HashMap::new();
        for p in cs { for v in support(*p).iter() { if let Some(x) = st.model.vals.get(v) { base.insert(*v, *x); } } }
        for _ in 0..12 {
            let mut t = base.clone();
            for v in vs.iter() {
                self.rnd ^= self.rnd << 13; self.rnd ^= self.rnd >> 7; self.rnd ^= self.rnd << 17;
                let r = self.rnd;
                let w = cx().vars[*v as usize].1;
                let x = t.get(v).copied().unwrap_or(0);
                t.insert(*v, (if r & 1 == 0 { x ^ 1u128 << ((r >> 8) % w as u64) } else { (r >> 8) as u128 }) & mask(w));
            }
            let m = Model::new(t);
            if m.eval(c) == 1 && cs.iter().all(|p| m.eval(*p) == 1) {
                let mut v = st.model.vals.clone();
                for (k, x) in &m.vals { v.insert(*k, *x); }
                self.guessed += 1;
                return Some(Model::new(v));
            }
        }
        None
    }
    /// a model of pc and c, if there is one
    fn sat(&mut self, st: &State, c: E) -> Res<Option<Rc<Model>>> {
        match self.known(st, c) { Some(true) => return Ok(Some(st.model.clone())), Some(false) => return Ok(None), None => {} }
        if self.blind { return Err(Stop::Ahead); }
        if st.model.eval(c) == 1 { return Ok(Some(st.model.clone())); }
        if self.t0.elapsed().as_secs_f64() > self.lim.wall { self.incomplete = true; return err("limit reached: wall"); }
        let cs = self.slice(st, c);
        if let Some(m) = self.guess(st, &cs, c) { return Ok(Some(m)); }
        match self.s.check(&cs) {
            R::Unsat => Ok(None),
            R::Sat(m) => {
                let mut v = st.model.vals.clone();
                for (k, x) in &m.vals { v.insert(*k, *x); }
                Ok(Some(Model::new(v)))
            }
            R::Unknown => err("solver gave no answer"),
        }
    }
    fn assume(&self, st: &mut State, c: E, m: Rc<Model>) {
        st.model = m;
        let mut todo = vec![c];
        while let Some(c) = todo.pop() {
            if cv(c) == Some(1) { continue; }
            let n = node(c);
            if n.op == Op::And { todo.push(n.a); todo.push(n.b); continue; }
            if let Some(x) = is_not(c) { let nx = node(x); if nx.op == Op::Or { todo.push(not1(nx.a)); todo.push(not1(nx.b)); continue; } }
            if !st.pc.contains(&c) { st.pc.push(c); }
        }
    }
    /// the intervals of the terms rule a condition out
    fn outside(&mut self, st: &State, c: E) -> bool {
        let mut cs = self.slice(st, c);
        cs.pop();
        let r = self.ranges.impossible(&cs, c);
        self.ranged += r as u64;
        r
    }
    /// decide a condition, forking if both outcomes are possible; the fork re-executes the current instruction
    fn decide(&mut self, st: &mut State, c: E) -> Res<bool> {
        if let Some(b) = self.known(st, c) { return Ok(b); }
        if self.blind { return Err(Stop::Ahead); }
        let v = st.model.eval(c) == 1;
        let oc = if v { not1(c) } else { c };
        if self.outside(st, oc) { return Ok(v); }
        if let Some(m) = self.sat(st, oc)? {
            if self.ahead > 0 { return Err(Stop::Ahead); }
            let mut o = st.clone();
            self.assume(&mut o, oc, m);
            self.forked(st);
            self.work.push(o);
            let m = st.model.clone();
            self.assume(st, if v { c } else { not1(c) }, m);
        }
        Ok(v)
    }
    fn forked(&mut self, st: &State) { self.forks += 1; let f = st.frames.last().unwrap(); *self.sites.entry((f.fid, f.bb, f.ip)).or_default() += 1; }
    /// fix an expression to one value, forking over the others
    fn conc(&mut self, st: &mut State, v: &Val, w: u16) -> Res<u128> {
        match v {
            Val::C(k) => Ok(*k),
            Val::S(e) => {
                if self.blind { return Err(Stop::Ahead); }
                let k = st.model.eval(*e);
                let c = eq(*e, konst(k, w));
                if let Some(m) = self.sat(st, not1(c))? {
                    if self.ahead > 0 { return Err(Stop::Ahead); }
                    let mut o = st.clone();
                    self.assume(&mut o, not1(c), m);
                    self.forked(st);
                    if self.work.len() > 100_000 { return err("too many forks"); }
                    self.work.push(o);
                    let m = st.model.clone();
                    self.assume(st, c, m);
                }
                Ok(k)
            }
            Val::A(_) => err("aggregate address"),
        }
    }

    pub fn decide_(&mut self, st: &mut State, c: E) -> Res<bool> { self.decide(st, c) }
    pub fn conc_(&mut self, st: &mut State, v: &Val, w: u16) -> Res<u128> { self.conc(st, v, w) }
    pub fn bytes_(&mut self, st: &mut State, p: &Val, n: u64) -> Res<Vec<E>> { self.bytes(st, p, n) }
    pub fn put_(&mut self, st: &mut State, a: u64, b: &[E]) -> Res<()> { self.put(st, a, b) }
    pub fn sat_(&mut self, st: &State, c: E) -> Res<Option<Rc<Model>>> { self.sat(st, c) }
    pub fn assume_(&mut self, st: &mut State, c: E, m: Rc<Model>) { self.assume(st, c, m) }
    pub fn uf_vars(&mut self) -> &mut HashMap<(String, Vec<E>, usize, usize), Vec<E>> { &mut self.ufv }
    /// variables are shared between sibling paths by name
    pub fn named_var(&mut self, st: &mut State, name: &str, w: u16) -> E {
        let k = (name.to_string(), w);
        let e = match self.nv.get(&k) { Some(e) => *e, None => { let e = var(name, w); self.nv.insert(k, e); e } };
        let id = node(e).a;
        if !st.model.vals.contains_key(&id) {
            let r = crate::mix("init", format!("{name}/{}", self.seed).as_bytes(), 16);
            let mut v = 0u128; for b in r { v = v << 8 | b as u128; }
            let mut mv = st.model.vals.clone(); mv.insert(id, v & mask(w));
            st.model = Model::new(mv);
        }
        e
    }
    pub fn finish_call(&mut self, st: &mut State, v: Val) {
        let fr = st.frames.last_mut().unwrap();
        let f = fr.f.clone();
        if let Inst::Call { dst, norm, .. } = &f.blocks[fr.bb as usize].ins[fr.ip as usize] {
            if let Some(d) = dst { fr.regs[*d as usize] = v; }
            match norm { Some(n) => { let n = *n; self.goto(st, n) } None => fr.ip += 1 }
        }
    }
    /// second opinion on an unsatisfiable obligation
    pub fn cross_check(&mut self, st: &State, c: E) -> Res<()> {
        let cs = self.slice(st, c);
        let s = Solver::script(&cs, &[]);
        match crate::cvc5(&s) { Some(true) => return err("solvers disagree"), Some(false) => self.crossed += 1, None => {} }
        Ok(())
    }

    // ---------- values ----------
    #[inline] fn get<'b>(fr: &'b Frame, o: &'b Opd) -> &'b Val { match o { Opd::R(r) => &fr.regs[*r as usize], Opd::K(v) => v } }

    fn bin(&mut self, op: Op, w: u16, a: &Val, b: &Val) -> Val {
        match (a, b) {
            (Val::C(x), Val::C(y)) => {
                let y = *y;
                Val::C(fold(op, w, *x & mask(w), y & mask(w), w, w))
            }
            _ => { if w > 128 { panic!("wide int op") } ve(binop(op, te(a, w), te(b, w))) }
        }
    }
    fn icmp(p: Pred, w: u16, a: &Val, b: &Val) -> Val {
        if let (Val::C(x), Val::C(y)) = (a, b) {
            let (x, y) = (*x & mask(w), *y & mask(w));
            let (sx_, sy) = (sx(x, w), sx(y, w));
            let r = match p { Pred::Eq => x == y, Pred::Ne => x != y, Pred::Ugt => x > y, Pred::Uge => x >= y, Pred::Ult => x < y, Pred::Ule => x <= y, Pred::Sgt => sx_ > sy, Pred::Sge => sx_ >= sy, Pred::Slt => sx_ < sy, Pred::Sle => sx_ <= sy };
            return Val::C(r as u128);
        }
        let (a, b) = (te(a, w), te(b, w));
        ve(match p { Pred::Eq => eq(a, b), Pred::Ne => ne(a, b), Pred::Ugt => ult(b, a), Pred::Uge => ule(b, a), Pred::Ult => ult(a, b), Pred::Ule => ule(a, b), Pred::Sgt => slt(b, a), Pred::Sge => sle(b, a), Pred::Slt => slt(a, b), Pred::Sle => sle(a, b) })
    }
    fn elems(v: &Val, n: u32) -> Vec<Val> { match v { Val::A(x) => (**x).clone(), Val::C(0) => vec![Val::C(0); n as usize], v => vec![v.clone()] } }
    fn cast1(k: CastK, fw: u16, tw: u16, v: &Val) -> Val {
        match (k, v) {
            (CastK::Copy, v) => v.clone(),
            (CastK::Trunc, Val::C(x)) => Val::C(x & mask(tw)),
            (CastK::ZExt, Val::C(x)) => Val::C(x & mask(fw)),
            (CastK::SExt, Val::C(x)) => Val::C(sx(x & mask(fw), fw) as u128 & mask(tw)),
            (CastK::Trunc, Val::S(e)) => ve(trunc(*e, tw)),
            (CastK::ZExt, Val::S(e)) => ve(zext(*e, tw)),
            (CastK::SExt, Val::S(e)) => ve(sext(*e, tw)),
            (CastK::Bitcast, v) => v.clone(),
            _ => panic!("cast"),
        }
    }
    fn bitcast(from: Sh, to: Sh, v: &Val) -> Val {
        if from.n == to.n && from.w == to.w { return v.clone(); }
        // to bits
        let bits: Vec<(Val, u16)> = if from.n == 0 { vec![(v.clone(), from.w)] } else { Self::elems(v, from.n).into_iter().map(|x| (x, from.w)).collect() };
        if to.n == 0 {
            let mut acc: Option<E> = None; // little end first
            for (x, w) in bits.iter() { let e = te(x, *w); acc = Some(match acc { None => e, Some(a) => concat(e, a) }); }
            ve(acc.unwrap())
        } else {
            // gather the bits of each target element
            let mut out = vec![];
            let fw = from.w;
            for i in 0..to.n {
                let lo = i * to.w as u32;
                let mut acc: Option<E> = None; let mut p = lo;
                while p < lo + to.w as u32 {
                    let k = (p / fw as u32) as usize; let o = (p % fw as u32) as u16;
                    let t = (fw - o).min((lo + to.w as u32 - p) as u16);
                    let e = extract(te(&bits[k].0, fw), o, t);
                    acc = Some(match acc { None => e, Some(a) => concat(e, a) });
                    p += t as u32;
                }
                out.push(ve(acc.unwrap()));
            }
            Val::A(Rc::new(out))
        }
    }
    fn vmap2(sh: Sh, a: &Val, b: &Val, mut f: impl FnMut(&Val, &Val) -> Val) -> Val {
        if sh.n == 0 { return f(a, b); }
        let (x, y) = (Self::elems(a, sh.n), Self::elems(b, sh.n));
        Val::A(Rc::new((0..sh.n as usize).map(|i| f(&x[i], &y[i])).collect()))
    }
    fn select(&mut self, st: &State, c: E, a: &Val, b: &Val, ty: &Ty) -> Val {
        match ty {
            Ty::Struct(f, _) => { let (x, y) = (Self::elems(a, f.len() as u32), Self::elems(b, f.len() as u32)); Val::A(Rc::new((0..f.len()).map(|i| { let t = self.m.resolve(&f[i]); self.select(st, c, &x[i], &y[i], &t) }).collect())) }
            Ty::Arr(n, e) | Ty::Vec(n, e) => { let (x, y) = (Self::elems(a, *n as u32), Self::elems(b, *n as u32)); let t = self.m.resolve(e); Val::A(Rc::new((0..*n as usize).map(|i| self.select(st, c, &x[i], &y[i], &t)).collect())) }
            t => { let w = self.width(t); ve(ite(c, te(a, w), te(b, w))) }
        }
    }
    fn width(&self, t: &Ty) -> u16 { match t { Ty::Int(w) => *w, Ty::Ptr | Ty::F64 => 64, Ty::F32 => 32, _ => panic!("width of {:?}", t) } }

    // ---------- memory ----------
    fn load(&mut self, st: &mut State, p: &Val, ty: &Ty) -> Res<Val> {
        match ty {
            Ty::Struct(f, pk) => { let mut v = vec![]; for (i, t) in f.iter().enumerate() { let o = self.m.field_off(f, *pk, i); let q = self.padd(p, o); let t = self.m.resolve(t); v.push(self.load(st, &q, &t)?); } Ok(Val::A(Rc::new(v))) }
            Ty::Arr(n, e) | Ty::Vec(n, e) => {
                if let Ty::Int(w) = **e { if w % 8 != 0 { return err("load of a bit vector"); } }
                let sz = self.m.size(e); let t = self.m.resolve(e); let mut v = vec![];
                for i in 0..*n { let q = self.padd(p, i * sz); v.push(self.load(st, &q, &t)?); }
                Ok(Val::A(Rc::new(v)))
            }
            Ty::Int(w) if *w > 128 => err("wide load"),
            t => {
                let w = self.width(t); let n = (w as u64 + 7) / 8;
                let v = self.load_n(st, p, n)?;
                Ok(if w as u64 == n * 8 { v } else { Self::cast1(CastK::Trunc, (n * 8) as u16, w, &v) })
            }
        }
    }
    fn padd(&self, p: &Val, o: u64) -> Val { if o == 0 { return p.clone(); } match p { Val::C(k) => Val::C((*k as u64).wrapping_add(o) as u128), Val::S(e) => ve(add(*e, konst(o as u128, 64))), _ => panic!("padd") } }
    fn load_n(&mut self, st: &mut State, p: &Val, n: u64) -> Res<Val> {
        match p {
            Val::C(a) => match st.mem.read(*a as u64, n) { Some(v) => Ok(v), None => Err(Stop::Viol("memory".into(), format!("load of {n} bytes at invalid address {a:#x}"))) },
            Val::S(e) => self.load_sym(st, *e, n),
            _ => err("load address"),
        }
    }
    fn load_sym(&mut self, st: &mut State, e: E, n: u64) -> Res<Val> {
        let w = (n * 8) as u16;
        // if-then-else of concrete addresses
        if let Some(v) = self.load_ite(st, e, n, 0) { return Ok(v); }
        if let Some(x) = cut(e) {
            let xw = width(x);
            if xw <= 13 {
                if let Some(vals) = as_fn_of(e, x) {
                    let mut tab: Vec<Option<u128>> = Vec::with_capacity(vals.len());
                    let mut bad = false; let mut symb = false;
                    for a in &vals {
                        match st.mem.read(*a as u64, n) { Some(Val::C(v)) => tab.push(Some(v)), Some(_) => { symb = true; tab.push(None) } None => { bad = true; tab.push(None) } }
                    }
                    if bad {
                        // which x values are bad: must be infeasible
                        let bt: Vec<u128> = vals.iter().map(|a| st.mem.at(*a as u64, n).is_none() as u128).collect();
                        let bc = mk_table(x, bt, 1);
                        if let Some(m) = self.sat(st, bc)? {
                            st.model = m;
                            return Err(Stop::Viol("memory".into(), format!("load at an out-of-range symbolic address {}", show(e, 4))));
                        }
                    }
                    if !symb {
                        // a value for the infeasible ones: repeat a feasible one
                        let d = tab.iter().flatten().next().copied().unwrap_or(0);
                        let mut last = d;
                        let t: Vec<u128> = tab.iter().map(|v| { if let Some(v) = v { last = *v; } last }).collect();
                        return Ok(ve(mk_table(x, t, w)));
                    }
                    // symbolic contents: ite chain over distinct addresses
                    let mut addrs: Vec<u128> = vals.clone(); addrs.sort(); addrs.dedup();
                    if addrs.len() <= 300 {
                        let mut acc: Option<E> = None;
                        for a in addrs.iter() {
                            if let Some(v) = st.mem.read(*a as u64, n) {
                                let v = te(&v, w);
                                acc = Some(match acc { None => v, Some(r) => { let c = mk_table(x, vals.iter().map(|y| (y == a) as u128).collect(), 1); ite(c, v, r) } });
                            }
                        }
                        return Ok(ve(acc.unwrap()));
                    }
                }
            }
        }
        if let Some(v) = self.load_object(st, e, n)? { return Ok(v); }
        if std::env::var("SX_DEBUG").is_ok() { eprintln!("symbolic load address {} cut {:?}", show(e, 12), cut(e).map(|x| show(x, 6))); }
        let a = self.conc(st, &Val::S(e), 64)?;
        self.load_n(st, &Val::C(a), n)
    }
    /// an aligned element, with concrete content, of one object, at an arbitrary index
    fn load_object(&mut self, st: &mut State, e: E, n: u64) -> Res<Option<Val>> {
        if !n.is_power_of_two() || n > 8 { return Ok(None); }
        let a = st.model.eval(e) as u64;
        let (base, len, off) = match st.mem.at(a, n) { Some((o, off)) => { if (0..o.conc.len()).any(|i| o.is_sym(i)) { return Ok(None); } (o.base, o.conc.len() as u64, off as u64) } None => return Ok(None) };
        let first = off % n;
        let count = (len - first) / n;
        if count == 0 || count > 8192 { return Ok(None); }
        let rel = sub(e, konst((base + first) as u128, 64));
        let bad = not1(ult(rel, konst((count * n) as u128, 64)));
        let bad = if n > 1 { bitop(Op::Or, bad, ne(extract(rel, 0, n.trailing_zeros() as u16), konst(0, n.trailing_zeros() as u16))) } else { bad };
        if self.sat(st, bad)?.is_some() { return Ok(None); }
        let mut k = 1; while (1u64 << k) < count { k += 1; }
        let idx = extract(rel, n.trailing_zeros() as u16, k);
        let mut t = Vec::with_capacity(1 << k);
        let mut last = 0;
        for i in 0..1u64 << k { if i < count { if let Some(Val::C(v)) = st.mem.read(base + first + i * n, n) { last = v; } if n == 8 && last >> SLOT != 0 { return Ok(None); } } t.push(last); }
        Ok(Some(ve(mk_table(idx, t, (n * 8) as u16))))
    }
    fn load_ite(&self, st: &State, e: E, n: u64, d: u32) -> Option<Val> {
        if let Some(a) = cv(e) { return st.mem.read(a as u64, n); }
        if d > 8 { return None; }
        let nd = node(e);
        if nd.op == Op::Ite {
            let w = (n * 8) as u16;
            let a = self.load_ite(st, nd.b, n, d + 1)?; let b = self.load_ite(st, nd.c, n, d + 1)?;
            return Some(ve(ite(nd.a, te(&a, w), te(&b, w))));
        }
        None
    }
    fn store(&mut self, st: &mut State, p: &Val, ty: &Ty, v: &Val) -> Res<()> {
        let a = self.conc(st, p, 64)? as u64;
        self.store_c(st, a, ty, v)
    }
    /// while running ahead: where pointer-sized values were written
    pub fn wrote(&mut self, a: u64, n: u64) { if self.ahead > 0 && n >= 8 { self.wide.push((a, n)); } }
    fn store_c(&mut self, st: &mut State, a: u64, ty: &Ty, v: &Val) -> Res<()> {
        match ty {
            Ty::Struct(f, pk) => { let vs = Self::elems(v, f.len() as u32); for (i, t) in f.iter().enumerate() { let o = self.m.field_off(f, *pk, i); let t = self.m.resolve(t); self.store_c(st, a + o, &t, &vs[i])?; } Ok(()) }
            Ty::Arr(n, e) | Ty::Vec(n, e) => { 
                if let Ty::Int(w) = **e { if w % 8 != 0 { return err("store of a bit vector"); } }
                let vs = Self::elems(v, *n as u32); let sz = self.m.size(e); let t = self.m.resolve(e); for i in 0..*n as usize { self.store_c(st, a + i as u64 * sz, &t, &vs[i])?; } Ok(()) }
            Ty::Int(w) if *w > 128 => { self.wrote(a, *w as u64 / 8); if let Val::C(0) = v { for i in 0..(*w as u64 / 8) { if !st.mem.write(a + i, 1, v) { return Err(Stop::Viol("memory".into(), format!("store at {a:#x}"))); } } Ok(()) } else { err("wide store") } }
            t => {
                let w = self.width(t); let n = (w as u64 + 7) / 8;
                let v = if w as u64 == n * 8 { v.clone() } else { Self::cast1(CastK::ZExt, w, (n * 8) as u16, v) };
                self.wrote(a, n);
                if !st.mem.write(a, n, &v) { return Err(Stop::Viol("memory".into(), format!("store of {n} bytes at invalid address {a:#x}"))); }
                Ok(())
            }
        }
    }
    fn bytes(&mut self, st: &mut State, p: &Val, n: u64) -> Res<Vec<E>> {
        let mut out = Vec::with_capacity(n as usize);
        if let Val::C(a) = p {
            if n == 0 { return Ok(out); }
            match st.mem.at(*a as u64, n) { Some((o, off)) => { for i in 0..n as usize { out.push(o.byte(off + i)); } return Ok(out); } None => return Err(Stop::Viol("memory".into(), format!("read of {n} bytes at invalid address {a:#x}"))) }
        }
        for i in 0..n { let q = self.padd(p, i); let v = self.load_n(st, &q, 1)?; out.push(te(&v, 8)); }
        Ok(out)
    }
    fn put(&mut self, st: &mut State, a: u64, b: &[E]) -> Res<()> {
        if b.is_empty() { return Ok(()); }
        self.wrote(a, b.len() as u64);
        match st.mem.at_mut(a, b.len() as u64) { Some((o, off)) => { for (i, e) in b.iter().enumerate() { o.set(off + i, *e); } Ok(()) } None => Err(Stop::Viol("memory".into(), format!("write of {} bytes at invalid address {a:#x}", b.len()))) }
    }

    // ---------- control ----------
    fn goto(&mut self, st: &mut State, to: u32) {
        let fr = st.frames.last_mut().unwrap();
        let from = fr.bb;
        let f = fr.f.clone();
        let b = &f.blocks[to as usize];
        if !b.phis.is_empty() {
            let mut vals: Vec<(u32, Val)> = Vec::with_capacity(b.phis.len());
            for (d, inc) in &b.phis {
                let mut v = None;
                for (l, o) in inc { if *l == from { v = Some(Self::get(fr, o).clone()); break } }
                vals.push((*d, v.expect("phi")));
            }
            for (d, v) in vals { fr.regs[d as usize] = v; }
        }
        fr.bb = to; fr.ip = 0;
        self.cov[fr.fid as usize][to as usize] = true;
    }
    fn ret(&mut self, st: &mut State, v: Option<Val>) -> Res<()> {
        let fr = st.frames.pop().unwrap();
        for a in fr.allocas { st.mem.free_alloca(a); }
        match st.frames.last_mut() {
            None => Err(Stop::Done),
            Some(p) => {
                if let (Some(d), Some(v)) = (fr.dst, v) { p.regs[d as usize] = v; }
                match fr.norm { Some(n) => { self.goto(st, n); } None => { p.ip += 1; } }
                Ok(())
            }
        }
    }

    /// instructions of one side of a branch, as far as they go without forking
    fn run_ahead(&mut self, mut st: State, to: u32, (budget, nest): (u64, u32)) -> Vec<State> {
        let (ob, os, oa) = (self.budget, std::mem::take(&mut self.snaps), self.ahead);
        self.budget = budget;
        self.ahead = nest;
        self.goto(&mut st, to);
        let depth = st.frames.len();
        loop {
            match self.step(&mut st) { Ok(()) => {
                // after a return
                if st.frames.len() < depth && st.frames.last().unwrap().ip != 0 { if self.snaps.len() >= crate::merge::MAX_SNAP { break } let s = st.clone(); self.snaps.push(s); }
            } Err(_) => break }
        }
        self.ahead = oa;
        self.budget = ob;
        std::mem::replace(&mut self.snaps, os)
    }
    fn join_at(&mut self, st: &State, vc: E, (a, ta): (&State, u32), (b, tb): (&State, u32), lim: (u64, u32)) -> Option<State> {
        let xa = self.run_ahead(a.clone(), ta, lim);
        if xa.is_empty() { return None; }
        let xb = self.run_ahead(b.clone(), tb, lim);
        let mut best: Option<(usize, State)> = None;
        let wide = std::mem::take(&mut self.wide);
        for (i, p) in xa.iter().enumerate() {
            let pf = p.frames.last().unwrap();
            for (j, q) in xb.iter().enumerate() {
                if let Some((k, _)) = &best { if i + j >= *k { break } }
                let qf = q.frames.last().unwrap();
                if p.frames.len() != q.frames.len() || pf.fid != qf.fid || pf.bb != qf.bb || pf.ip != qf.ip { continue; }
                if let Some(s) = crate::merge::join(&mut self.flows, vc, p, q, st, &wide) { best = Some((i + j, s)); }
            }
        }
        if self.ahead > 0 { self.wide = wide; }
        best.map(|x| x.1)
    }
    /// if both outcomes of a branch are possible and the two sides soon agree, go on from there
    fn try_join(&mut self, st: &mut State, c: E, t: u32, f: u32) -> Res<bool> {
        if self.known(st, c).is_some() || self.ahead >= 4 || t == f { return Ok(false); }
        let fr = st.frames.last().unwrap();
        let site = (fr.fid, fr.bb);
        let misses = *self.nojoin.get(&site).unwrap_or(&0);
        if misses >= 64 { return Ok(false); }
        let v = st.model.eval(c) == 1;
        let (vc, oc) = if v { (c, not1(c)) } else { (not1(c), c) };
        if self.ahead == 0 { self.wide.clear(); }
        // sides that join at once without any decision need no feasibility check
        if !self.blind {
            let (ta, tb) = if v { (t, f) } else { (f, t) };
            self.blind = true;
            let s = self.join_at(st, vc, (st, ta), (st, tb), (32, 4));
            self.blind = false;
            if let Some(s) = s { *st = s; self.joins += 1; return Ok(true); }
        } else { return Ok(false); }
        if self.outside(st, oc) { return Ok(false); }
        let m = match self.sat(st, oc)? { Some(m) => m, None => return Ok(false) };
        let mut a = st.clone();
        let mut b = st.clone();
        let mv = st.model.clone();
        self.assume(&mut a, vc, mv);
        self.assume(&mut b, oc, m);
        let (ta, tb) = if v { (t, f) } else { (f, t) };
        // first only a little ahead and without further joins on the way
        let mut best = self.join_at(st, vc, (&a, ta), (&b, tb), (48, 4));
        if best.is_none() { best = self.join_at(st, vc, (&a, ta), (&b, tb), (crate::merge::MAX_INS >> self.ahead, self.ahead + 1)); }
        match best {
            Some(s) => { *st = s; self.joins += 1; self.nojoin.remove(&site); Ok(true) }
            None => { *self.nojoin.entry(site).or_default() += 1; Ok(false) }
        }
    }

    pub fn step(&mut self, st: &mut State) -> Res<()> {
        let f = st.frames.last().unwrap().f.clone();
        loop {
            let fr = st.frames.last_mut().unwrap();
            if f.blocks[fr.bb as usize].ins.is_empty() { panic!("empty block {} in {}", f.blocks[fr.bb as usize].name, f.name); }
            let ins = &f.blocks[fr.bb as usize].ins[fr.ip as usize];
            self.steps += 1; st.steps += 1;
            if self.steps & 0xfffff == 0 { if self.t0.elapsed().as_secs_f64() > self.lim.wall { self.incomplete = true; return err("limit reached: wall"); } }
            if self.ahead > 0 {
                if self.budget == 0 { return Err(Stop::Ahead); }
                self.budget -= 1;
                if fr.ip == 0 { if self.snaps.len() >= crate::merge::MAX_SNAP { return Err(Stop::Ahead); } let s = st.clone(); self.snaps.push(s); }
            }
            let fr = st.frames.last_mut().unwrap();
            if st.steps > self.lim.max_steps { return Err(Stop::Viol("the code comes to an end".into(), format!("{} steps on one path", st.steps))); }
            match ins {
                Inst::Nop => { fr.ip += 1; }
                Inst::Bin { op, dst, sh, a, b } => {
                    let (x, y) = (Self::get(fr, a), Self::get(fr, b));
                    let v = if sh.n == 0 {
                        if matches!(op, Op::UDiv | Op::SDiv | Op::URem | Op::SRem) { if let Val::C(0) = y { return Err(Stop::Viol("memory".into(), "division by zero".into())); } }
                        let (x, y) = (x.clone(), y.clone());
                        let v = self.bin(*op, sh.w, &x, &y); v
                    } else { let (x, y) = (x.clone(), y.clone()); let (op, w) = (*op, sh.w); let r = Self::vmap2(*sh, &x, &y, |p, q| self.bin(op, w, p, q)); r };
                    let fr = st.frames.last_mut().unwrap();
                    fr.regs[*dst as usize] = v; fr.ip += 1;
                }
                Inst::ICmp { p, dst, sh, a, b } => {
                    let v = if sh.n == 0 { Self::icmp(*p, sh.w, Self::get(fr, a), Self::get(fr, b)) } else { let (x, y) = (Self::get(fr, a).clone(), Self::get(fr, b).clone()); Self::vmap2(*sh, &x, &y, |q, r| Self::icmp(*p, sh.w, q, r)) };
                    fr.regs[*dst as usize] = v; fr.ip += 1;
                }
                Inst::Cast { k, dst, from, to, a } => {
                    let x = Self::get(fr, a);
                    let v = if *k == CastK::Bitcast { Self::bitcast(*from, *to, x) } else if *k == CastK::Copy { x.clone() } else if from.n == 0 { Self::cast1(*k, from.w, to.w, x) } else { Val::A(Rc::new(Self::elems(x, from.n).iter().map(|x| Self::cast1(*k, from.w, to.w, x)).collect())) };
                    fr.regs[*dst as usize] = v; fr.ip += 1;
                }
                Inst::Select { dst, c, a, b, ty, vc } => {
                    let cvv = Self::get(fr, c).clone();
                    let v = if *vc {
                        let (n, t) = match ty { Ty::Vec(n, t) => (*n as u32, self.m.resolve(t)), _ => return err("select") };
                        let (cs, xs, ys) = (Self::elems(&cvv, n), Self::elems(Self::get(fr, a), n), Self::elems(Self::get(fr, b), n));
                        let w = self.width(&t);
                        Val::A(Rc::new((0..n as usize).map(|i| ve(ite(te(&cs[i], 1), te(&xs[i], w), te(&ys[i], w)))).collect()))
                    } else {
                        match cvv { Val::C(k) => if k & 1 != 0 { Self::get(fr, a).clone() } else { Self::get(fr, b).clone() },
                            Val::S(e) => { let (x, y) = (Self::get(fr, a).clone(), Self::get(fr, b).clone()); 
                                // a select whose condition is already decided by the path
                                match self.known(st, e) { Some(true) => x, Some(false) => y, None => self.select(st, e, &x, &y, ty) } }
                            _ => return err("select cond") }
                    };
                    let fr = st.frames.last_mut().unwrap();
                    fr.regs[*dst as usize] = v; fr.ip += 1;
                }
                Inst::Load { dst, ty, p } => {
                    let pv = Self::get(fr, p).clone();
                    let v = self.load(st, &pv, ty)?;
                    let fr = st.frames.last_mut().unwrap();
                    fr.regs[*dst as usize] = v; fr.ip += 1;
                }
                Inst::Store { ty, v, p } => {
                    let pv = Self::get(fr, p).clone(); let vv = Self::get(fr, v).clone();
                    self.store(st, &pv, ty, &vv)?;
                    st.frames.last_mut().unwrap().ip += 1;
                }
                Inst::Gep { dst, base, off, idx } => {
                    let mut conc = true; let mut acc = *off;
                    for (o, sc, w) in idx { match Self::get(fr, o) { Val::C(k) => acc = acc.wrapping_add((sx(*k & mask(*w), *w) as i64).wrapping_mul(*sc)), _ => conc = false } }
                    let b = Self::get(fr, base);
                    let v = match b {
                        Val::C(k) if conc => Val::C((*k as u64).wrapping_add(acc as u64) as u128),
                        _ => {
                            let mut e = te(b, 64);
                            for (o, sc, w) in idx { if let Val::S(x) = Self::get(fr, o) { let x = if *w < 64 { sext(*x, 64) } else { *x }; e = add(e, mul(x, konst(*sc as u64 as u128, 64))); } }
                            ve(add(e, konst(acc as u64 as u128, 64)))
                        }
                    };
                    fr.regs[*dst as usize] = v; fr.ip += 1;
                }
                Inst::Alloca { dst, size, align, count } => {
                    let n = match Self::get(fr, count) { Val::C(k) => *k as u64, _ => return err("alloca count") };
                    let a = match st.mem.alloc(size * n, *align, false) { Some(a) => a, None => return err("alloca size") };
                    let fr = st.frames.last_mut().unwrap();
                    fr.allocas.push(a); fr.regs[*dst as usize] = Val::C(a as u128); fr.ip += 1;
                }
                Inst::Br(t) => { let t = *t; self.goto(st, t); }
                Inst::CBr { c, t, f: fl } => {
                    let (t, fl) = (*t, *fl);
                    let b = match Self::get(fr, c) { Val::C(k) => k & 1 != 0, Val::S(e) => { let e = *e; if self.try_join(st, e, t, fl)? { return Ok(()); } self.decide(st, e)? } _ => return err("branch") };
                    self.goto(st, if b { t } else { fl });
                }
                Inst::Switch { v, w, def, cases } => {
                    let vv = Self::get(fr, v).clone();
                    match vv {
                        Val::C(k) => { let k = k & mask(*w); let t = cases.iter().find(|(c, _)| *c == k).map(|x| x.1).unwrap_or(*def); self.goto(st, t); }
                        Val::S(e) => {
                            // group the cases by target and decide one by one
                            let mut targets: Vec<(u32, E)> = vec![]; let mut any = fls();
                            for (c, t) in cases {
                                let q = eq(e, konst(*c, *w));
                                any = bitop(Op::Or, any, q);
                                if let Some(x) = targets.iter_mut().find(|x| x.0 == *t) { x.1 = bitop(Op::Or, x.1, q); } else { targets.push((*t, q)); }
                            }
                            let def = *def;
                            let mut done = false;
                            for (t, q) in targets { if self.decide(st, q)? { self.goto(st, t); done = true; break } }
                            if !done { self.goto(st, def); }
                        }
                        _ => return err("switch"),
                    }
                }
                Inst::Ret(v) => { let v = v.as_ref().map(|o| Self::get(fr, o).clone()); return self.ret(st, v); }
                Inst::Unreachable => return Err(Stop::Viol("unreachable".into(), "reached an unreachable instruction".into())),
                Inst::ExtractV { dst, a, idx } => {
                    let mut v = Self::get(fr, a).clone();
                    for i in idx { v = match v { Val::A(x) => x[*i as usize].clone(), _ => Val::C(0) }; }
                    fr.regs[*dst as usize] = v; fr.ip += 1;
                }
                Inst::InsertV { dst, a, v, idx } => {
                    fn ins(a: Val, v: Val, idx: &[u32]) -> Val { if idx.is_empty() { return v; } match a { Val::A(x) => { let mut y = (*x).clone(); let i = idx[0] as usize; y[i] = ins(y[i].clone(), v, &idx[1..]); Val::A(Rc::new(y)) } _ => { panic!("insertvalue into scalar") } } }
                    let r = ins(Self::get(fr, a).clone(), Self::get(fr, v).clone(), idx);
                    fr.regs[*dst as usize] = r; fr.ip += 1;
                }
                Inst::ExtractE { dst, a, i, n } => {
                    let x = Self::elems(Self::get(fr, a), *n);
                    let k = match Self::get(fr, i) { Val::C(k) => *k as usize, _ => return err("extractelement index") };
                    fr.regs[*dst as usize] = x[k].clone(); fr.ip += 1;
                }
                Inst::InsertE { dst, a, v, i, n } => {
                    let mut x = Self::elems(Self::get(fr, a), *n);
                    let k = match Self::get(fr, i) { Val::C(k) => *k as usize, _ => return err("insertelement index") };
                    x[k] = Self::get(fr, v).clone();
                    fr.regs[*dst as usize] = Val::A(Rc::new(x)); fr.ip += 1;
                }
                Inst::Shuffle { dst, a, b, mask: mk, n } => {
                    let mut x = Self::elems(Self::get(fr, a), *n); x.extend(Self::elems(Self::get(fr, b), *n));
                    let r = mk.iter().map(|k| x[*k as usize].clone()).collect();
                    fr.regs[*dst as usize] = Val::A(Rc::new(r)); fr.ip += 1;
                }
                Inst::Rmw { dst, op, w, p, v } => {
                    let pv = Self::get(fr, p).clone(); let vv = Self::get(fr, v).clone();
                    let a = self.conc(st, &pv, 64)? as u64; let n = (*w as u64 + 7) / 8;
                    let old = self.load_n(st, &Val::C(a as u128), n)?;
                    let w = *w;
                    let nv = match op.as_str() {
                        "add" => self.bin(Op::Add, w, &old, &vv), "sub" => self.bin(Op::Sub, w, &old, &vv), "and" => self.bin(Op::And, w, &old, &vv), "or" => self.bin(Op::Or, w, &old, &vv), "xor" => self.bin(Op::Xor, w, &old, &vv),
                        "xchg" => vv, _ => return err(format!("atomicrmw {op}")),
                    };
                    self.wrote(a, n);
                    if !st.mem.write(a, n, &nv) { return Err(Stop::Viol("memory".into(), "atomicrmw".into())); }
                    let fr = st.frames.last_mut().unwrap();
                    fr.regs[*dst as usize] = old; fr.ip += 1;
                }
                Inst::CmpX { dst, w, p, c, n } => {
                    let pv = Self::get(fr, p).clone(); let cv_ = Self::get(fr, c).clone(); let nv = Self::get(fr, n).clone();
                    let a = self.conc(st, &pv, 64)? as u64; let nb = (*w as u64 + 7) / 8;
                    let old = self.load_n(st, &Val::C(a as u128), nb)?;
                    let q = Self::icmp(Pred::Eq, *w, &old, &cv_);
                    let ok = match q { Val::C(k) => k != 0, Val::S(e) => self.decide(st, e)?, _ => false };
                    self.wrote(a, nb);
                    if ok && !st.mem.write(a, nb, &nv) { return Err(Stop::Viol("memory".into(), "cmpxchg".into())); }
                    let fr = st.frames.last_mut().unwrap();
                    fr.regs[*dst as usize] = Val::A(Rc::new(vec![old, Val::C(ok as u128)])); fr.ip += 1;
                }
                Inst::Unsup(s) => return err(format!("unsupported instruction {s}")),
                Inst::Call { dst, rty, callee, args, norm } => {
                    let vals: Vec<Val> = args.iter().map(|(o, _)| Self::get(fr, o).clone()).collect();
                    let fid = match callee {
                        Callee::F(k) => *k,
                        Callee::Ext(n) => {
                            let n = n.clone();
                            if self.ahead > 0 && !pure_ext(&n) && !(st.watch.is_empty() && matches!(&*n, "malloc" | "calloc" | "realloc" | "free")) { return Err(Stop::Ahead); }
                            let r = self.ext(st, &n, &vals, args, rty)?;
                            let fr = st.frames.last_mut().unwrap();
                            if let (Some(d), Some(v)) = (dst, r) { fr.regs[*d as usize] = v; }
                            match norm { Some(nb) => { let nb = *nb; self.goto(st, nb) } None => fr.ip += 1 }
                            continue;
                        }
                        Callee::P(o) => {
                            let pv = Self::get(fr, o).clone();
                            let a = self.conc(st, &pv, 64)? as u64;
                            match self.funcs_by_addr.get(&a) { Some(k) => *k, None if self.ahead > 0 => return Err(Stop::Ahead), None => match self.m.decl_names.get(&a) {
                                Some(n) => { let n = n.clone(); let r = self.ext(st, &n, &vals, args, rty)?; let fr = st.frames.last_mut().unwrap(); if let (Some(d), Some(v)) = (dst, r) { fr.regs[*d as usize] = v; } match norm { Some(nb) => { let nb = *nb; self.goto(st, nb) } None => fr.ip += 1 } continue; }
                                None => return Err(Stop::Viol("memory".into(), format!("call of a non-function address {a:#x}"))),
                            } }
                        }
                    };
                    let name = &self.m.funcs[fid as usize].name;
                    if is_panic(name) { return self.panicked(st, name.clone(), &vals); }
                    self.push_frame(st, fid, &vals, *dst, *norm)?;
                    return Ok(());
                }
            }
            // continue within the same function activation
        }
    }
    fn panicked(&mut self, st: &mut State, name: Rc<str>, _args: &[Val]) -> Res<()> {
        let tr = self.trace(st);
        let loc = tr.iter().find(|l| l.contains("/repo/src") || l.contains("kms/src")).cloned().or_else(|| tr.iter().find(|l| !l.contains("/rustc/") && !l.contains("library/")).cloned()).unwrap_or_default();
        Err(Stop::Viol("panic".into(), format!("panic in {loc} [{}]", short(&name))))
    }
}
pub fn short(n: &str) -> String { n.chars().take(90).collect() }
fn is_panic(n: &str) -> bool {
    n.contains("rust_begin_unwind") || n.contains("9panicking9panic_fmt") || n.contains("9panicking19panic_nounwind_fmt") || n.contains("rust_panic") || n.contains("alloc18handle_alloc_error") || n.contains("begin_panic_handler") || n.contains("7process5abort")
}

fn pure_ext(n: &str) -> bool { n.starts_with("llvm.") || matches!(n, "memcmp" | "bcmp" | "strlen" | "memcpy" | "memmove" | "memset") }
