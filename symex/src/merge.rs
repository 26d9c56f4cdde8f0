//! Joining the two sides of a branch: both are run ahead without forking; if they
//! reach the same program point, and their live registers and memory are equal or
//! differ in narrow values only, execution goes on with the joined state
//! (differing values become if-then-else terms) instead of two separate paths.
use crate::exec::*;
use crate::expr::*;
use crate::ir::*;
use crate::mem::*;
use std::collections::HashMap;
use std::rc::Rc;

pub type Bits = Vec<u64>;
fn bit(b: &Bits, k: u32) -> bool { b[k as usize / 64] >> (k % 64) & 1 != 0 }
fn set(b: &mut Bits, k: u32) { b[k as usize / 64] |= 1 << (k % 64); }
fn clr(b: &mut Bits, k: u32) { b[k as usize / 64] &= !(1 << (k % 64)); }

fn uses(i: &Inst, f: &mut impl FnMut(u32)) {
    let mut o = |x: &Opd| if let Opd::R(r) = x { f(*r) };
    match i {
        Inst::Bin { a, b, .. } | Inst::ICmp { a, b, .. } | Inst::Shuffle { a, b, .. } => { o(a); o(b) }
        Inst::Cast { a, .. } | Inst::ExtractV { a, .. } => o(a),
        Inst::Select { c, a, b, .. } => { o(c); o(a); o(b) }
        Inst::Load { p, .. } => o(p),
        Inst::Store { v, p, .. } => { o(v); o(p) }
        Inst::Gep { base, idx, .. } => { o(base); for x in idx { o(&x.0) } }
        Inst::Alloca { count, .. } => o(count),
        Inst::Call { callee, args, .. } => { if let Callee::P(p) = callee { o(p) } for x in args { o(&x.0) } }
        Inst::CBr { c, .. } => o(c),
        Inst::Switch { v, .. } => o(v),
        Inst::Ret(Some(v)) => o(v),
        Inst::InsertV { a, v, .. } => { o(a); o(v) }
        Inst::ExtractE { a, i, .. } => { o(a); o(i) }
        Inst::InsertE { a, v, i, .. } => { o(a); o(v); o(i) }
        Inst::Rmw { p, v, .. } => { o(p); o(v) }
        Inst::CmpX { p, c, n, .. } => { o(p); o(c); o(n) }
        Inst::Br(_) | Inst::Ret(None) | Inst::Unreachable | Inst::Nop | Inst::Unsup(_) => {}
    }
}
fn def(i: &Inst) -> Option<u32> {
    match i {
        Inst::Bin { dst, .. } | Inst::ICmp { dst, .. } | Inst::Shuffle { dst, .. } | Inst::Cast { dst, .. } | Inst::ExtractV { dst, .. } | Inst::Select { dst, .. } | Inst::Load { dst, .. } | Inst::Gep { dst, .. }
        | Inst::Alloca { dst, .. } | Inst::InsertV { dst, .. } | Inst::ExtractE { dst, .. } | Inst::InsertE { dst, .. } | Inst::Rmw { dst, .. } | Inst::CmpX { dst, .. } => Some(*dst),
        Inst::Call { dst, .. } => *dst,
        _ => None,
    }
}
fn succ(i: &Inst) -> Vec<u32> {
    match i {
        Inst::Br(t) => vec![*t], Inst::CBr { t, f, .. } => vec![*t, *f],
        Inst::Switch { def, cases, .. } => { let mut v: Vec<u32> = cases.iter().map(|c| c.1).collect(); v.push(*def); v.sort(); v.dedup(); v }
        Inst::Call { norm: Some(n), .. } => vec![*n],
        _ => vec![],
    }
}
fn width_of(i: &Inst) -> u16 {
    match i {
        Inst::Bin { sh, .. } if sh.n == 0 => sh.w, Inst::ICmp { sh, .. } if sh.n == 0 => 1, Inst::Cast { to, .. } if to.n == 0 => to.w,
        Inst::Select { ty: Ty::Int(w), .. } | Inst::Load { ty: Ty::Int(w), .. } | Inst::Call { rty: Ty::Int(w), .. } => *w,
        _ => 64,
    }
}
/// live-out registers of every block, and the width of every register
pub struct Flow { out: Vec<Bits>, w: Vec<u16> }
pub fn flow(f: &Func) -> Flow {
    let nw = (f.nregs as usize + 63) / 64 + 1;
    let nb = f.blocks.len();
    let mut inn = vec![vec![0u64; nw]; nb];
    let mut out = vec![vec![0u64; nw]; nb];
    let mut w = vec![64u16; f.nregs as usize];
    for b in &f.blocks { for i in &b.ins { if let Some(d) = def(i) { w[d as usize] = width_of(i); } } for (k, (d, _)) in b.phis.iter().enumerate() { w[*d as usize] = b.phiw[k]; } }
    let mut ch = true;
    while ch {
        ch = false;
        for k in (0..nb).rev() {
            let b = &f.blocks[k];
            let mut o = vec![0u64; nw];
            if let Some(last) = b.ins.last() {
                for s in succ(last) {
                    for (x, y) in o.iter_mut().zip(&inn[s as usize]) { *x |= y; }
                    for (_, inc) in &f.blocks[s as usize].phis { for (l, v) in inc { if *l == k as u32 { if let Opd::R(r) = v { set(&mut o, *r); } } } }
                }
            }
            let mut n = o.clone();
            for i in b.ins.iter().rev() { if let Some(d) = def(i) { clr(&mut n, d); } uses(i, &mut |r| set(&mut n, r)); }
            for (d, _) in &b.phis { clr(&mut n, *d); }
            if n != inn[k] || o != out[k] { ch = true; inn[k] = n; out[k] = o; }
        }
    }
    Flow { out, w }
}
/// registers live before instruction ip of block bb; `dst` (about to be written by a returning call) is not
fn live(f: &Func, fl: &Flow, bb: u32, ip: u32, calling: bool) -> Bits {
    let mut n = fl.out[bb as usize].clone();
    let b = &f.blocks[bb as usize];
    for (k, i) in b.ins.iter().enumerate().rev() {
        if (k as u32) < ip { break; }
        if let Some(d) = def(i) { clr(&mut n, d); }
        if calling && k as u32 == ip { break; }
        uses(i, &mut |r| set(&mut n, r));
    }
    n
}
fn same_val(a: &Val, b: &Val) -> bool {
    match (a, b) { (Val::C(x), Val::C(y)) => x == y, (Val::S(x), Val::S(y)) => x == y, (Val::A(x), Val::A(y)) => Rc::ptr_eq(x, y) || (x.len() == y.len() && x.iter().zip(y.iter()).all(|(p, q)| same_val(p, q))), _ => false }
}
pub const MAX_INS: u64 = 600;
pub const MAX_SNAP: usize = 48;
/// differing values up to this many bits are joined
const MAX_W: u16 = 32;
/// differing bytes of memory up to this many are joined
const MAX_BYTES: usize = 64;

pub struct Flows(pub HashMap<u32, Rc<Flow>>);
impl Flows { fn get(&mut self, fid: u32, f: &Func) -> Rc<Flow> { self.0.entry(fid).or_insert_with(|| Rc::new(flow(f))).clone() } }

/// wide values that are no addresses, and likely no lengths or counters
fn plain(m: &Mem, a: &Val, b: &Val) -> bool {
    let f = |v: &Val| match v { Val::C(x) => *x >> 64 != 0 || m.find(*x as u64).is_none(), _ => true };
    f(a) && f(b) && match (a, b) { (Val::C(x), Val::C(y)) => *x.max(y) >= 1 << 16 || *x.min(y) == 0 && x.max(y).is_power_of_two() && *x.max(y) >= 16, _ => true }
}
/// a, b at the same point: the joined state, c being the condition of a
pub fn join(fl: &mut Flows, c: E, a: &State, b: &State, orig: &State, wide: &[(u64, u64)]) -> Option<State> {
    if a.frames.len() != b.frames.len() { return None; }
    let mem = join_mem(c, &a.mem, &b.mem, wide, MAX_BYTES)?;
    let mut r = orig.clone();
    let n = a.frames.len();
    let mut frames = Vec::with_capacity(n);
    for (k, (x, y)) in a.frames.iter().zip(&b.frames).enumerate() {
        if x.fid != y.fid || x.bb != y.bb || x.ip != y.ip || x.allocas != y.allocas || x.dst != y.dst || x.norm != y.norm { return None; }
        let mut z = x.clone();
        let differ = x.regs.iter().zip(&y.regs).enumerate().filter(|(_, (p, q))| !same_val(p, q)).map(|x| x.0).collect::<Vec<_>>();
        if !differ.is_empty() {
            let f = fl.get(x.fid, &x.f);
            let lv = live(&x.f, &f, x.bb, x.ip, k + 1 < n);
            for d in differ {
                if !bit(&lv, d as u32) { continue; }
                let w = match (&x.regs[d], &y.regs[d]) { (Val::S(e), _) | (_, Val::S(e)) => width(*e), (Val::C(_), Val::C(_)) => f.w[d], _ => 999 };
                if w > MAX_W && (w > 128 || !plain(&mem, &x.regs[d], &y.regs[d])) { return None; }
                z.regs[d] = ve(ite(c, te(&x.regs[d], w), te(&y.regs[d], w)));
            }
        }
        frames.push(z);
    }
    r.frames = frames;
    r.mem = mem;
    r.steps = a.steps.max(b.steps);
    Some(r)
}
