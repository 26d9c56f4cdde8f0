//! Byte memory: objects at fixed slots (address >> SLOT), copy on write.
use crate::expr::*;
use crate::ir::{Val, SLOT, OFF0, round};
use std::rc::Rc;

#[derive(Clone)]
pub struct Obj { pub base: u64, pub conc: Vec<u8>, pub sym: Vec<E>, pub konst: bool, pub heap: bool }
impl Obj {
    pub fn byte(&self, o: usize) -> E { if self.sym.is_empty() || self.sym[o] == 0 { konst(self.conc[o] as u128, 8) } else { self.sym[o] } }
    pub fn is_sym(&self, o: usize) -> bool { !self.sym.is_empty() && self.sym[o] != 0 }
    pub fn set(&mut self, o: usize, e: E) {
        if let Some(v) = cv(e) { self.conc[o] = v as u8; if !self.sym.is_empty() { self.sym[o] = 0; } }
        else { if self.sym.is_empty() { self.sym = vec![0; self.conc.len()]; } self.sym[o] = e; }
    }
    pub fn setc(&mut self, o: usize, v: u8) { self.conc[o] = v; if !self.sym.is_empty() { self.sym[o] = 0; } }
}
const CH: usize = 64;
type Chunk = Vec<Option<Rc<Obj>>>;
#[derive(Clone)]
pub struct Mem { pub globals: Rc<Vec<Option<Rc<Obj>>>>, chunks: Vec<Rc<Chunk>>, next: u64, free_stack: Rc<Vec<u64>> }

impl Mem {
    pub fn new(globals: Vec<Option<Rc<Obj>>>) -> Mem { let n = globals.len() as u64; Mem { globals: Rc::new(globals), chunks: vec![], next: n, free_stack: Rc::new(vec![]) } }
    fn g(&self) -> u64 { self.globals.len() as u64 }
    #[inline] pub fn find(&self, addr: u64) -> Option<&Rc<Obj>> {
        let id = addr >> SLOT;
        let g = self.g();
        if id < g {
            // a written global is shadowed in the chunks: ids 0..g map to chunk space too
            if let Some(c) = self.chunks.get(id as usize / CH) { if let Some(Some(o)) = c.get(id as usize % CH) { return Some(o); } }
            return self.globals[id as usize].as_ref();
        }
        match self.chunks.get(id as usize / CH) { Some(c) => match c.get(id as usize % CH) { Some(Some(o)) => Some(o), _ => None }, None => None }
    }
    /// object and offset if [addr, addr+n) lies inside a live object
    #[inline] pub fn at(&self, addr: u64, n: u64) -> Option<(&Rc<Obj>, usize)> {
        let o = self.find(addr)?;
        if addr < o.base { return None; }
        let off = addr - o.base;
        if off + n > o.conc.len() as u64 { return None; }
        Some((o, off as usize))
    }
    fn slot(&mut self, id: u64) -> &mut Option<Rc<Obj>> {
        let (c, k) = (id as usize / CH, id as usize % CH);
        while self.chunks.len() <= c { self.chunks.push(Rc::new(Vec::new())); }
        let ch = Rc::make_mut(&mut self.chunks[c]);
        while ch.len() <= k { ch.push(None); }
        &mut ch[k]
    }
    pub fn at_mut(&mut self, addr: u64, n: u64) -> Option<(&mut Obj, usize)> {
        let id = addr >> SLOT;
        { let (o, _) = self.at(addr, n)?; if o.konst { return None; } }
        if id < self.g() {
            let missing = self.slot(id).is_none();
            if missing { let o = self.globals[id as usize].clone(); *self.slot(id) = o; }
        }
        let o = self.slot(id).as_mut().unwrap();
        let o = Rc::make_mut(o);
        let off = addr - o.base;
        Some((o, off as usize))
    }
    pub fn alloc(&mut self, size: u64, align: u64, heap: bool) -> Option<u64> {
        if size > (1 << SLOT) - 0x4000 { return None; }
        let id = if !heap && !self.free_stack.is_empty() { Rc::make_mut(&mut self.free_stack).pop().unwrap() } else { let i = self.next; self.next += 1; i };
        let base = (id << SLOT) + round(OFF0, align.max(1));
        *self.slot(id) = Some(Rc::new(Obj { base, conc: vec![0; size as usize], sym: vec![], konst: false, heap }));
        Some(base)
    }
    pub fn free(&mut self, addr: u64) { let id = addr >> SLOT; *self.slot(id) = None; }
    pub fn free_alloca(&mut self, addr: u64) { let id = addr >> SLOT; *self.slot(id) = None; Rc::make_mut(&mut self.free_stack).push(id); }
    pub fn read(&self, addr: u64, n: u64) -> Option<Val> {
        let (o, off) = self.at(addr, n)?;
        let n = n as usize;
        let symb = !o.sym.is_empty() && o.sym[off..off + n].iter().any(|x| *x != 0);
        if !symb {
            let mut v = 0u128; for k in (0..n).rev() { v = (v << 8) | o.conc[off + k] as u128; }
            return Some(Val::C(v));
        }
        let mut acc = o.byte(off + n - 1);
        for k in (0..n - 1).rev() { acc = concat(acc, o.byte(off + k)); }
        Some(match cv(acc) { Some(v) => Val::C(v), None => Val::S(acc) })
    }
    pub fn write(&mut self, addr: u64, n: u64, v: &Val) -> bool {
        match self.at_mut(addr, n) {
            None => false,
            Some((o, off)) => {
                match v {
                    Val::C(v) => for k in 0..n as usize { o.setc(off + k, (v >> (8 * k)) as u8); },
                    Val::S(e) => for k in 0..n as usize { let b = extract(*e, 8 * k as u16, 8); o.set(off + k, b); },
                    Val::A(_) => return false,
                }
                true
            }
        }
    }
}

/// the memory of two sides (a under c, b otherwise) as one: objects must correspond; bytes that
/// differ become if-then-else terms unless they were written as part of a pointer-sized value
pub fn join_mem(c: E, a: &Mem, b: &Mem, wide: &[(u64, u64)], max: usize) -> Option<Mem> {
    let same_chunks = a.next == b.next && a.chunks.len() == b.chunks.len() && a.chunks.iter().zip(&b.chunks).all(|(x, y)| Rc::ptr_eq(x, y)) && Rc::ptr_eq(&a.free_stack, &b.free_stack);
    if same_chunks { return Some(a.clone()); }
    let mut diff: Vec<(u64, Vec<usize>)> = vec![];
    let mut n = 0;
    for k in 0..a.chunks.len().max(b.chunks.len()) {
        let (x, y) = (a.chunks.get(k), b.chunks.get(k));
        if let (Some(x), Some(y)) = (x, y) { if Rc::ptr_eq(x, y) { continue; } }
        for i in k * CH..(k + 1) * CH {
            let (x, y) = match (a.find((i as u64) << SLOT), b.find((i as u64) << SLOT)) { (None, None) => continue, (Some(x), Some(y)) => (x, y), _ => return None };
            if Rc::ptr_eq(x, y) { continue; }
            if x.base != y.base || x.conc.len() != y.conc.len() || x.heap != y.heap || x.konst != y.konst { return None; }
            let d: Vec<usize> = (0..x.conc.len()).filter(|&i| if x.is_sym(i) || y.is_sym(i) { !(x.is_sym(i) && y.is_sym(i) && x.sym[i] == y.sym[i]) } else { x.conc[i] != y.conc[i] }).collect();
            if d.is_empty() { continue; }
            n += d.len();
            if n > max || d.iter().any(|&o| { let p = x.base + o as u64; wide.iter().any(|w| w.0 <= p && p < w.0 + w.1) }) { return None; }
            diff.push((x.base, d));
        }
    }
    // slots handed out on one side only are free on both
    let mut r = if a.next >= b.next { a.clone() } else { b.clone() };
    for (base, d) in diff {
        let (x, y) = (a.find(base).unwrap(), b.find(base).unwrap());
        let bytes: Vec<(usize, E)> = d.iter().map(|&o| (o, ite(c, x.byte(o), y.byte(o)))).collect();
        let (o, _) = r.at_mut(base, 0)?;
        for (k, e) in bytes { o.set(k, e); }
    }
    Some(r)
}
