//! Hash-consed bit-vector expressions with a canonicalising simplifier.
//! Everything symbolic in the engine is one of these; widths are 1..=128 bits.
use std::collections::HashMap;
use std::rc::Rc;

pub type E = u32;

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
#[repr(u8)]
pub enum Op {
    Const, Var, Add, Sub, Mul, UDiv, SDiv, URem, SRem, Shl, LShr, AShr,
    And, Or, Xor, Eq, Ult, Slt, Ite, Extract, Concat, SExt, Table,
}

#[derive(Clone, Copy, PartialEq, Eq, Hash)]
pub struct Node { pub op: Op, pub w: u16, pub a: u32, pub b: u32, pub c: u32 }

pub struct Ctx {
    pub nodes: Vec<Node>,
    map: HashMap<Node, E>,
    pub consts: Vec<u128>,
    cmap: HashMap<(u128, u16), E>,
    pub vars: Vec<(String, u16)>,
    pub tables: Vec<Rc<Vec<u128>>>,
    thash: HashMap<u64, Vec<u32>>,
    opc: HashMap<(Op, u16, E, E), Option<E>>,
    ranges: HashMap<E, (u128, u128)>,
    supp: HashMap<E, Rc<Vec<u32>>>,
}

static mut CTX: Option<Ctx> = None;
#[allow(static_mut_refs)]
pub fn cx() -> &'static mut Ctx {
    unsafe {
        if CTX.is_none() {
            CTX = Some(Ctx {
                nodes: Vec::new(), map: HashMap::new(), consts: Vec::new(), cmap: HashMap::new(),
                vars: Vec::new(), tables: Vec::new(), thash: HashMap::new(), opc: HashMap::new(), ranges: HashMap::new(),
                supp: HashMap::new(),
            });
            konst(0, 1); // node 0 is never a memory byte
        }
        CTX.as_mut().unwrap()
    }
}

#[inline] pub fn mask(w: u16) -> u128 { if w >= 128 { u128::MAX } else { (1u128 << w) - 1 } }
#[inline] pub fn sx(v: u128, w: u16) -> i128 {
    if w >= 128 { v as i128 } else { let s = 128 - w as u32; ((v << s) as i128) >> s }
}
#[inline] pub fn node(e: E) -> Node { cx().nodes[e as usize] }
#[inline] pub fn width(e: E) -> u16 { cx().nodes[e as usize].w }

fn intern(n: Node) -> E {
    let c = cx();
    if let Some(&e) = c.map.get(&n) { return e; }
    let e = c.nodes.len() as E;
    c.nodes.push(n);
    c.map.insert(n, e);
    e
}

pub fn konst(v: u128, w: u16) -> E {
    let v = v & mask(w);
    let c = cx();
    if let Some(&e) = c.cmap.get(&(v, w)) { return e; }
    let id = c.consts.len() as u32;
    c.consts.push(v);
    let e = c.nodes.len() as E;
    c.nodes.push(Node { op: Op::Const, w, a: id, b: 0, c: 0 });
    c.cmap.insert((v, w), e);
    e
}
pub fn var(name: &str, w: u16) -> E {
    let c = cx();
    let id = c.vars.len() as u32;
    c.vars.push((name.to_string(), w));
    intern(Node { op: Op::Var, w, a: id, b: 0, c: 0 })
}
pub fn var_ref(id: u32, w: u16) -> E { intern(Node { op: Op::Var, w, a: id, b: 0, c: 0 }) }
#[inline] pub fn cv(e: E) -> Option<u128> {
    let n = node(e);
    if n.op == Op::Const { Some(cx().consts[n.a as usize]) } else { None }
}
fn mk(op: Op, w: u16, a: u32, b: u32, c: u32) -> E { intern(Node { op, w, a, b, c }) }

pub fn tru() -> E { konst(1, 1) }
pub fn fls() -> E { konst(0, 1) }

// ---------- tables ----------
pub fn table_vals(e: E) -> Option<(E, Rc<Vec<u128>>)> {
    let n = node(e);
    if n.op == Op::Table { Some((n.a, cx().tables[n.b as usize].clone())) } else { None }
}
pub fn mk_table(idx: E, vals: Vec<u128>, w: u16) -> E {
    let iw = width(idx);
    debug_assert!(vals.len() == 1usize << iw);
    if vals.iter().all(|v| *v == vals[0]) { return konst(vals[0], w); }
    if let Some(k) = cv(idx) { return konst(vals[k as usize], w); }
    if w >= iw && vals.iter().enumerate().all(|(i, v)| *v == i as u128) { return zext(idx, w); }
    if let Some((x, tv)) = table_vals(idx) {
        let nv: Vec<u128> = tv.iter().map(|v| vals[*v as usize]).collect();
        return mk_table(x, nv, w);
    }
    let tid = intern_table(vals);
    mk(Op::Table, w, idx, tid, 0)
}
fn intern_table(vals: Vec<u128>) -> u32 {
    let mut h = 0xcbf29ce484222325u64 ^ vals.len() as u64;
    for v in &vals { h = (h.rotate_left(5) ^ (*v as u64) ^ ((*v >> 64) as u64).wrapping_mul(0x9e3779b97f4a7c15)).wrapping_mul(0x517cc1b727220a95); }
    let c = cx();
    let l = c.thash.entry(h).or_default();
    for t in l.iter() { if *c.tables[*t as usize] == vals { return *t; } }
    let tid = c.tables.len() as u32;
    l.push(tid);
    c.tables.push(Rc::new(vals));
    tid
}
/// Is `e` a function of `x` alone? If so return its value for every value of x.
pub fn as_fn_of(e: E, x: E) -> Option<Vec<u128>> {
    let mut memo = HashMap::new();
    tabulate(e, x, &mut memo).map(|r| (*r).clone())
}
fn tabulate(e: E, x: E, memo: &mut HashMap<E, Option<Rc<Vec<u128>>>>) -> Option<Rc<Vec<u128>>> {
    if let Some(r) = memo.get(&e) { return r.clone(); }
    if memo.len() > 4000 { return None; }
    let n = node(e);
    let sz = 1usize << width(x);
    let r: Option<Rc<Vec<u128>>> = if e == x {
        Some(Rc::new((0..sz as u128).collect()))
    } else {
        match n.op {
            Op::Const => { let v = cv(e).unwrap(); Some(Rc::new(vec![v; sz])) }
            Op::Var => sub_of_concat(e, x, sz),
            Op::Table => {
                if let Some(r) = sub_of_concat(e, x, sz) { memo.insert(e, Some(r.clone())); return Some(r); }
                match tabulate(n.a, x, memo) {
                    Some(iv) => { let tv = cx().tables[n.b as usize].clone(); Some(Rc::new(iv.iter().map(|i| tv[*i as usize]).collect())) }
                    None => None,
                }
            }
            Op::Extract => {
                // an extract of something x is itself an extract of
                let nx = node(x);
                if nx.op == Op::Extract && nx.a == n.a && n.b >= nx.b && n.b + n.w as u32 <= nx.b + nx.w as u32 {
                    let sh = n.b - nx.b;
                    Some(Rc::new((0..sz as u128).map(|v| (v >> sh) & mask(n.w)).collect()))
                } else if let Some(r) = sub_of_concat(e, x, sz) { Some(r) } else {
                    tabulate(n.a, x, memo).map(|v| Rc::new(v.iter().map(|v| (v >> n.b) & mask(n.w)).collect()))
                }
            }
            Op::SExt => tabulate(n.a, x, memo).map(|v| { let aw = width(n.a); Rc::new(v.iter().map(|v| sx(*v, aw) as u128 & mask(n.w)).collect()) }),
            Op::Ite => {
                let c = tabulate(n.a, x, memo)?; let a = tabulate(n.b, x, memo)?; let b = tabulate(n.c, x, memo)?;
                Some(Rc::new((0..sz).map(|i| if c[i] != 0 { a[i] } else { b[i] }).collect()))
            }
            _ => {
                let a = tabulate(n.a, x, memo);
                let a = match a { Some(a) => a, None => { memo.insert(e, None); return None } };
                let b = tabulate(n.b, x, memo);
                let b = match b { Some(b) => b, None => { memo.insert(e, None); return None } };
                let (wa, wb) = (width(n.a), width(n.b));
                Some(Rc::new((0..sz).map(|i| fold(n.op, n.w, a[i], b[i], wa, wb)).collect()))
            }
        }
    };
    memo.insert(e, r.clone());
    r
}
/// e is a piece of the concat x
fn sub_of_concat(e: E, x: E, sz: usize) -> Option<Rc<Vec<u128>>> {
    if node(x).op != Op::Concat { return None; }
    let mut lo = width(x) as u32;
    for (s, w) in segs(x) {
        lo -= w as u32;
        if s == e { return Some(Rc::new((0..sz as u128).map(|v| (v >> lo) & mask(w)).collect())); }
        let (ns, ne) = (node(s), node(e));
        if ns.op == Op::Extract && ne.op == Op::Extract && ns.a == ne.a && ne.b >= ns.b && ne.b + ne.w as u32 <= ns.b + ns.w as u32 {
            let sh = lo + ne.b - ns.b;
            return Some(Rc::new((0..sz as u128).map(|v| (v >> sh) & mask(ne.w)).collect()));
        }
        if ne.op == Op::Extract && ne.a == s {
            let sh = lo + ne.b;
            return Some(Rc::new((0..sz as u128).map(|v| (v >> sh) & mask(ne.w)).collect()));
        }
    }
    None
}

pub fn fold(op: Op, w: u16, a: u128, b: u128, wa: u16, wb: u16) -> u128 {
    let m = mask(w);
    match op {
        Op::Add => a.wrapping_add(b) & m,
        Op::Sub => a.wrapping_sub(b) & m,
        Op::Mul => a.wrapping_mul(b) & m,
        Op::UDiv => if b == 0 { m } else { a / b },
        Op::URem => if b == 0 { a } else { a % b },
        Op::SDiv => if b == 0 { m } else { sx(a, w).wrapping_div(sx(b, w)) as u128 & m },
        Op::SRem => if b == 0 { a } else { sx(a, w).wrapping_rem(sx(b, w)) as u128 & m },
        Op::Shl => if b >= w as u128 { 0 } else { (a << b) & m },
        Op::LShr => if b >= w as u128 { 0 } else { a >> b },
        Op::AShr => { let s = if b >= w as u128 { w as u32 - 1 } else { b as u32 }; (sx(a, w) >> s) as u128 & m }
        Op::And => a & b,
        Op::Or => a | b,
        Op::Xor => a ^ b,
        Op::Eq => (a == b) as u128,
        Op::Ult => (a < b) as u128,
        Op::Slt => (sx(a, wa) < sx(b, wa)) as u128,
        Op::Concat => (a << wb) | b,
        _ => panic!("fold {:?}", op),
    }
}

/// The smallest-width expression x that e can be seen to be a function of.
pub fn cut(e: E) -> Option<E> {
    let n = node(e);
    match n.op {
        Op::Const => None,
        Op::Var => Some(e),
        Op::Table => Some(n.a),
        Op::Extract => {
            match cut(n.a) { Some(x) if width(x) <= n.w && x != n.a => Some(x), _ => Some(e) }
        }
        Op::SExt => { cut(n.a).map(|x| if width(x) <= n.w { x } else { e }) }
        Op::Concat => {
            let s = segs(e);
            let symn: Vec<usize> = (0..s.len()).filter(|&i| cv(s[i].0).is_none()).collect();
            if symn.len() == 1 {
                let p = s[symn[0]].0;
                return cut(p).map(|x| if width(x) <= width(p) { x } else { p });
            }
            let cuts: Vec<E> = symn.iter().map(|&i| cut(s[i].0).unwrap()).collect();
            if cuts.iter().all(|c| *c == cuts[0]) && width(cuts[0]) <= 16 { return Some(cuts[0]); }
            let (f, l) = (symn[0], symn[symn.len() - 1]);
            if f == 0 && l == s.len() - 1 { return Some(e); }
            let mut acc = s[f].0;
            for i in f + 1..=l { acc = concat(acc, s[i].0); }
            Some(acc)
        }
        Op::Ite => {
            let mut cs: Vec<E> = Vec::new();
            for k in [n.a, n.b, n.c] { if let Some(x) = cut(k) { if !cs.contains(&x) { cs.push(x); } } }
            if cs.len() == 1 && width(cs[0]) <= 16 { Some(cs[0]) } else { Some(e) }
        }
        _ => {
            let a = cut(n.a); let b = cut(n.b);
            match (a, b) {
                (None, None) => None,
                (Some(x), None) | (None, Some(x)) => if width(x) <= n.w.max(16) { Some(x) } else { Some(e) },
                (Some(x), Some(y)) => if x == y && width(x) <= n.w.max(16) { Some(x) } else {
                    // one may be part of the other
                    if width(x) <= 16 && as_fn_of(n.b, x).is_some() { return Some(x); }
                    if width(y) <= 16 && as_fn_of(n.a, y).is_some() { return Some(y); }
                    Some(e)
                },
            }
        }
    }
}

fn try_table(op: Op, w: u16, a: E, b: E) -> Option<E> {
    let (na, nb) = (node(a), node(b));
    if na.op != Op::Table && nb.op != Op::Table { return None; }
    if let Some(r) = cx().opc.get(&(op, w, a, b)) { return *r; }
    let r = try_table0(op, w, a, b, na, nb);
    cx().opc.insert((op, w, a, b), r);
    r
}
fn try_table0(op: Op, w: u16, a: E, b: E, na: Node, nb: Node) -> Option<E> {
    let x = if na.op == Op::Table { na.a } else { nb.a };
    if na.op == Op::Table && nb.op == Op::Table && na.a != nb.a {
        return None;
    }
    let va = if na.op == Op::Table { Some((*cx().tables[na.b as usize]).clone()) } else { as_fn_of(a, x) }?;
    let vb = if nb.op == Op::Table { Some((*cx().tables[nb.b as usize]).clone()) } else { as_fn_of(b, x) }?;
    let (wa, wb) = (na.w, nb.w);
    let vals = (0..va.len()).map(|i| fold(op, w, va[i], vb[i], wa, wb)).collect();
    Some(mk_table(x, vals, w))
}

// ---------- structure ----------
pub fn segs(e: E) -> Vec<(E, u16)> {
    let mut v = Vec::new();
    let mut e = e;
    loop {
        let n = node(e);
        if n.op == Op::Concat { v.push((n.a, width(n.a))); e = n.b; } else { v.push((e, n.w)); return v; }
    }
}

pub fn concat(a: E, b: E) -> E {
    let (na, nb) = (node(a), node(b));
    let w = na.w + nb.w;
    assert!(w <= 128, "concat too wide");
    if na.op == Op::Concat { return concat(na.a, concat(na.b, b)); }
    if let (Some(x), Some(y)) = (cv(a), cv(b)) { return konst((x << nb.w) | y, w); }
    let (bh, bt) = if nb.op == Op::Concat { (nb.a, Some(nb.b)) } else { (b, None) };
    if let Some(m) = merge(a, bh) {
        return match bt { None => m, Some(t) => concat(m, t) };
    }
    mk(Op::Concat, w, a, b, 0)
}
fn merge(a: E, b: E) -> Option<E> {
    let (na, nb) = (node(a), node(b));
    if na.op == Op::Const && nb.op == Op::Const {
        return Some(konst((cv(a).unwrap() << nb.w) | cv(b).unwrap(), na.w + nb.w));
    }
    if na.op == Op::Extract && nb.op == Op::Extract && na.a == nb.a && na.b == nb.b + nb.w as u32 {
        return Some(extract(na.a, nb.b as u16, na.w + nb.w));
    }
    if na.op == Op::Table && nb.op == Op::Table && na.a == nb.a { return try_table(Op::Concat, na.w + nb.w, a, b); }
    if (na.op == Op::Table && nb.op == Op::Const) || (na.op == Op::Const && nb.op == Op::Table) {
        return try_table(Op::Concat, na.w + nb.w, a, b);
    }
    if na.op == Op::Ite && nb.op == Op::Ite && na.a == nb.a {
        return Some(ite(na.a, concat(na.b, nb.b), concat(na.c, nb.c)));
    }
    None
}

pub fn extract(e: E, lo: u16, w: u16) -> E {
    let n = node(e);
    debug_assert!(lo + w <= n.w);
    if lo == 0 && w == n.w { return e; }
    match n.op {
        Op::Const => konst(cv(e).unwrap() >> lo, w),
        Op::Extract => extract(n.a, n.b as u16 + lo, w),
        Op::Concat => {
            let bw = width(n.b);
            if lo >= bw { extract(n.a, lo - bw, w) }
            else if lo + w <= bw { extract(n.b, lo, w) }
            else { let h = extract(n.a, 0, lo + w - bw); let l = extract(n.b, lo, bw - lo); concat(h, l) }
        }
        Op::Table => {
            let vals = cx().tables[n.b as usize].iter().map(|v| (v >> lo) & mask(w)).collect();
            mk_table(n.a, vals, w)
        }
        Op::SExt => {
            let aw = width(n.a);
            if lo + w <= aw { extract(n.a, lo, w) }
            else if lo == 0 { sext(n.a, w) }
            else if lo >= aw { sext(extract(n.a, aw - 1, 1), w) }
            else { sext(extract(n.a, lo, aw - lo), w) }
        }
        Op::Ite => { let a = extract(n.b, lo, w); let b = extract(n.c, lo, w); ite(n.a, a, b) }
        Op::And | Op::Or | Op::Xor => { let a = extract(n.a, lo, w); let b = extract(n.b, lo, w); bitop(n.op, a, b) }
        Op::Add if lo == 0 => { let a = extract(n.a, 0, w); let b = extract(n.b, 0, w); add(a, b) }
        Op::Sub if lo == 0 => { let a = extract(n.a, 0, w); let b = extract(n.b, 0, w); sub(a, b) }
        Op::Mul if lo == 0 => { let a = extract(n.a, 0, w); let b = extract(n.b, 0, w); mul(a, b) }
        _ => {
            let (_, hi) = urange(e);
            if hi >> lo == 0 { return konst(0, w); }
            mk(Op::Extract, w, e, lo as u32, 0)
        }
    }
}
pub fn zext(e: E, w: u16) -> E { let ew = width(e); if ew == w { e } else { concat(konst(0, w - ew), e) } }
pub fn sext(e: E, w: u16) -> E {
    let n = node(e);
    if n.w == w { return e; }
    if let Some(v) = cv(e) { return konst(sx(v, n.w) as u128, w); }
    let (_, hi) = urange(e);
    if hi >> (n.w - 1) == 0 { return zext(e, w); }
    if n.op == Op::Table { let aw = n.w; let vals = cx().tables[n.b as usize].iter().map(|v| sx(*v, aw) as u128 & mask(w)).collect(); return mk_table(n.a, vals, w); }
    if n.op == Op::SExt { return sext(n.a, w); }
    if n.w == 1 { return ite(e, konst(mask(w), w), konst(0, w)); }
    mk(Op::SExt, w, e, 0, 0)
}
pub fn trunc(e: E, w: u16) -> E { extract(e, 0, w) }

pub fn not1(e: E) -> E { bitop(Op::Xor, e, tru()) }
pub fn is_not(e: E) -> Option<E> { let n = node(e); if n.w == 1 && n.op == Op::Xor && cv(n.b) == Some(1) { Some(n.a) } else { None } }

pub fn bitop(op: Op, a: E, b: E) -> E {
    let w = width(a);
    debug_assert!(w == width(b), "bitop width {} {}", w, width(b));
    let (mut a, mut b) = (a, b);
    if cv(a).is_some() { std::mem::swap(&mut a, &mut b); }
    if let (Some(x), Some(y)) = (cv(a), cv(b)) { return konst(fold(op, w, x, y, w, w), w); }
    if a == b { return if op == Op::Xor { konst(0, w) } else { a }; }
    if let Some(k) = cv(b) {
        match op {
            Op::And => { if k == 0 { return b; } if k == mask(w) { return a; } }
            Op::Or => { if k == 0 { return a; } if k == mask(w) { return b; } }
            _ => { if k == 0 { return a; } }
        }
        let na = node(a);
        if na.op == op { if let Some(k2) = cv(na.b) { return bitop(op, na.a, konst(fold(op, w, k, k2, w, w), w)); } }
        if op == Op::Xor && na.op == Op::Ite && (cv(na.b).is_some() || cv(na.c).is_some()) {
            let x = bitop(op, na.b, b); let y = bitop(op, na.c, b); return ite(na.a, x, y);
        }
        if op == Op::And && na.op == Op::Ite && (cv(na.b).is_some() && cv(na.c).is_some()) {
            let x = bitop(op, na.b, b); let y = bitop(op, na.c, b); return ite(na.a, x, y);
        }
    }
    if let Some(t) = try_table(op, w, a, b) { return t; }
    if w == 1 {
        // x & !x, x | !x, absorption
        if is_not(a) == Some(b) || is_not(b) == Some(a) { return if op == Op::And { fls() } else { tru() }; }
        if op == Op::And || op == Op::Or {
            for (x, y) in [(a, b), (b, a)] {
                let ny = node(y);
                if ny.op == op && (ny.a == x || ny.b == x) { return y; }
                let dual = if op == Op::And { Op::Or } else { Op::And };
                if ny.op == dual && (ny.a == x || ny.b == x) { return x; }
            }
        }
    }
    // segment-wise
    let sa = segs_for(a, op); let sb = segs_for(b, op);
    if let (Some(sa), Some(sb)) = (sa, sb) {
        if sa.len() > 1 || sb.len() > 1 {
            let mut gain = false;
            let (mut i, mut j) = (0, 0);
            let (mut oa, mut ob) = (0u16, 0u16); // consumed from top of the current seg
            let mut parts: Vec<(E, E)> = Vec::new();
            while i < sa.len() && j < sb.len() {
                let (ea, wa) = sa[i]; let (eb, wb) = sb[j];
                let t = (wa - oa).min(wb - ob);
                let pa = extract(ea, wa - oa - t, t);
                let pb = extract(eb, wb - ob - t, t);
                if let Some(k) = cv(pa) { if k == 0 || k == mask(t) || cv(pb).is_some() { gain = true; } }
                if let Some(k) = cv(pb) { if k == 0 || k == mask(t) || cv(pa).is_some() { gain = true; } }
                parts.push((pa, pb));
                oa += t; ob += t;
                if oa == wa { i += 1; oa = 0; }
                if ob == wb { j += 1; ob = 0; }
            }
            if gain && !(op == Op::Xor && w == 1) {
                let mut acc: Option<E> = None;
                for (pa, pb) in parts {
                    let r = if width(pa) == w { mk_bit(op, pa, pb) } else { bitop(op, pa, pb) };
                    acc = Some(match acc { None => r, Some(x) => concat(x, r) });
                }
                return acc.unwrap();
            }
        }
    }
    mk_bit(op, a, b)
}
fn mk_bit(op: Op, a: E, b: E) -> E {
    let w = width(a);
    if cv(a).is_some() && cv(b).is_some() { return konst(fold(op, w, cv(a).unwrap(), cv(b).unwrap(), w, w), w); }
    if cv(b).is_none() && a > b { mk(op, w, b, a, 0) } else { mk(op, w, a, b, 0) }
}
fn segs_for(e: E, op: Op) -> Option<Vec<(E, u16)>> {
    if let Some(k) = cv(e) {
        if op == Op::Xor { return Some(vec![(e, width(e))]); }
        let w = width(e);
        let mut v = Vec::new();
        let mut hi = w as i32 - 1;
        while hi >= 0 {
            let bit = (k >> hi) & 1;
            let mut lo = hi;
            while lo > 0 && (k >> (lo - 1)) & 1 == bit { lo -= 1; }
            let sw = (hi - lo + 1) as u16;
            v.push((konst(if bit == 1 { mask(sw) } else { 0 }, sw), sw));
            hi = lo - 1;
        }
        if v.len() > 9 { return None; }
        return Some(v);
    }
    Some(segs(e))
}

pub fn add(a: E, b: E) -> E {
    let w = width(a);
    let (mut a, mut b) = (a, b);
    if cv(a).is_some() { std::mem::swap(&mut a, &mut b); }
    if let Some(k) = cv(b) {
        if k == 0 { return a; }
        if let Some(x) = cv(a) { return konst(x.wrapping_add(k), w); }
        let na = node(a);
        // a constant that leaves the low bits alone
        if na.op == Op::Concat { let lw = width(na.b); if let Some(h) = cv(na.a) { if lw < w && k & mask(lw) == 0 { return concat(konst(h.wrapping_add(k >> lw) & mask(w - lw), w - lw), na.b); } } }
        if na.op == Op::Add {
            if let Some(k2) = cv(na.b) { return add(na.a, konst(k.wrapping_add(k2), w)); }
            // a constant that merges with one operand
            for (x, y) in [(na.a, na.b), (na.b, na.a)] {
                if matches!(node(y).op, Op::Concat | Op::Table) { let t = add(y, b); if !matches!(node(t).op, Op::Add | Op::Ite) { return add(x, t); } }
            }
        }
        if na.op == Op::Ite && cv(na.b).is_some() && cv(na.c).is_some() { let x = add(na.b, b); let y = add(na.c, b); return ite(na.a, x, y); }
    }
    if let Some(t) = try_table(Op::Add, w, a, b) { return t; }
    // (x - y) + y
    let (na, nb) = (node(a), node(b));
    if na.op == Op::Sub && na.b == b { return na.a; }
    if nb.op == Op::Sub && nb.b == a { return nb.a; }
    // disjoint bits: or
    if disjoint(a, b) { return bitop(Op::Or, a, b); }
    if na.op == Op::Add && cv(na.b).is_some() { let s = add(na.a, b); return add(s, na.b); }
    if nb.op == Op::Add && cv(nb.b).is_some() { let s = add(a, nb.a); return add(s, nb.b); }
    if cv(b).is_none() && a > b { mk(Op::Add, w, b, a, 0) } else { mk(Op::Add, w, a, b, 0) }
}
fn disjoint(a: E, b: E) -> bool {
    if cv(a).is_some() || cv(b).is_some() { 
        let (k, x) = if let Some(k) = cv(a) { (k, b) } else { (cv(b).unwrap(), a) };
        if node(x).op != Op::Concat { return false; }
        let mut lo = width(x);
        for (s, sw) in segs(x) {
            lo -= sw;
            let kp = (k >> lo) & mask(sw);
            if kp != 0 && cv(s) != Some(0) { return false; }
        }
        return true;
    }
    let (sa, sb) = (segs(a), segs(b));
    if sa.len() == 1 && sb.len() == 1 { return false; }
    let w = width(a);
    let mut za = 0u128; let mut lo = w;
    for (s, sw) in &sa { lo -= sw; if cv(*s) == Some(0) { za |= mask(*sw) << lo; } }
    let mut zb = 0u128; let mut lo = w;
    for (s, sw) in &sb { lo -= sw; if cv(*s) == Some(0) { zb |= mask(*sw) << lo; } }
    (za | zb) == mask(w)
}
pub fn sub(a: E, b: E) -> E {
    let w = width(a);
    if a == b { return konst(0, w); }
    if let Some(k) = cv(b) { return add(a, konst((!k).wrapping_add(1), w)); }
    if let Some(t) = try_table(Op::Sub, w, a, b) { return t; }
    let (na, nb) = (node(a), node(b));
    if na.op == Op::Add {
        if na.a == b { return na.b; }
        if na.b == b { return na.a; }
        if cv(na.b).is_some() { let s = sub(na.a, b); return add(s, na.b); }
    }
    if nb.op == Op::Add {
        if let Some(k) = cv(nb.b) { let s = sub(a, nb.a); return add(s, konst((!k).wrapping_add(1), w)); }
        if nb.a == a { return neg(nb.b); }
        if nb.b == a { return neg(nb.a); }
    }
    mk(Op::Sub, w, a, b, 0)
}
fn neg(a: E) -> E { let w = width(a); match cv(a) { Some(k) => konst((!k).wrapping_add(1), w), None => mk(Op::Sub, w, konst(0, w), a, 0) } }
pub fn mul(a: E, b: E) -> E {
    let w = width(a);
    let (mut a, mut b) = (a, b);
    if cv(a).is_some() { std::mem::swap(&mut a, &mut b); }
    if let Some(k) = cv(b) {
        if let Some(x) = cv(a) { return konst(x.wrapping_mul(k), w); }
        if k == 0 { return b; }
        if k == 1 { return a; }
        if k.is_power_of_two() { return shl(a, konst(k.trailing_zeros() as u128, w)); }
        let na = node(a);
        if na.op == Op::Add { if let Some(k2) = cv(na.b) { let m = mul(na.a, b); return add(m, konst(k.wrapping_mul(k2), w)); } }
        if na.op == Op::Mul { if let Some(k2) = cv(na.b) { return mul(na.a, konst(k.wrapping_mul(k2), w)); } }
    }
    if let Some(t) = try_table(Op::Mul, w, a, b) { return t; }
    if cv(b).is_none() && a > b { mk(Op::Mul, w, b, a, 0) } else { mk(Op::Mul, w, a, b, 0) }
}
pub fn udiv(a: E, b: E) -> E {
    let w = width(a);
    if let Some(k) = cv(b) {
        if let Some(x) = cv(a) { return konst(fold(Op::UDiv, w, x, k, w, w), w); }
        if k == 1 { return a; }
        if k != 0 && k.is_power_of_two() { return lshr(a, konst(k.trailing_zeros() as u128, w)); }
        let (_, hi) = urange(a);
        if k != 0 && hi < k { return konst(0, w); }
        // shrink width
        let need = (128 - hi.max(k).leading_zeros()) as u16;
        if k != 0 && need < w && need > 0 {
            let x = extract(a, 0, need); let r = udiv(x, konst(k, need)); return zext(r, w);
        }
    }
    if let Some(t) = try_table(Op::UDiv, w, a, b) { return t; }
    mk(Op::UDiv, w, a, b, 0)
}
pub fn urem(a: E, b: E) -> E {
    let w = width(a);
    if let Some(k) = cv(b) {
        if let Some(x) = cv(a) { return konst(fold(Op::URem, w, x, k, w, w), w); }
        if k == 1 { return konst(0, w); }
        if k != 0 && k.is_power_of_two() { return bitop(Op::And, a, konst(k - 1, w)); }
        let (_, hi) = urange(a);
        if k != 0 && hi < k { return a; }
        let need = (128 - hi.max(k).leading_zeros()) as u16;
        if k != 0 && need < w && need > 0 {
            let x = extract(a, 0, need); let r = urem(x, konst(k, need)); return zext(r, w);
        }
    }
    if let Some(t) = try_table(Op::URem, w, a, b) { return t; }
    mk(Op::URem, w, a, b, 0)
}
pub fn sdivrem(op: Op, a: E, b: E) -> E {
    let w = width(a);
    if let (Some(x), Some(y)) = (cv(a), cv(b)) { return konst(fold(op, w, x, y, w, w), w); }
    let (_, ha) = urange(a); let (_, hb) = urange(b);
    if ha >> (w - 1) == 0 && hb >> (w - 1) == 0 { return if op == Op::SDiv { udiv(a, b) } else { urem(a, b) }; }
    if let Some(t) = try_table(op, w, a, b) { return t; }
    mk(op, w, a, b, 0)
}
pub fn shl(a: E, b: E) -> E {
    let w = width(a);
    if let Some(k) = cv(b) {
        if k >= w as u128 { return konst(0, w); }
        if k == 0 { return a; }
        let k = k as u16;
        let x = extract(a, 0, w - k);
        return concat(x, konst(0, k));
    }
    if let Some(t) = try_table(Op::Shl, w, a, b) { return t; }
    mk(Op::Shl, w, a, b, 0)
}
pub fn lshr(a: E, b: E) -> E {
    let w = width(a);
    if let Some(k) = cv(b) {
        if k >= w as u128 { return konst(0, w); }
        if k == 0 { return a; }
        let k = k as u16;
        let x = extract(a, k, w - k);
        return concat(konst(0, k), x);
    }
    if let Some(t) = try_table(Op::LShr, w, a, b) { return t; }
    mk(Op::LShr, w, a, b, 0)
}
pub fn ashr(a: E, b: E) -> E {
    let w = width(a);
    if let Some(k) = cv(b) {
        let k = k.min(w as u128 - 1) as u16;
        if k == 0 { return a; }
        let x = extract(a, k, w - k);
        return sext(x, w);
    }
    let (_, hi) = urange(a);
    if hi >> (w - 1) == 0 { return lshr(a, b); }
    if let Some(t) = try_table(Op::AShr, w, a, b) { return t; }
    mk(Op::AShr, w, a, b, 0)
}

pub fn eq(a: E, b: E) -> E {
    let w = width(a);
    debug_assert!(w == width(b));
    if a == b { return tru(); }
    let (mut a, mut b) = (a, b);
    if cv(a).is_some() { std::mem::swap(&mut a, &mut b); }
    if let (Some(x), Some(y)) = (cv(a), cv(b)) { return konst((x == y) as u128, 1); }
    let na = node(a);
    if let Some(k) = cv(b) {
        if w == 1 { return if k == 1 { a } else { not1(a) }; }
        let (lo, hi) = urange(a);
        if k < lo || k > hi { return fls(); }
        match na.op {
            Op::Ite => {
                let ca = cv(na.b); let cb = cv(na.c);
                if ca.is_some() || cb.is_some() { let x = eq(na.b, b); let y = eq(na.c, b); return ite(na.a, x, y); }
            }
            Op::Add => if let Some(k2) = cv(na.b) { return eq(na.a, konst(k.wrapping_sub(k2), w)); },
            Op::Xor => { if let Some(k2) = cv(na.b) { return eq(na.a, konst(k ^ k2, w)); } if k == 0 { return eq(na.a, na.b); } }
            Op::Sub => if k == 0 { return eq(na.a, na.b); },
            Op::SExt => {
                let aw = width(na.a);
                let t = k & mask(aw);
                if sx(t, aw) as u128 & mask(w) == k { return eq(na.a, konst(t, aw)); } else { return fls(); }
            }
            Op::Or if k == 0 => { let z = konst(0, w); let x = eq(na.a, z); let y = eq(na.b, z); return bitop(Op::And, x, y); }
            _ => {}
        }
    } else {
        let (l1, h1) = urange(a); let (l2, h2) = urange(b);
        if h1 < l2 || h2 < l1 { return fls(); }
    }
    if let Some(t) = try_table(Op::Eq, 1, a, b) { return t; }
    if na.op == Op::Concat || node(b).op == Op::Concat {
        // split at the first boundary
        let sa = segs(a); let sb = segs(b);
        let t = if cv(b).is_some() { sa[0].1 } else if cv(a).is_some() { sb[0].1 } else if sa.len() > 1 && sb.len() > 1 { sa[0].1.min(sb[0].1) } else if sa.len() > 1 { sa[0].1 } else { sb[0].1 };
        let r = w - t;
        if r > 0 {
            let x = eq(extract(a, r, t), extract(b, r, t));
            if cv(x) == Some(0) { return fls(); }
            let y = eq(extract(a, 0, r), extract(b, 0, r));
            return bitop(Op::And, x, y);
        }
    }
    if w == 1 { return not1(bitop(Op::Xor, a, b)); }
    if cv(b).is_none() && a > b { mk(Op::Eq, 1, b, a, 0) } else { mk(Op::Eq, 1, a, b, 0) }
}
pub fn ne(a: E, b: E) -> E { not1(eq(a, b)) }

pub fn ult(a: E, b: E) -> E {
    let w = width(a);
    if a == b { return fls(); }
    if let (Some(x), Some(y)) = (cv(a), cv(b)) { return konst((x < y) as u128, 1); }
    let (l1, h1) = urange(a); let (l2, h2) = urange(b);
    if h1 < l2 { return tru(); }
    if l1 >= h2 { return fls(); }
    { let na = node(a); if na.op == Op::Add && (na.a == b || na.b == b) { let (_, x) = urange(na.a); let (_, y) = urange(na.b); if x.checked_add(y).map_or(false, |s| s <= mask(w)) { return fls(); } } }
    if cv(b) == Some(1) { return eq(a, konst(0, w)); }
    if cv(a) == Some(0) { return ne(b, konst(0, w)); }
    if let Some(k) = cv(b) { if k == mask(w) { return ne(a, b); } }
    if let Some(t) = try_table(Op::Ult, 1, a, b) { return t; }
    // ite with const arms vs const
    let na = node(a); let nb = node(b);
    if na.op == Op::Ite && cv(na.b).is_some() && cv(na.c).is_some() && cv(b).is_some() { let x = ult(na.b, b); let y = ult(na.c, b); return ite(na.a, x, y); }
    if nb.op == Op::Ite && cv(nb.b).is_some() && cv(nb.c).is_some() && cv(a).is_some() { let x = ult(a, nb.b); let y = ult(a, nb.c); return ite(nb.a, x, y); }
    // strip equal constant high parts
    let need = (128 - h1.max(h2).leading_zeros()) as u16;
    if need < w && need > 0 { let x = extract(a, 0, need); let y = extract(b, 0, need); return ult(x, y); }
    if w == 1 { let n = not1(a); return bitop(Op::And, n, b); }
    mk(Op::Ult, 1, a, b, 0)
}
pub fn ule(a: E, b: E) -> E { not1(ult(b, a)) }
pub fn slt(a: E, b: E) -> E {
    let w = width(a);
    if a == b { return fls(); }
    if let (Some(x), Some(y)) = (cv(a), cv(b)) { return konst((sx(x, w) < sx(y, w)) as u128, 1); }
    if cv(b) == Some(0) { return extract(a, w - 1, 1); }
    if cv(a) == Some(mask(w)) { return not1(extract(b, w - 1, 1)); }
    let (_, h1) = urange(a); let (_, h2) = urange(b);
    if h1 >> (w - 1) == 0 && h2 >> (w - 1) == 0 { return ult(a, b); }
    if let Some(t) = try_table(Op::Slt, 1, a, b) { return t; }
    let na = node(a);
    if na.op == Op::SExt && cv(b).is_some() {
        let aw = width(na.a); let k = sx(cv(b).unwrap(), w);
        let lim = 1i128 << (aw - 1);
        if k >= lim { return tru(); }
        if k <= -lim { return fls(); }
        return slt(na.a, konst(k as u128, aw));
    }
    mk(Op::Slt, 1, a, b, 0)
}
pub fn sle(a: E, b: E) -> E { not1(slt(b, a)) }

pub fn ite(c: E, a: E, b: E) -> E {
    if let Some(k) = cv(c) { return if k != 0 { a } else { b }; }
    if a == b { return a; }
    if let Some(x) = is_not(c) { return ite(x, b, a); }
    let w = width(a);
    if w == 1 {
        match (cv(a), cv(b)) {
            (Some(1), Some(0)) => return c,
            (Some(0), Some(1)) => return not1(c),
            (Some(1), None) => return bitop(Op::Or, c, b),
            (Some(0), None) => { let n = not1(c); return bitop(Op::And, n, b) }
            (None, Some(0)) => return bitop(Op::And, c, a),
            (None, Some(1)) => { let n = not1(c); return bitop(Op::Or, n, a) }
            _ => {}
        }
    }
    let nc = node(c);
    if nc.op == Op::Table {
        let va = if let Some((x, v)) = table_vals(a) { if x == nc.a { Some((*v).clone()) } else { None } } else { as_fn_of(a, nc.a) };
        if let Some(va) = va {
            let vb = if let Some((x, v)) = table_vals(b) { if x == nc.a { Some((*v).clone()) } else { None } } else { as_fn_of(b, nc.a) };
            if let Some(vb) = vb {
                let tc = cx().tables[nc.b as usize].clone();
                let vals = (0..tc.len()).map(|i| if tc[i] != 0 { va[i] } else { vb[i] }).collect();
                return mk_table(nc.a, vals, w);
            }
        }
    }
    let na = node(a); let nb = node(b);
    if na.op == Op::Ite && na.a == c { return ite(c, na.b, b); }
    if nb.op == Op::Ite && nb.a == c { return ite(c, a, nb.c); }
    // keep common structure outside
    if na.op == Op::Concat && nb.op == Op::Concat && width(na.a) == width(nb.a) && (na.a == nb.a || na.b == nb.b) {
        let h = ite(c, na.a, nb.a); let l = ite(c, na.b, nb.b); return concat(h, l);
    }
    if (na.op == Op::Concat || nb.op == Op::Concat) && w > 1 {
        // split off a common constant-zero top
        let ta = segs(a)[0]; let tb = segs(b)[0];
        let za = if cv(a).is_some() { 128 - cv(a).unwrap().leading_zeros() as u16 } else { w };
        let zb = if cv(b).is_some() { 128 - cv(b).unwrap().leading_zeros() as u16 } else { w };
        let topa = if cv(a).is_some() { w - za } else if cv(ta.0) == Some(0) { ta.1 } else { 0 };
        let topb = if cv(b).is_some() { w - zb } else if cv(tb.0) == Some(0) { tb.1 } else { 0 };
        let t = topa.min(topb);
        if t > 0 && t < w {
            let x = extract(a, 0, w - t); let y = extract(b, 0, w - t);
            let r = ite(c, x, y);
            return concat(konst(0, t), r);
        }
    }
    mk(Op::Ite, w, c, a, b)
}

pub fn binop(op: Op, a: E, b: E) -> E {
    match op {
        Op::Add => add(a, b), Op::Sub => sub(a, b), Op::Mul => mul(a, b),
        Op::UDiv => udiv(a, b), Op::URem => urem(a, b), Op::SDiv | Op::SRem => sdivrem(op, a, b),
        Op::Shl => shl(a, b), Op::LShr => lshr(a, b), Op::AShr => ashr(a, b),
        Op::And | Op::Or | Op::Xor => bitop(op, a, b),
        Op::Eq => eq(a, b), Op::Ult => ult(a, b), Op::Slt => slt(a, b), Op::Concat => concat(a, b),
        _ => panic!("binop"),
    }
}

pub fn urange(e: E) -> (u128, u128) {
    let n = node(e);
    if n.op == Op::Const { let v = cv(e).unwrap(); return (v, v); }
    if let Some(r) = cx().ranges.get(&e) { return *r; }
    let m = mask(n.w);
    let r = match n.op {
        Op::Table => { let t = cx().tables[n.b as usize].clone(); (*t.iter().min().unwrap(), *t.iter().max().unwrap()) }
        Op::Concat => {
            let (l1, h1) = urange(n.a); let (l2, h2) = urange(n.b); let bw = width(n.b);
            ((l1 << bw) | l2, (h1 << bw) | h2)
        }
        Op::Ite => { let (l1, h1) = urange(n.b); let (l2, h2) = urange(n.c); (l1.min(l2), h1.max(h2)) }
        Op::And => { let (_, h1) = urange(n.a); let (_, h2) = urange(n.b); (0, h1.min(h2)) }
        Op::Or => { let (l1, h1) = urange(n.a); let (l2, h2) = urange(n.b);
            let b = 128 - (h1 | h2).leading_zeros(); (l1.max(l2), if b >= 128 { u128::MAX } else { (1u128 << b) - 1 } & m) }
        Op::Xor => { let (_, h1) = urange(n.a); let (_, h2) = urange(n.b);
            let b = 128 - (h1 | h2).leading_zeros(); (0, if b >= 128 { u128::MAX } else { (1u128 << b) - 1 } & m) }
        Op::UDiv => { let (_, h) = urange(n.a); let (l2, _) = urange(n.b); (0, if l2 > 0 { h / l2 } else { m }) }
        Op::URem => { let (_, h) = urange(n.a); let (l2, h2) = urange(n.b); (0, if l2 > 0 { h.min(h2 - 1) } else { m }) }
        Op::LShr => { let (_, h) = urange(n.a); (0, h) }
        Op::Add => { let (l1, h1) = urange(n.a); let (l2, h2) = urange(n.b);
            match h1.checked_add(h2) { Some(h) if h <= m => (l1 + l2, h), _ => (0, m) } }
        Op::Mul => { let (l1, h1) = urange(n.a); let (l2, h2) = urange(n.b);
            match h1.checked_mul(h2) { Some(h) if h <= m => (l1 * l2, h), _ => (0, m) } }
        Op::Extract => { let (_, h) = urange(n.a); let h = h >> n.b; if h <= m { (0, h) } else { (0, m) } }
        _ => (0, m),
    };
    cx().ranges.insert(e, r);
    r
}

pub fn children(n: &Node) -> ([E; 3], usize) {
    match n.op {
        Op::Const | Op::Var => ([0; 3], 0),
        Op::Extract | Op::SExt | Op::Table => ([n.a, 0, 0], 1),
        Op::Ite => ([n.a, n.b, n.c], 3),
        _ => ([n.a, n.b, 0], 2),
    }
}
/// variables an expression depends on
pub fn support(e: E) -> Rc<Vec<u32>> {
    if let Some(s) = cx().supp.get(&e) { return s.clone(); }
    let mut stack = vec![e];
    while let Some(&t) = stack.last() {
        if cx().supp.contains_key(&t) { stack.pop(); continue; }
        let n = node(t);
        let (ch, k) = children(&n);
        let mut ready = true;
        for i in 0..k { if !cx().supp.contains_key(&ch[i]) { stack.push(ch[i]); ready = false; } }
        if !ready { continue; }
        let r = match n.op {
            Op::Const => Rc::new(vec![]),
            Op::Var => Rc::new(vec![n.a]),
            _ => {
                let mut acc: Option<Rc<Vec<u32>>> = None;
                for i in 0..k {
                    let s = cx().supp[&ch[i]].clone();
                    acc = Some(match acc {
                        None => s,
                        Some(x) => if s.is_empty() || Rc::ptr_eq(&x, &s) { x } else if x.is_empty() { s } else {
                            let mut v: Vec<u32> = Vec::with_capacity(x.len() + s.len());
                            let (mut i, mut j) = (0, 0);
                            while i < x.len() || j < s.len() {
                                if j >= s.len() || (i < x.len() && x[i] < s[j]) { v.push(x[i]); i += 1; }
                                else if i >= x.len() || s[j] < x[i] { v.push(s[j]); j += 1; }
                                else { v.push(x[i]); i += 1; j += 1; }
                            }
                            Rc::new(v)
                        }
                    });
                }
                acc.unwrap()
            }
        };
        cx().supp.insert(t, r);
        stack.pop();
    }
    cx().supp[&e].clone()
}

pub struct Model { pub vals: HashMap<u32, u128>, memo: std::cell::RefCell<HashMap<E, u128>> }
impl Model {
    pub fn new(vals: HashMap<u32, u128>) -> Rc<Model> { Rc::new(Model { vals, memo: Default::default() }) }
    pub fn eval(&self, e: E) -> u128 {
        if let Some(v) = cv(e) { return v; }
        let mut memo = self.memo.borrow_mut();
        if let Some(v) = memo.get(&e) { return *v; }
        let mut stack = vec![e];
        while let Some(&t) = stack.last() {
            if memo.contains_key(&t) { stack.pop(); continue; }
            let n = node(t);
            let (ch, k) = children(&n);
            let mut ready = true;
            for i in 0..k { if cv(ch[i]).is_none() && !memo.contains_key(&ch[i]) { stack.push(ch[i]); ready = false; } }
            if !ready { continue; }
            let g = |e: E| -> u128 { match cv(e) { Some(v) => v, None => memo[&e] } };
            let v = match n.op {
                Op::Const => cv(t).unwrap(),
                Op::Var => self.vals.get(&n.a).copied().unwrap_or(0) & mask(n.w),
                Op::Extract => (g(n.a) >> n.b) & mask(n.w),
                Op::SExt => sx(g(n.a), width(n.a)) as u128 & mask(n.w),
                Op::Table => cx().tables[n.b as usize][g(n.a) as usize],
                Op::Ite => if g(n.a) != 0 { g(n.b) } else { g(n.c) },
                _ => fold(n.op, n.w, g(n.a), g(n.b), width(n.a), width(n.b)),
            };
            memo.insert(t, v);
            stack.pop();
        }
        memo[&e]
    }
}

pub fn show(e: E, depth: usize) -> String {
    let n = node(e);
    if let Some(v) = cv(e) { return format!("{:#x}:{}", v, n.w); }
    if n.op == Op::Var { return cx().vars[n.a as usize].0.clone(); }
    if depth == 0 { return format!("e{}:{}", e, n.w); }
    match n.op {
        Op::Extract => format!("{}[{}+{}]", show(n.a, depth - 1), n.b, n.w),
        Op::Table => format!("T{}[{}]", n.b, show(n.a, depth - 1)),
        Op::SExt => format!("sext{}({})", n.w, show(n.a, depth - 1)),
        Op::Ite => format!("ite({},{},{})", show(n.a, depth - 1), show(n.b, depth - 1), show(n.c, depth - 1)),
        _ => format!("{:?}({},{})", n.op, show(n.a, depth - 1), show(n.b, depth - 1)),
    }
}
