//! Intervals of terms under a path condition: decides easy branches without the solver
use crate::expr::*;
use std::collections::HashMap;
use std::rc::Rc;

#[derive(Default)]
pub struct Ranges { tabs: HashMap<E, Option<Rc<Vec<u128>>>> }
type Facts = HashMap<E, (u128, u128)>;
type Sets = HashMap<u32, Vec<bool>>;

impl Ranges {
    /// the values of a term over those of its only variable, if that is one of up to eight bits
    fn tab(&mut self, e: E) -> Option<(u32, Rc<Vec<u128>>)> {
        let s = support(e);
        if s.len() != 1 { return None; }
        let v = s[0];
        let w = cx().vars[v as usize].1;
        if w > 8 { return None; }
        let t = self.tabs.entry(e).or_insert_with(|| as_fn_of(e, var_ref(v, w)).map(Rc::new)).clone();
        t.map(|t| (v, t))
    }
    /// no value of the variables satisfies pc and c; false means nothing
    pub fn impossible(&mut self, pc: &[E], c: E) -> bool {
        let mut facts: Facts = HashMap::new();
        let mut sets: Sets = HashMap::new();
        for p in pc {
            if let Some((v, t)) = self.tab(*p) {
                let s = sets.entry(v).or_insert_with(|| vec![true; t.len()]);
                for (a, x) in s.iter_mut().zip(t.iter()) { *a &= *x == 1; }
                continue;
            }
            let (neg, q) = match is_not(*p) { Some(q) => (true, q), None => (false, *p) };
            let n = node(q);
            let mut fact = |e: E, lo: u128, hi: u128| { let f = facts.entry(e).or_insert((0, mask(width(e)))); f.0 = f.0.max(lo); f.1 = f.1.min(hi); };
            match (n.op, neg, cv(n.a), cv(n.b)) {
                (Op::Ult, false, None, Some(k)) if k > 0 => fact(n.a, 0, k - 1),
                (Op::Ult, true, None, Some(k)) => fact(n.a, k, u128::MAX),
                (Op::Ult, false, Some(k), None) => fact(n.b, k.saturating_add(1), u128::MAX),
                (Op::Ult, true, Some(k), None) => fact(n.b, 0, k),
                (Op::Eq, false, None, Some(k)) => fact(n.a, k, k),
                _ => {}
            }
        }
        if facts.is_empty() && sets.is_empty() { return false; }
        let mut memo = HashMap::new();
        let mut left = 400;
        self.of(c, &facts, &sets, &mut memo, &mut left) == (0, 0)
    }
    fn of(&mut self, e: E, f: &Facts, s: &Sets, memo: &mut Facts, left: &mut u32) -> (u128, u128) {
        let (mut l, mut h) = urange(e);
        if l == h { return (l, h); }
        if let Some(r) = memo.get(&e) { return *r; }
        if *left == 0 { return (l, h); }
        *left -= 1;
        if let Some((a, b)) = f.get(&e) { l = l.max(*a); h = h.min(*b); }
        if let Some((v, t)) = self.tab(e) {
            if let Some(s) = s.get(&v) {
                let (mut a, mut b) = (u128::MAX, 0);
                for (ok, x) in s.iter().zip(t.iter()) { if *ok { a = a.min(*x); b = b.max(*x); } }
                if a <= b { l = l.max(a); h = h.min(b); }
            }
        } else {
            let n = node(e);
            let m = mask(n.w);
            let r = match n.op {
                Op::Concat => { let (a, b) = (self.of(n.a, f, s, memo, left), self.of(n.b, f, s, memo, left)); let w = width(n.b); ((a.0 << w) | b.0, (a.1 << w) | b.1) }
                Op::Ite => {
                    let c = self.of(n.a, f, s, memo, left);
                    let (a, b) = (self.of(n.b, f, s, memo, left), self.of(n.c, f, s, memo, left));
                    if c == (1, 1) { a } else if c == (0, 0) { b } else { (a.0.min(b.0), a.1.max(b.1)) }
                }
                Op::And => { let (a, b) = (self.of(n.a, f, s, memo, left), self.of(n.b, f, s, memo, left)); (if n.w == 1 { a.0 & b.0 } else { 0 }, a.1.min(b.1)) }
                Op::Or if n.w == 1 => { let (a, b) = (self.of(n.a, f, s, memo, left), self.of(n.b, f, s, memo, left)); (a.0 | b.0, a.1 | b.1) }
                Op::Xor if cv(n.b) == Some(1) && n.w == 1 => { let a = self.of(n.a, f, s, memo, left); (1 - a.1, 1 - a.0) }
                Op::Add | Op::Mul | Op::Sub if n.w <= 64 => {
                    // the sum as an integer: if it stays between two multiples of 2^w, so does the term
                    let (a, b) = self.sum(e, f, s, memo, left);
                    let k = 1i128 << n.w;
                    if a.div_euclid(k) == b.div_euclid(k) { (a.rem_euclid(k) as u128, b.rem_euclid(k) as u128) } else { (0, m) }
                }
                Op::LShr => { let a = self.of(n.a, f, s, memo, left); match cv(n.b) { Some(k) if k < n.w as u128 => (a.0 >> k, a.1 >> k), _ => (0, a.1) } }
                Op::Extract => { let a = self.of(n.a, f, s, memo, left); if a.1 >> n.b <= m { (a.0 >> n.b, a.1 >> n.b) } else { (0, m) } }
                Op::Ult => match self.less(n.a, n.b, f, s, memo, left) { Some(x) => (x as u128, x as u128), None => { let (a, b) = (self.of(n.a, f, s, memo, left), self.of(n.b, f, s, memo, left)); ((a.1 < b.0) as u128, (a.0 < b.1) as u128) } }
                Op::Eq => { let (a, b) = (self.of(n.a, f, s, memo, left), self.of(n.b, f, s, memo, left)); (0, (a.0 <= b.1 && b.0 <= a.1) as u128) }
                _ => (0, m),
            };
            if r.0.max(l) <= r.1.min(h) { l = l.max(r.0); h = h.min(r.1); }
        }
        memo.insert(e, (l, h));
        (l, h)
    }
    /// an integer interval that has a member congruent to the term, for each of its values
    fn sum(&mut self, e: E, f: &Facts, s: &Sets, memo: &mut Facts, left: &mut u32) -> (i128, i128) {
        let (m, k) = lin(e);
        self.span(&m, k, f, s, memo, left).unwrap_or_else(|| { let u = urange(e); (u.0 as i128, u.1 as i128) })
    }
    fn span(&mut self, m: &Lin, k: i128, f: &Facts, s: &Sets, memo: &mut Facts, left: &mut u32) -> Option<(i128, i128)> {
        let (mut l, mut h) = (k, k);
        for (x, c) in m {
            let r = if node(*x).op == Op::Mul { urange(*x) } else { self.of(*x, f, s, memo, left) };
            let (a, b) = (c.checked_mul(r.0 as i128)?, c.checked_mul(r.1 as i128)?);
            l = l.checked_add(a.min(b))?;
            h = h.checked_add(a.max(b))?;
        }
        Some((l, h))
    }
    /// a < b for two sums
    fn less(&mut self, a: E, b: E, f: &Facts, s: &Sets, memo: &mut Facts, left: &mut u32) -> Option<bool> {
        let w = width(a);
        if w > 64 { return None; }
        let k = 1i128 << w;
        let ((x, xk), (y, yk)) = (lin(a), lin(b));
        let (p, q) = (self.span(&x, xk, f, s, memo, left)?, self.span(&y, yk, f, s, memo, left)?);
        let (i, j) = (p.0.div_euclid(k), q.0.div_euclid(k));
        if p.1.div_euclid(k) != i || q.1.div_euclid(k) != j { return None; }
        let mut d = x;
        for (t, c) in y { *d.entry(t).or_insert(0) -= c; }
        d.retain(|_, c| *c != 0);
        let d = self.span(&d, xk - yk, f, s, memo, left)?;
        if d.1 < (i - j) * k { Some(true) } else if d.0 >= (i - j) * k { Some(false) } else { None }
    }
}
type Lin = std::collections::BTreeMap<E, i128>;
/// a term as a sum of multiples of other terms, modulo 2^w
fn lin(e: E) -> (Lin, i128) {
    let (mut m, mut k) = (Lin::new(), 0i128);
    let mut todo = vec![(e, 1i128)];
    let mut n = 0;
    while let Some((e, c)) = todo.pop() {
        n += 1;
        let x = node(e);
        let small = c.abs() < 1 << 40 && n < 300;
        match x.op {
            Op::Const => k = k.wrapping_add(c.wrapping_mul(sx(cv(e).unwrap(), x.w))),
            Op::Add if small => { todo.push((x.a, c)); todo.push((x.b, c)); }
            Op::Sub if small => { todo.push((x.a, c)); todo.push((x.b, -c)); }
            Op::Mul if small && cv(x.b).map_or(false, |q| q < 1 << 20) => todo.push((x.a, c * cv(x.b).unwrap() as i128)),
            _ => *m.entry(e).or_insert(0) += c,
        }
    }
    (m, k)
}
