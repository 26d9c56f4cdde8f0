//! External functions: LLVM intrinsics, the handful of libc functions left
//! after LTO, and the sx_* intrinsics the harnesses use.
use crate::exec::*;
use crate::expr::*;
use crate::ir::*;
use std::collections::HashMap;
use std::rc::Rc;

type Res<T> = Result<T, Stop>;
fn err<T>(s: impl Into<String>) -> Res<T> { Err(Stop::Err(s.into())) }
fn c(v: &Val) -> Res<u128> { match v { Val::C(k) => Ok(*k), _ => err("symbolic argument where a constant is needed") } }

impl<'a> Exec<'a> {
    fn cstr(&mut self, st: &mut State, p: &Val, n: &Val) -> Res<String> {
        let n = self.conc_(st, n, 64)? as u64;
        let p = Val::C(self.conc_(st, p, 64)?);
        let b = self.bytes_pub(st, &p, n)?;
        Ok(b.iter().map(|e| cv(*e).unwrap_or(63) as u8 as char).collect())
    }
    pub fn bytes_pub(&mut self, st: &mut State, p: &Val, n: u64) -> Res<Vec<E>> { self.bytes_(st, p, n) }

    pub fn ext(&mut self, st: &mut State, name: &str, v: &[Val], args: &[(Opd, Ty)], rty: &Ty) -> Res<Option<Val>> {
        let w = match rty { Ty::Int(w) => *w, Ty::Ptr => 64, _ => 0 };
        let aw = match args.first().map(|a| &a.1) { Some(Ty::Int(w)) => *w, _ => 64 };
        if let Some(n) = name.strip_prefix("llvm.") { return self.intrinsic(st, n, v, args, rty, w, aw); }
        if name.starts_with("sx_") { return self.sx(st, name, v); }
        self.ext_used.insert(name.to_string());
        match name {
            "malloc" => {
                let n = self.conc_(st, &v[0], 64)? as u64;
                Ok(Some(Val::C(st.mem.alloc(n, 16, true).unwrap_or(0) as u128)))
            }
            "calloc" => {
                let a = self.conc_(st, &v[0], 64)?; let b = self.conc_(st, &v[1], 64)?;
                Ok(Some(Val::C(st.mem.alloc((a * b) as u64, 16, true).unwrap_or(0) as u128)))
            }
            "posix_memalign" => {
                let p = self.conc_(st, &v[0], 64)? as u64; let al = self.conc_(st, &v[1], 64)? as u64; let n = self.conc_(st, &v[2], 64)? as u64;
                let a = match st.mem.alloc(n, al, true) { Some(a) => a, None => return Ok(Some(Val::C(12))) };
                st.mem.write(p, 8, &Val::C(a as u128));
                Ok(Some(Val::C(0)))
            }
            "free" => { let a = self.conc_(st, &v[0], 64)? as u64; if a != 0 { self.on_free(st, a)?; } Ok(None) }
            "realloc" => {
                let a = self.conc_(st, &v[0], 64)? as u64; let n = self.conc_(st, &v[1], 64)? as u64;
                let nb = match st.mem.alloc(n, 16, true) { Some(a) => a, None => return Ok(Some(Val::C(0))) };
                if a != 0 {
                    let old = match st.mem.find(a) { Some(o) if o.base == a => o.clone(), _ => return Err(Stop::Viol("memory".into(), "realloc of a bad pointer".into())) };
                    let k = (old.conc.len() as u64).min(n);
                    let (o, _) = st.mem.at_mut(nb, n).unwrap();
                    for i in 0..k as usize { if old.is_sym(i) { o.set(i, old.sym[i]) } else { o.conc[i] = old.conc[i] } }
                    self.on_free(st, a)?;
                }
                Ok(Some(Val::C(nb as u128)))
            }
            "bcmp" | "memcmp" => {
                let n = self.conc_(st, &v[2], 64)? as u64;
                let a = self.bytes_(st, &v[0], n)?; let b = self.bytes_(st, &v[1], n)?;
                if name == "bcmp" {
                    let mut all = tru();
                    for i in 0..a.len() { let q = eq(a[i], b[i]); if cv(q) == Some(0) { all = q; break; } all = bitop(Op::And, all, q); }
                    return Ok(Some(ve(ite(all, konst(0, 32), konst(1, 32)))));
                }
                let mut r = konst(0, 32);
                for i in (0..a.len()).rev() {
                    let q = eq(a[i], b[i]);
                    if cv(q) == Some(1) { continue; }
                    let lt = ult(a[i], b[i]);
                    let d = ite(lt, konst(u128::MAX, 32), konst(1, 32));
                    r = ite(q, r, d);
                }
                Ok(Some(ve(r)))
            }
            "strlen" => {
                let a = self.conc_(st, &v[0], 64)? as u64; let mut n = 0;
                loop { match st.mem.read(a + n, 1) { Some(Val::C(0)) => break, Some(Val::C(_)) => n += 1, _ => return err("strlen") } }
                Ok(Some(Val::C(n as u128)))
            }
            "getenv" => Ok(Some(Val::C(0))),
            "__errno_location" => Ok(Some(Val::C(self.errno as u128))),
            "getrandom" => { let a0 = self.conc_(st, &v[0], 64)?; let a1 = self.conc_(st, &v[1], 64)?;  { let n = a1; for i in 0..n as u64 { st.mem.write(a0 as u64 + i, 1, &Val::C((i * 37 % 251) as u128)); } Ok(Some(Val::C(n))) } }
            "syscall" => { let a0 = self.conc_(st, &v[0], 64)?; let a1 = self.conc_(st, &v[1], 64)?; let a2 = self.conc_(st, &v[2], 64)?;  match a0 { 318 => { let n = a2; for i in 0..n as u64 { st.mem.write(a1 as u64 + i, 1, &Val::C((i * 37 % 251) as u128)); } Ok(Some(Val::C(n))) } 202 => Ok(Some(Val::C(0))), k => err(format!("syscall {k}")) } }
            "abort" | "exit" | "_exit" => Err(Stop::Viol("panic".into(), format!("process {name}"))),
            "pthread_self" | "gettid" => Ok(Some(Val::C(1))),
            "pthread_key_create" => { let a0 = self.conc_(st, &v[0], 64)?;  { st.mem.write(a0 as u64, 4, &Val::C(1)); Ok(Some(Val::C(0))) } }
            "pthread_setspecific" | "pthread_key_delete" => Ok(Some(Val::C(0))),
            "__cxa_thread_atexit_impl" => Ok(Some(Val::C(0))),
            "sysconf" => Ok(Some(Val::C(4096))),
            _ => err(format!("unsupported external function {name}")),
        }
    }
    fn on_free(&mut self, st: &mut State, a: u64) -> Res<()> {
        let o = match st.mem.find(a) { Some(o) if o.base == a && o.heap => o.clone(), _ => return Err(Stop::Viol("memory".into(), format!("free of a bad pointer {a:#x}"))) };
        for wt in st.watch.iter_mut() {
            if wt.1.is_none() && wt.0 >= a && wt.0 < a + o.conc.len().max(1) as u64 {
                wt.1 = Some(Rc::new((0..o.conc.len()).map(|i| o.byte(i)).collect()));
            }
        }
        st.mem.free(a);
        Ok(())
    }
    fn elems_(v: &Val, n: u32) -> Vec<Val> { match v { Val::A(x) => (**x).clone(), Val::C(0) => vec![Val::C(0); n as usize], v => vec![v.clone()] } }

    fn intrinsic(&mut self, st: &mut State, n: &str, v: &[Val], args: &[(Opd, Ty)], rty: &Ty, w: u16, aw: u16) -> Res<Option<Val>> {
        let base = n;
        if let Ty::Vec(k, et) = rty {
            // elementwise over vectors
            let ew = match self.m.resolve(et) { Ty::Int(w) => w, Ty::Ptr => 64, _ => return err(format!("vector intrinsic {n}")) };
            let k = *k as u32;
            let cols: Vec<Vec<Val>> = v.iter().zip(args).map(|(x, (_, t))| if matches!(t, Ty::Vec(..)) { Self::elems_(x, k) } else { vec![x.clone(); k as usize] }).collect();
            let at: Vec<(Opd, Ty)> = args.iter().map(|(o, t)| (o.clone(), match t { Ty::Vec(_, e) => self.m.resolve(e), t => t.clone() })).collect();
            let mut out = vec![];
            for i in 0..k as usize {
                let vi: Vec<Val> = cols.iter().map(|c| c[i].clone()).collect();
                out.push(self.intrinsic(st, n, &vi, &at, &Ty::Int(ew), ew, match &at[0].1 { Ty::Int(w) => *w, _ => 64 })?.unwrap());
            }
            return Ok(Some(Val::A(Rc::new(out))));
        }
        let e = |i: usize| te(&v[i], aw);
        if base.starts_with("memcpy.") || base.starts_with("memmove.") {
            let len = self.conc_(st, &v[2], 64)? as u64;
            if len == 0 { return Ok(None); }
            let d = self.conc_(st, &v[0], 64)? as u64;
            self.wrote(d, len);
            // fast path: all concrete
            if let Val::C(s) = &v[1] {
                let s = *s as u64;
                let src = match st.mem.at(s, len) { Some((o, off)) => (o.clone(), off), None => return Err(Stop::Viol("memory".into(), format!("copy of {len} bytes from invalid address {s:#x}"))) };
                match st.mem.at_mut(d, len) {
                    Some((o, off)) => {
                        let (so, soff) = (&src.0, src.1);
                        let symb = !so.sym.is_empty() && so.sym[soff..soff + len as usize].iter().any(|x| *x != 0);
                        for i in 0..len as usize { if symb && so.sym[soff + i] != 0 { o.set(off + i, so.sym[soff + i]) } else { o.setc(off + i, so.conc[soff + i]) } }
                    }
                    None => return Err(Stop::Viol("memory".into(), format!("copy of {len} bytes to invalid address {d:#x}"))),
                }
                return Ok(None);
            }
            let b = self.bytes_(st, &v[1], len)?;
            self.put_(st, d, &b)?;
            return Ok(None);
        }
        if base.starts_with("memset.") {
            let len = self.conc_(st, &v[2], 64)? as u64;
            if len == 0 { return Ok(None); }
            let d = self.conc_(st, &v[0], 64)? as u64;
            self.wrote(d, len);
            match st.mem.at_mut(d, len) {
                Some((o, off)) => { match &v[1] { Val::C(k) => for i in 0..len as usize { o.setc(off + i, *k as u8) }, x => { let x = te(x, 8); for i in 0..len as usize { o.set(off + i, x) } } } }
                None => return Err(Stop::Viol("memory".into(), format!("memset of {len} bytes at invalid address {d:#x}"))),
            }
            return Ok(None);
        }
        let head = base.split('.').next().unwrap();
        let r = match head {
            "umax" => { let (a, b) = (e(0), e(1)); ve(ite(ult(a, b), b, a)) }
            "umin" => { let (a, b) = (e(0), e(1)); ve(ite(ult(a, b), a, b)) }
            "smax" => { let (a, b) = (e(0), e(1)); ve(ite(slt(a, b), b, a)) }
            "smin" => { let (a, b) = (e(0), e(1)); ve(ite(slt(a, b), a, b)) }
            "abs" => { let a = e(0); ve(ite(slt(a, konst(0, aw)), sub(konst(0, aw), a), a)) }
            "bswap" => { let a = e(0); let mut acc = extract(a, 0, 8); for i in 1..aw / 8 { acc = concat(acc, extract(a, 8 * i, 8)); } ve(acc) }
            "bitreverse" => { let a = e(0); let mut acc = extract(a, 0, 1); for i in 1..aw { acc = concat(acc, extract(a, i, 1)); } ve(acc) }
            "ctpop" => { if let Val::C(k) = &v[0] { Val::C((k & mask(aw)).count_ones() as u128) } else { let a = e(0); let mut acc = konst(0, aw); for i in 0..aw { let b = extract(a, i, 1); acc = add(acc, if aw > 1 { zext(b, aw) } else { b }); } ve(acc) } }
            "ctlz" => { if let Val::C(k) = &v[0] { Val::C(((k & mask(aw)).leading_zeros() - (128 - aw as u32)) as u128) } else { let a = e(0); let mut acc = konst(aw as u128, aw); for i in 0..aw { acc = ite(extract(a, i, 1), konst((aw - 1 - i) as u128, aw), acc); } ve(acc) } }
            "cttz" => { if let Val::C(k) = &v[0] { Val::C(if *k & mask(aw) == 0 { aw as u128 } else { k.trailing_zeros() as u128 }) } else { let a = e(0); let mut acc = konst(aw as u128, aw); for i in (0..aw).rev() { acc = ite(extract(a, i, 1), konst(i as u128, aw), acc); } ve(acc) } }
            "fshl" | "fshr" => {
                let (a, b, s) = (e(0), e(1), e(2));
                match cv(s) {
                    Some(k) => { let k = (k % aw as u128) as u16; let k = if head == "fshl" { k } else { aw - k }; if k == 0 { ve(a) } else if k == aw { ve(b) } else { ve(concat(extract(a, 0, aw - k), extract(b, aw - k, k))) } }
                    None => {
                        let wv = konst(aw as u128, aw); let k = urem(s, wv); let kk = sub(wv, k);
                        let z = eq(k, konst(0, aw));
                        if head == "fshl" { ve(ite(z, a, bitop(Op::Or, shl(a, k), lshr(b, kk)))) } else { ve(ite(z, b, bitop(Op::Or, shl(a, kk), lshr(b, k)))) }
                    }
                }
            }
            "uadd" | "usub" | "umul" | "sadd" | "ssub" | "smul" => {
                let (a, b) = (e(0), e(1));
                let signed = head.starts_with('s');
                let kind = &head[1..];
                let r = match kind { "add" => add(a, b), "sub" => sub(a, b), _ => mul(a, b) };
                let o = if !signed {
                    match kind {
                        "add" => { if let Some(k) = cv(b) { ult(konst(mask(aw) - k, aw), a) } else if let Some(k) = cv(a) { ult(konst(mask(aw) - k, aw), b) } else { ult(r, a) } }
                        "sub" => ult(a, b),
                        _ if cv(b).map_or(false, |k| k > 0) => ult(konst(mask(aw) / cv(b).unwrap(), aw), a),
                        _ if cv(a).map_or(false, |k| k > 0) => ult(konst(mask(aw) / cv(a).unwrap(), aw), b),
                        _ => { if 2 * aw > 128 { return err("umul 128"); } let p = mul(zext(a, 2 * aw), zext(b, 2 * aw)); ne(extract(p, aw, aw), konst(0, aw)) }
                    }
                } else {
                    let ww = match kind { "mul" => 2 * aw, _ => aw + 1 };
                    if ww > 128 { return err("wide signed overflow"); }
                    let (x, y) = (sext(a, ww), sext(b, ww));
                    let p = match kind { "add" => add(x, y), "sub" => sub(x, y), _ => mul(x, y) };
                    ne(p, sext(extract(p, 0, aw), ww))
                };
                if base.contains("with.overflow") { Val::A(Rc::new(vec![ve(r), ve(o)])) }
                else if base.contains("sat") && !signed { ve(ite(o, if kind == "sub" { konst(0, aw) } else { konst(mask(aw), aw) }, r)) }
                else { return err(format!("intrinsic {n}")); }
            }
            "ucmp" | "scmp" => { let (a, b) = (e(0), e(1)); let lt = if head == "ucmp" { ult(a, b) } else { slt(a, b) }; ve(ite(lt, konst(mask(w), w), ite(eq(a, b), konst(0, w), konst(1, w)))) }
            "vector" => {
                // vector.reduce.op
                let (k, ew) = match &args.last().unwrap().1 { Ty::Vec(k, t) => (*k as u32, match self.m.resolve(t) { Ty::Int(w) => w, _ => return err(n) }), _ => return err(n) };
                let xs: Vec<E> = Self::elems_(v.last().unwrap(), k).iter().map(|x| te(x, ew)).collect();
                let op = base.split('.').nth(2).unwrap();
                let mut acc = xs[0];
                for x in &xs[1..] { acc = match op { "add" => add(acc, *x), "and" => bitop(Op::And, acc, *x), "or" => bitop(Op::Or, acc, *x), "xor" => bitop(Op::Xor, acc, *x), "mul" => mul(acc, *x),
                    "umax" => ite(ult(acc, *x), *x, acc), "umin" => ite(ult(acc, *x), acc, *x), "smax" => ite(slt(acc, *x), *x, acc), "smin" => ite(slt(acc, *x), acc, *x), _ => return err(n) }; }
                ve(acc)
            }
            "expect" => v[0].clone(),
            "is" if base.starts_with("is.constant") => Val::C(0),
            "threadlocal" | "launder" | "strip" => v[0].clone(),
            "load" => { // load.relative
                let p = self.conc_(st, &v[0], 64)? as u64; let o = self.conc_(st, &v[1], 64)?;
                let r = match st.mem.read(p.wrapping_add(o as u64), 4) { Some(Val::C(k)) => sx(k, 32) as i64, _ => return err("load.relative") };
                Val::C(p.wrapping_add(r as u64) as u128)
            }
            "trap" | "ubsantrap" => return Err(Stop::Viol("panic".into(), "trap".into())),
            "experimental" if base.starts_with("experimental.cttz.elts") => {
                // index of the first element that is not zero
                let (k, ew) = match &args[0].1 { Ty::Vec(k, t) => (*k as u32, match self.m.resolve(t) { Ty::Int(w) => w, _ => return err(n) }), _ => return err(n) };
                let xs: Vec<E> = Self::elems_(&v[0], k).iter().map(|x| te(x, ew)).collect();
                let mut acc = konst(k as u128, w);
                for i in (0..k).rev() { acc = ite(eq(xs[i as usize], konst(0, ew)), acc, konst(i as u128, w)); }
                ve(acc)
            }
            "invariant" if base.starts_with("invariant.start") => Val::C(0),
            "assume" | "lifetime" | "invariant" | "experimental" | "sideeffect" | "dbg" if matches!(rty, Ty::Void) => return Ok(None),
            "ptrmask" => ve(bitop(Op::And, te(&v[0], 64), te(&v[1], 64))),
            _ => return err(format!("unsupported intrinsic llvm.{n}")),
        };
        Ok(Some(r))
    }

    // ---------- harness intrinsics ----------
    fn fresh(&mut self, st: &State, what: &str, w: u16) -> E { let _ = st; var(what, w) }

    pub fn uf(&mut self, st: &mut State, name: &str, inp: Vec<E>, outlen: usize) -> Res<Rc<Vec<E>>> {
        // identical input: identical output
        for u in st.ufs.iter() { if &*u.name == name && u.out.len() == outlen && *u.inp == inp { return Ok(u.out.clone()); } }
        *self.uf_apps.entry(name.to_string()).or_insert(0) += 1;
        let key = format!("{name}#{}", st.ufs.len());
        let mut outs = Vec::with_capacity(outlen);
        // the variables of an application are reused across sibling paths that applied the same function to the same input
        let h = (name.to_string(), inp.clone(), outlen, st.ufs.iter().filter(|u| &*u.name == name).count());
        if let Some(o) = self.uf_vars().get(&h) { outs = o.clone(); }
        else {
            for i in 0..outlen { outs.push(var(&format!("{key}.{i}"), 8)); }
            self.uf_vars().insert(h, outs.clone());
        }
        let outs = Rc::new(outs);
        let mut mv: HashMap<u32, u128> = st.model.vals.clone();
        // default concrete values of a fresh result: a mix of the input's model value
        let ib: Vec<u8> = inp.iter().map(|e| st.model.eval(*e) as u8).collect();
        let dv = crate::mix(name, &ib, outlen);
        for (i, o) in outs.iter().enumerate() { mv.insert(node(*o).a, dv[i] as u128); }
        let mut cons = vec![];
        let apps: Vec<Rc<UfApp>> = st.ufs.iter().filter(|u| &*u.name == name && u.inp.len() == inp.len() && u.out.len() == outlen).cloned().collect();
        for u in apps {
            let mut same = tru();
            for i in 0..inp.len() { let q = eq(inp[i], u.inp[i]); if cv(q) == Some(0) { same = q; break; } same = bitop(Op::And, same, q); }
            match cv(same) {
                Some(0) => {}
                Some(_) => return Ok(u.out.clone()),
                None => {
                    let mut eqo = tru();
                    for i in 0..outlen { let q = eq(outs[i], u.out[i]); eqo = bitop(Op::And, eqo, q); }
                    cons.push(bitop(Op::Or, not1(same), eqo));
                    if st.model.eval(same) == 1 { for (i, o) in outs.iter().enumerate() { mv.insert(node(*o).a, st.model.eval(u.out[i])); } }
                }
            }
        }
        st.model = Model::new(mv);
        for k in cons { if st.model.eval(k) != 1 { return err("uf model"); } if cv(k).is_none() { st.pc.push(k); } }
        st.ufs.push(Rc::new(UfApp { name: name.into(), inp: Rc::new(inp), out: outs.clone() }));
        Ok(outs)
    }

    fn sx(&mut self, st: &mut State, name: &str, v: &[Val]) -> Res<Option<Val>> {
        match name {
            "sx_any" => {
                let p = self.conc_(st, &v[0], 64)? as u64; let n = self.conc_(st, &v[1], 64)? as usize;
                let k = st.tape.len();
                let mut bs = vec![];
                for i in 0..n { bs.push(self.named_var(st, &format!("in{k}.{i}"), 8)); }
                self.put_(st, p, &bs)?;
                st.tape.push(Ev::Any(Rc::new(bs)));
                Ok(None)
            }
            "sx_bits" => {
                let n = self.conc_(st, &v[0], 64)? as u16;
                let k = st.tape.len();
                let b = self.named_var(st, &format!("in{k}"), n);
                st.tape.push(Ev::Bits(b));
                Ok(Some(ve(zext(b, 64))))
            }
            "sx_choose" => {
                let n = self.conc_(st, &v[0], 64)? as u32;
                // the fork is over concrete choices: remaining ones are pushed with a marker
                let (sh, of) = self.shard;
                let first = st.nchoose == 0;
                let opts: Vec<u32> = (0..n).filter(|k| !first || of <= 1 || (*k % of) == sh).collect();
                if opts.is_empty() { return Err(Stop::Dead); }
                for k in opts.iter().skip(1).rev() {
                    let mut o = st.clone();
                    o.nchoose += 1; o.tape.push(Ev::Choose(*k));
                    self.finish_call(&mut o, Val::C(*k as u128));
                    self.forks += 1;
                    self.work.push(o);
                }
                st.nchoose += 1; st.tape.push(Ev::Choose(opts[0]));
                Ok(Some(Val::C(opts[0] as u128)))
            }
            "sx_assume" => {
                let e = te(&v[0], 1);
                match cv(e) { Some(0) => return Err(Stop::Dead), Some(_) => return Ok(None), None => {} }
                match self.sat_(st, e)? { None => Err(Stop::Dead), Some(m) => { self.assume_(st, e, m); Ok(None) } }
            }
            "sx_check" => {
                let e = te(&v[0], 1);
                let tag = self.cstr(st, &v[1], &v[2])?;
                self.checks.entry(tag.clone()).or_default()[3] += 1;
                match cv(e) {
                    Some(1) => { self.checks.get_mut(&tag).unwrap()[1] += 1; return Ok(None) }
                    Some(_) => { let m = st.model.clone(); self.report(st, &m, &tag, "the assertion is false"); return Err(Stop::Done) }
                    None => {}
                }
                let ne = not1(e);
                match self.sat_(st, ne)? {
                    None => {
                        self.checks.get_mut(&tag).unwrap()[0] += 1;
                        if self.cross { self.cross_check(st, ne)?; }
                        Ok(None)
                    }
                    Some(m) => {
                        self.report(st, &m, &tag, "counterexample found");
                        match self.sat_(st, e)? { None => Err(Stop::Done), Some(m) => { self.assume_(st, e, m); Ok(None) } }
                    }
                }
            }
            "sx_fail" => { let tag = self.cstr(st, &v[0], &v[1])?; self.checks.entry(tag.clone()).or_default()[3] += 1; let m = st.model.clone(); self.report(st, &m, &tag, "reached"); Err(Stop::Done) }
            "sx_stop" => Err(Stop::Done),
            "sx_cover" => { let tag = self.cstr(st, &v[0], &v[1])?; st.covers.push(tag.as_str().into()); Ok(None) }
            "sx_uf" => {
                let name = self.cstr(st, &v[0], &v[1])?;
                let n = self.conc_(st, &v[3], 64)? as u64;
                let inp = self.bytes_(st, &v[2], n)?;
                let (op, on) = (self.conc_(st, &v[4], 64)? as u64, self.conc_(st, &v[5], 64)? as usize);
                let out = self.uf(st, &name, inp, on)?;
                self.put_(st, op, &out)?;
                Ok(None)
            }
            "sx_lookup" => self.lookup(st, v).map(Some),
            "sx_conc" => { let k = self.conc_(st, &v[0], 64)?; Ok(Some(Val::C(k))) }
            "sx_watch" => { let a = self.conc_(st, &v[0], 64)? as u64; st.watch.push((a, None)); Ok(Some(Val::C(st.watch.len() as u128 - 1))) }
            "sx_watch_get" => {
                // (id, out, cap) -> length, or -1 if not freed
                let k = self.conc_(st, &v[0], 64)? as usize; let p = self.conc_(st, &v[1], 64)? as u64; let cap = self.conc_(st, &v[2], 64)? as usize;
                match st.watch.get(k).and_then(|w| w.1.clone()) {
                    None => Ok(Some(Val::C(u64::MAX as u128))),
                    Some(b) => { let n = b.len().min(cap); self.put_(st, p, &b[..n])?; Ok(Some(Val::C(b.len() as u128))) }
                }
            }
            "sx_native" => Ok(Some(Val::C(0))),
            "sx_debug" => { let n = self.conc_(st, &v[1], 64)? as u64; let b = self.bytes_(st, &v[0], n)?; let s: Vec<String> = b.iter().map(|e| show(*e, 3)).collect(); eprintln!("sx_debug {}", s.join(" ")); Ok(None) }
            _ => err(format!("unknown {name}")),
        }
    }
    /// sx_lookup(keys: *const (*const u8, usize), n, q, qlen) -> index of the key equal to q, or n
    fn lookup(&mut self, st: &mut State, v: &[Val]) -> Res<Val> {
        let kp = self.conc_(st, &v[0], 64)? as u64; let n = self.conc_(st, &v[1], 64)? as u64;
        let qlen = self.conc_(st, &v[3], 64)? as u64;
        let q = self.bytes_(st, &v[2], qlen)?;
        let key = (kp, n);
        // the keys, by content
        let mut keys: Vec<Vec<u8>> = Vec::with_capacity(n as usize);
        for i in 0..n {
            let p = match st.mem.read(kp + 16 * i, 8) { Some(Val::C(p)) => p as u64, _ => return err("lookup keys") };
            let l = match st.mem.read(kp + 16 * i + 8, 8) { Some(Val::C(p)) => p as u64, _ => return err("lookup keys") };
            if l == 0 { keys.push(vec![]); continue; }
            match st.mem.at(p, l) { Some((o, off)) => keys.push(o.conc[off..off + l as usize].to_vec()), None => return err("lookup key") }
        }
        let _ = key;
        let mut map: HashMap<&[u8], u128> = HashMap::new();
        for (i, k) in keys.iter().enumerate() { map.entry(k).or_insert(i as u128); }
        if q.iter().all(|e| cv(*e).is_some()) {
            let b: Vec<u8> = q.iter().map(|e| cv(*e).unwrap() as u8).collect();
            return Ok(Val::C(map.get(&b[..]).copied().unwrap_or(n as u128)));
        }
        // a function of one small expression?
        let sy: Vec<E> = q.iter().copied().filter(|e| cv(*e).is_none()).collect();
        let cuts: Vec<E> = sy.iter().filter_map(|e| cut(*e)).collect();
        let mut cand: Vec<E> = vec![]; for x in cuts { if !cand.contains(&x) { cand.push(x); } }
        cand.sort_by_key(|x| std::cmp::Reverse(width(*x)));
        if cand.len() <= 4 {
            if let Some(&x) = cand.iter().find(|x| width(**x) <= 13) {
                let tabs: Vec<Option<Vec<u128>>> = q.iter().map(|e| as_fn_of(*e, x)).collect();
                if tabs.iter().all(|t| t.is_some()) {
                    let sz = 1usize << width(x);
                    let mut vals = Vec::with_capacity(sz);
                    for i in 0..sz {
                        let b: Vec<u8> = tabs.iter().map(|t| t.as_ref().unwrap()[i] as u8).collect();
                        vals.push(map.get(&b[..]).copied().unwrap_or(n as u128));
                    }
                    return Ok(ve(mk_table(x, vals, 64)));
                }
            }
        }
        // general: is it one of the keys of this length at all?  If so, name its rank k among them: every
        // byte of q is then a function of k, and so is the result
        let mut cand: Vec<(&[u8], u128)> = vec![];
        let mut any = fls();
        for (k, i) in &map {
            if k.len() != q.len() { continue; }
            let mut same = tru();
            for j in 0..k.len() { let t = eq(q[j], konst(k[j] as u128, 8)); if cv(t) == Some(0) { same = t; break; } same = bitop(Op::And, same, t); }
            if cv(same) == Some(0) { continue; }
            cand.push((*k, *i));
        }
        cand.sort();
        if cand.is_empty() { return Ok(Val::C(n as u128)); }
        for (k, _) in &cand {
            let mut same = tru();
            for j in 0..k.len() { same = bitop(Op::And, same, eq(q[j], konst(k[j] as u128, 8))); }
            any = bitop(Op::Or, any, same);
        }
        if !self.decide_(st, any)? { return Ok(Val::C(n as u128)); }
        let mut kw = 1u16;
        while (1usize << kw) < cand.len() { kw += 1; }
        let sz = 1usize << kw;
        let mut h = std::collections::hash_map::DefaultHasher::new();
        use std::hash::{Hash, Hasher};
        for (k, _) in &cand { k.hash(&mut h); }
        let name = format!("lookup:{:?}:{:x}", q, h.finish());
        let k = self.named_var(st, &name, kw);
        let at = |x: usize| &cand[if x < cand.len() { x } else { x - cand.len() }];
        // the value of k in the current model
        let b: Vec<u8> = q.iter().map(|e| st.model.eval(*e) as u8).collect();
        let r = match cand.iter().position(|x| x.0 == b) { Some(r) => r, None => return err("lookup model") };
        let mut mv = st.model.vals.clone();
        mv.insert(node(k).a, r as u128);
        let m = Model::new(mv);
        for j in 0..q.len() {
            if cv(q[j]).is_some() { continue; }
            let t = mk_table(k, (0..sz).map(|x| at(x).0[j] as u128).collect(), 8);
            let c = eq(q[j], t);
            self.assume_(st, c, m.clone());
        }
        Ok(ve(mk_table(k, (0..sz).map(|x| at(x).1).collect(), 64)))
    }
}
