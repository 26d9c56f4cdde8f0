//! Native implementation of the intrinsics.
use std::cell::{Cell, RefCell};
use std::collections::{HashMap, VecDeque};
use std::io::Write;

enum Ev { Any(Vec<u8>), Bits(u64), Choose(u32) }
#[derive(Default)]
pub struct St {
    tape: VecDeque<Ev>,
    ufs: HashMap<(String, Vec<u8>), Vec<u8>>,
    pub seed: Option<u64>,
    n: u64,
    failed: Vec<String>,
    rec: Vec<String>,
}
thread_local! { static ST: RefCell<St> = RefCell::new(St::default()); }

/// deterministic pseudo-random bytes; the same function is in the symbolic executor
pub fn mix(name: &str, inp: &[u8], n: usize) -> Vec<u8> {
    let mut h: u64 = 0xcbf29ce484222325;
    let mut f = |b: u8| { h ^= b as u64; h = h.wrapping_mul(0x100000001b3); };
    for b in name.bytes() { f(b) }
    f(0xff);
    for b in inp { f(*b) }
    let mut out = Vec::with_capacity(n);
    let mut x = h;
    while out.len() < n {
        x = x.wrapping_add(0x9e3779b97f4a7c15);
        let mut z = x;
        z = (z ^ (z >> 30)).wrapping_mul(0xbf58476d1ce4e5b9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94d049bb133111eb);
        z ^= z >> 31;
        out.extend_from_slice(&z.to_le_bytes());
    }
    out.truncate(n);
    out
}
fn unhex(s: &str) -> Vec<u8> {
    if s == "-" { return vec![]; }
    (0..s.len() / 2).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).expect("hex")).collect()
}
fn hex(b: &[u8]) -> String { if b.is_empty() { "-".into() } else { b.iter().map(|x| format!("{x:02x}")).collect() } }

pub fn load(tape: &str) {
    ST.with(|s| {
        let mut s = s.borrow_mut();
        for l in tape.lines() {
            let f: Vec<&str> = l.split_whitespace().collect();
            match f.first().copied() {
                Some("any") => s.tape.push_back(Ev::Any(unhex(f[1]))),
                Some("bits") => s.tape.push_back(Ev::Bits(f[1].parse().unwrap())),
                Some("choose") => s.tape.push_back(Ev::Choose(f[1].parse().unwrap())),
                Some("uf") => { s.ufs.insert((f[1].into(), unhex(f[2])), unhex(f[3])); }
                _ => {}
            }
        }
    });
}
pub fn seed(k: u64) { ST.with(|s| s.borrow_mut().seed = Some(k)); }
/// end of a run: exit code 0 ok, 1 an assertion failed, 2 outside the assumptions, 3 panic, 4 tape mismatch
pub fn finish() -> ! {
    let (f, rec) = ST.with(|s| { let s = s.borrow(); (s.failed.clone(), s.rec.clone()) });
    if std::env::var_os("SX_RECORD").is_some() { for l in rec { println!("TAPE {l}"); } }
    let _ = std::io::stdout().flush();
    if f.is_empty() { println!("OK"); std::process::exit(0) }
    std::process::exit(1)
}
fn bad(m: String) -> ! { println!("MISMATCH {m}"); std::process::exit(4) }

pub mod raw {
    use super::*;
    fn next() -> Option<Ev> { ST.with(|s| { let mut s = s.borrow_mut(); if s.seed.is_some() { None } else { s.tape.pop_front() } }) }
    fn fresh(n: usize) -> Vec<u8> {
        ST.with(|s| { let mut s = s.borrow_mut(); s.n += 1; let k = s.n; mix("fresh", &[s.seed.unwrap_or(0).to_le_bytes(), k.to_le_bytes()].concat(), n) })
    }
    fn rec(l: String) { ST.with(|s| s.borrow_mut().rec.push(l)); }
    pub unsafe fn sx_any(p: *mut u8, n: usize) {
        let b = match next() {
            Some(Ev::Any(b)) if b.len() == n => b,
            Some(_) => bad("any".into()),
            None => {
                let mut b = fresh(n + 1);
                // now and then an extreme value
                let k = b.pop().unwrap();
                if k % 16 == 0 { b.iter_mut().for_each(|x| *x = 0) } else if k % 16 == 1 { b.iter_mut().for_each(|x| *x = 255) }
                b
            }
        };
        rec(format!("any {}", hex(&b)));
        std::slice::from_raw_parts_mut(p, n).copy_from_slice(&b);
    }
    pub unsafe fn sx_bits(n: u64) -> u64 {
        let m = if n >= 64 { u64::MAX } else { (1 << n) - 1 };
        let v = match next() {
            Some(Ev::Bits(b)) => b,
            Some(_) => bad("bits".into()),
            None => {
                let b = fresh(9);
                let v = u64::from_le_bytes(b[..8].try_into().unwrap());
                if b[8] % 16 == 0 { 0 } else if b[8] % 16 == 1 { u64::MAX } else if b[8] % 16 == 2 { v & 0xff } else { v }
            }
        } & m;
        rec(format!("bits {v}"));
        v
    }
    pub unsafe fn sx_choose(n: u32) -> u32 {
        let v = match next() { Some(Ev::Choose(b)) => b, Some(_) => bad("choose".into()), None => (u64::from_le_bytes(fresh(8).try_into().unwrap()) % n as u64) as u32 };
        rec(format!("choose {v}"));
        v
    }
    pub unsafe fn sx_assume(b: bool) { if !b { println!("ASSUME"); std::process::exit(2); } }
    unsafe fn st(p: *const u8, n: usize) -> String { String::from_utf8_lossy(std::slice::from_raw_parts(p, n)).into() }
    pub unsafe fn sx_check(b: bool, p: *const u8, n: usize) {
        if !b { let t = st(p, n); println!("FAIL {t}"); ST.with(|s| s.borrow_mut().failed.push(t)); finish() }
    }
    pub unsafe fn sx_fail(p: *const u8, n: usize) { let t = st(p, n); println!("FAIL {t}"); ST.with(|s| s.borrow_mut().failed.push(t)); finish() }
    pub unsafe fn sx_stop() { finish() }
    pub unsafe fn sx_cover(p: *const u8, n: usize) { println!("COVER {}", st(p, n)); }
    pub unsafe fn sx_uf(np: *const u8, nn: usize, ip: *const u8, il: usize, op: *mut u8, ol: usize) {
        let name = st(np, nn);
        let inp = std::slice::from_raw_parts(ip, il).to_vec();
        let o = ST.with(|s| s.borrow().ufs.get(&(name.clone(), inp.clone())).cloned()).filter(|o| o.len() == ol).unwrap_or_else(|| mix(&name, &inp, ol));
        std::slice::from_raw_parts_mut(op, ol).copy_from_slice(&o);
    }
    pub unsafe fn sx_lookup(keys: *const (*const u8, usize), n: usize, q: *const u8, qlen: usize) -> u64 {
        let q = std::slice::from_raw_parts(q, qlen);
        for i in 0..n { let (p, l) = *keys.add(i); if std::slice::from_raw_parts(p, l) == q { return i as u64; } }
        n as u64
    }
    pub unsafe fn sx_conc(x: u64) -> u64 { x }
    pub unsafe fn sx_watch(p: *const u8) -> u32 { super::watch_add(p as usize) }
    pub unsafe fn sx_watch_get(id: u32, out: *mut u8, cap: usize) -> u64 { super::watch_take(id, out, cap) }
    pub unsafe fn sx_native() -> u32 { 1 }
}

// ---- heap watcher: content of a block when it is freed ----
const NW: usize = 8;
const CAP: usize = 4096;
struct W { addr: usize, len: usize, done: bool, buf: [u8; CAP] }
thread_local! { static ACTIVE: Cell<bool> = const { Cell::new(false) }; }
static mut WS: [W; NW] = [const { W { addr: 0, len: 0, done: false, buf: [0; CAP] } }; NW];
static mut NWS: usize = 0;
fn watch_add(p: usize) -> u32 { unsafe { let k = NWS; WS[k].addr = p; NWS += 1; ACTIVE.with(|a| a.set(true)); k as u32 } }
unsafe fn watch_take(id: u32, out: *mut u8, cap: usize) -> u64 {
    let w = &*std::ptr::addr_of!(WS[id as usize]);
    if !w.done { return u64::MAX; }
    std::ptr::copy_nonoverlapping(w.buf.as_ptr(), out, cap.min(w.len).min(CAP));
    w.len as u64
}
unsafe fn note(p: usize, size: usize) {
    if ACTIVE.try_with(|a| a.get()).unwrap_or(false) {
        for i in 0..NWS {
            let w = &mut *std::ptr::addr_of_mut!(WS[i]);
            if !w.done && w.addr >= p && w.addr < p + size.max(1) {
                w.done = true;
                w.len = size;
                for j in 0..size.min(CAP) { w.buf[j] = std::ptr::read_volatile((p + j) as *const u8); }
            }
        }
    }
}
pub struct Watcher;
unsafe impl std::alloc::GlobalAlloc for Watcher {
    unsafe fn alloc(&self, l: std::alloc::Layout) -> *mut u8 { std::alloc::System.alloc(l) }
    unsafe fn dealloc(&self, p: *mut u8, l: std::alloc::Layout) { note(p as usize, l.size()); std::alloc::System.dealloc(p, l) }
    unsafe fn realloc(&self, p: *mut u8, l: std::alloc::Layout, n: usize) -> *mut u8 {
        // always moves, as in the symbolic executor
        let q = std::alloc::System.alloc(std::alloc::Layout::from_size_align_unchecked(n, l.align()));
        if !q.is_null() { std::ptr::copy_nonoverlapping(p, q, l.size().min(n)); note(p as usize, l.size()); std::alloc::System.dealloc(p, l); }
        q
    }
}

/// the runner: `<bin> <harness> (--tape FILE | --seed N)`
pub fn main(tables: &[&[(&'static str, fn())]]) -> ! {
    let a: Vec<String> = std::env::args().collect();
    std::panic::set_hook(Box::new(|i| {
        println!("PANIC {}", i.to_string().replace('\n', " "));
        if std::env::var_os("SX_RECORD").is_some() { let _ = ST.try_with(|s| if let Ok(s) = s.try_borrow() { for l in &s.rec { println!("TAPE {l}"); } }); }
        let _ = std::io::stdout().flush();
        std::process::exit(3)
    }));
    let f = tables.iter().flat_map(|t| t.iter()).find(|(n, _)| *n == a[1]);
    let f = match f { Some(f) => f.1, None => bad(format!("no harness {}", a[1])) };
    match a[2].as_str() {
        "--tape" => load(&std::fs::read_to_string(&a[3]).expect("tape")),
        "--seed" => seed(a[3].parse().unwrap()),
        x => bad(format!("argument {x}")),
    }
    f();
    finish()
}
