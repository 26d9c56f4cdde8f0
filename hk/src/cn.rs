//! Child numbers (C21) and derivation paths (C22)
use kms::bip32::*;
use std::fmt::Write;
use std::str::FromStr;

fn text(b: &[u8]) -> &str { unsafe { std::str::from_utf8_unchecked(b) } }
struct Out(Vec<u8>);
impl Write for Out { fn write_str(&mut self, s: &str) -> std::fmt::Result { self.0.extend_from_slice(s.as_bytes()); Ok(()) } }
fn shown(e: &impl std::fmt::Display) -> Vec<u8> { let mut o = Out(Vec::with_capacity(128)); let _ = write!(o, "{}", e); o.0 }
/// n arbitrary digits
pub fn digits(n: usize) -> Vec<u8> { (0..n).map(|_| { let d = sx::bits(4) as u8; sx::assume(d < 10); b'0' + d }).collect() }
/// first digits of large numbers; others follow
const BIG: [&[u8]; 9] = [b"1000000", b"2147482", b"2147483", b"2147484", b"3000000", b"4294967", b"4294968", b"9999999", b"42949672"];
fn big(k: usize) -> Vec<u8> { let mut v = BIG[k].to_vec(); v.extend_from_slice(&digits(3)); v }
pub fn value(d: &[u8]) -> u64 { let mut v = 0u64; for c in d { v = v * 10 + (*c - b'0') as u64; } v }
/// the value of digits if it is below 2^32, by the standard library
fn std_value(d: &[u8]) -> Option<u32> { text(d).parse::<u32>().ok() }
fn std_text(v: u32) -> Vec<u8> { let mut o = Out(Vec::with_capacity(16)); let _ = write!(o, "{}", v & 0x7fff_ffff); if v >> 31 != 0 { o.0.push(b'\'') } o.0 }
/// the child number a text stands for; Err(true): none; Err(false): not specified
fn number(t: &[u8]) -> std::result::Result<u32, bool> {
    let (d, h) = match t.split_last() { Some((b'\'', d)) => (d, 1u32 << 31), _ => (t, 0) };
    if d.is_empty() { return Err(true); }
    if d[0] == b'+' && d.len() > 1 { return Err(false); }
    for c in d { if *c < b'0' || *c > b'9' { return Err(true); } }
    let v = match std_value(d) { Some(v) => v, None => return Err(true) };
    if v >> 31 != 0 { return Err(true); }
    if d[0] == b'0' && d.len() > 1 { return Err(false); }
    Ok(v | h)
}

/// an arbitrary character of two, three or four bytes between up to two digits, with a mark at the end or not
fn wide(k: u32) -> Vec<u8> {
    let mut t = digits(k as usize / 12);
    let c = |n: u32| 0x80 | sx::bits(n) as u8;
    match k % 3 {
        0 => { let a = sx::bits(5) as u8; sx::assume(a >= 2); t.push(0xc0 | a); t.push(c(6)); }
        1 => { let a = sx::bits(4) as u8; let b = c(6); sx::assume((a != 0) | (b >= 0xa0)); sx::assume((a != 13) | (b < 0xa0)); t.push(0xe0 | a); t.push(b); t.push(c(6)); }
        _ => { let a = sx::bits(2) as u8; let b = c(6); sx::assume((a != 0) | (b >= 0x90)); t.push(0xf0 | a); t.push(b); t.push(c(6)); t.push(c(6)); }
    }
    t.extend_from_slice(&digits(k as usize / 6 % 2));
    if k / 3 % 2 == 1 { t.push(b'\''); }
    t
}

sx::harness! {
    // ---- C21: child numbers ----
    c21_new {
        let (i, h) = (sx::any_u32(), sx::any_bool());
        match ChildNumber::new(i, h) {
            Ok(c) => {
                sx::check(i < 1 << 31, "only indices below 2^31 are accepted");
                sx::check(c.index() == i, "the index is kept");
                sx::check(c.is_hardened() == h, "the hardened flag is kept");
                sx::check(c.0 == i | ((h as u32) << 31), "the flag is the highest bit");
                sx::cover("ok");
            }
            Err(e) => { sx::check(i >= 1 << 31, "all indices below 2^31 are accepted"); sx::check(e == Error::ChildNumber, "a too large index is a child number error"); sx::cover("err"); }
        }
    }
    c21_bytes {
        let v = sx::any_u32();
        let c = ChildNumber::from(v);
        sx::check(c.0 == v && u32::from(c) == v, "a child number is its 32-bit value");
        sx::check(sx::same(&c.to_bytes(), &v.to_be_bytes()), "it is written big-endian");
        sx::check(ChildNumber::from_bytes(v.to_be_bytes()) == c, "it is read big-endian");
        sx::check(c.is_hardened() == (v >= 1 << 31), "numbers from 2^31 are hardened");
        sx::check(c.index() == v & 0x7fff_ffff, "the index lacks the flag");
        let w = sx::any_u32();
        let d = ChildNumber(w);
        sx::check((c == d) == (v == w), "equality is that of the values");
        sx::check((c < d) == (v < w), "order is that of the values");
        sx::check(ChildNumber::default().0 == 0, "the default is zero");
        sx::cover("bytes");
    }
    // decimal text, with and without the mark: all of up to nine digits, and ten
    // digits with the given first ones
    c21_read {
        let k = sx::choose(2 * (9 + BIG.len() as u32)) as usize;
        let mut t = if k < 18 { digits(k / 2 + 1) } else { big(k / 2 - 9) };
        if k % 2 == 1 { t.push(b'\''); }
        let r = ChildNumber::from_str(text(&t));
        match number(&t) {
            Ok(v) => { sx::check(r == Ok(ChildNumber(v)), "a decimal number below 2^31 is read, with a mark as hardened"); sx::cover("number") }
            Err(true) => { sx::check(r == Err(Error::ChildNumber), "a number from 2^31 is refused"); sx::cover("large") }
            Err(false) => { if let Ok(c) = r { let n = t.len() - k % 2; sx::check(Some(c.index()) == std_value(&t[..n]) && c.is_hardened() == (k % 2 == 1), "leading zeros do not change a number") } }
        }
    }
    // the value of short texts, and writing what was read
    c21_short {
        let k = sx::choose(8) as usize;
        let mut t = digits(k / 2 + 1);
        if k > 1 { sx::assume(t[0] != b'0'); }
        let v = value(&t) as u32 | ((k % 2) as u32) << 31;
        if k % 2 == 1 { t.push(b'\''); }
        sx::check(ChildNumber::from_str(text(&t)) == Ok(ChildNumber(v)), "a decimal number is read as its value");
        sx::check(sx::same(&shown(&ChildNumber(v)), &t), "a child number is shown as the text it is read from");
        sx::cover("short");
    }
    c21_show {
        let v = sx::any_u32();
        sx::check(sx::same(&shown(&ChildNumber(v)), &std_text(v)), "a child number is shown as its index in decimal, with a mark if hardened");
        sx::cover("shown");
    }
    // arbitrary text
    c21_text {
        let n = sx::choose(9) as usize;
        let mut t = vec![0u8; n];
        for c in t.iter_mut() { *c = sx::any_u8(); sx::assume(*c < 128); }
        let r = ChildNumber::from_str(text(&t));
        match number(&t) {
            Ok(v) => { sx::check(r == Ok(ChildNumber(v)), "a decimal number is read"); sx::cover("number") }
            Err(true) => { sx::check(r == Err(Error::ChildNumber), "text that is no decimal number is refused"); sx::cover("refused") }
            Err(false) => sx::cover("unspecified"),
        }
    }
    // text with a character that is not ASCII: no digit, sign or mark
    c21_wide {
        let t = wide(sx::choose(36));
        sx::check(ChildNumber::from_str(text(&t)) == Err(Error::ChildNumber), "text that is no decimal number is refused");
        sx::cover("refused");
    }
    // ---- C22: derivation paths ----
    // the k-th choice of a number of steps and of which are hardened
    c22_read {
        let k = sx::choose(15 * 3);
        let (k, len) = (k / 3 + 1, k as usize % 3 + 1);
        let n = 31 - k.leading_zeros();
        let mut t = b"m".to_vec();
        let mut want = vec![];
        for j in 0..n {
            let d = digits(1 + (len + j as usize) % 3);
            if d.len() > 1 { sx::assume(d[0] != b'0'); }
            let h = k >> j & 1;
            want.push(value(&d) as u32 | h << 31);
            t.push(b'/');
            t.extend_from_slice(&d);
            if h == 1 { t.push(b'\''); }
        }
        match DerivationPath::from_str(text(&t)) {
            Ok(p) => {
                sx::check(p.len() == n as usize && p.is_empty() == (n == 0), "a path has as many steps as the text");
                let got: Vec<u32> = p.iter().map(|c| c.0).collect();
                sx::check(got.len() == n as usize, "the iterator gives every step");
                let mut ok = got.len() == n as usize;
                for j in 0..got.len().min(n as usize) { ok &= got[j] == want[j]; }
                sx::check(ok, "the steps are those of the text, in order");
                sx::check(sx::same(&shown(&p), &t), "a path that was read is shown as the same text");
                sx::cover("read");
            }
            Err(_) => sx::fail("a well-formed path is read"),
        }
    }
    // long paths: every step a digit, some hardened
    c22_long {
        const N: [usize; 9] = [5, 8, 16, 17, 33, 100, 255, 256, 300];
        let k = sx::choose(N.len() as u32 * 2) as usize;
        let n = N[k / 2];
        let (mut t, mut p, mut want) = (b"m".to_vec(), DerivationPath::default(), vec![]);
        for j in 0..n {
            let d = sx::bits(4) as u8;
            sx::assume(d < 10);
            let h = (j % 3 == k % 2) as u32;
            t.push(b'/');
            t.push(b'0' + d);
            if h == 1 { t.push(b'\''); }
            want.push(d as u32 | h << 31);
            p.push(ChildNumber(d as u32 | h << 31));
        }
        match DerivationPath::from_str(text(&t)) {
            Ok(q) => {
                let a = q.as_ref();
                let mut ok = a.len() == n;
                for j in 0..a.len().min(n) { ok &= a[j].0 == want[j]; }
                sx::check(ok && q.len() == n, "the steps are those of the text, in order");
                sx::check(p == q, "pushing the steps gives the same path");
                sx::check(sx::same(&shown(&q), &t), "a path that was read is shown as the same text");
                let it: Vec<ChildNumber> = q.iter().collect();
                sx::check(it == p.as_ref(), "the iterator gives every step");
                let up = match q.parent() { Some(u) => u, None => sx::fail("a path that is not the root has a parent") };
                sx::check(up.as_ref() == &a[..n - 1], "the parent of a path is the path without its last step");
                sx::cover("read");
            }
            Err(_) => sx::fail("a well-formed path is read"),
        }
        t.extend_from_slice(b"/x");
        sx::check(DerivationPath::from_str(text(&t)) == Err(Error::ChildNumber), "every step is a child number");
    }
    // large numbers in a path
    c22_large {
        let mut t = b"m/7/".to_vec();
        let d = big(sx::choose(BIG.len() as u32) as usize);
        t.extend_from_slice(&d);
        let k = sx::choose(3);
        if k & 1 == 1 { t.push(b'\''); }
        if k == 2 { t.extend_from_slice(b"/1"); }
        let r = DerivationPath::from_str(text(&t));
        let v = match std_value(&d) { Some(v) => v, None => u32::MAX };
        if v >> 31 != 0 { sx::check(r == Err(Error::ChildNumber), "a path with a number from 2^31 is refused"); sx::cover("large") }
        else if d[0] != b'0' { match r { Ok(p) => { let a = p.as_ref(); sx::check(a.len() == 2 + k as usize / 2 && a[1].0 == v | (k & 1) << 31, "large numbers are read"); sx::cover("read") } Err(_) => sx::fail("numbers below 2^31 are read") } }
    }
    // arbitrary text of up to six characters
    c22_text {
        let n = sx::choose(7) as usize;
        let mut t = vec![0u8; n];
        for c in t.iter_mut() { *c = sx::any_u8(); sx::assume(*c < 128 && *c != b'+'); }
        any_text(&t);
    }
    // arbitrary text of up to six characters after "m/"
    c22_tail {
        let n = sx::choose(6) as usize;
        let mut t = b"m/".to_vec();
        for _ in 0..n { let c = sx::any_u8(); sx::assume(c < 128 && c != b'+'); t.push(c); }
        any_text(&t);
    }
    // a character that is not ASCII in a path
    c22_wide {
        let k = sx::choose(36 * 3);
        let w = wide(k % 36);
        let mut t = b"m/".to_vec();
        if k / 36 == 0 { t = w; t.extend_from_slice(b"/1"); sx::check(DerivationPath::from_str(text(&t)) == Err(Error::Decode), "a path starts with m"); sx::cover("no m"); return; }
        t.extend_from_slice(&w);
        if k / 36 == 2 { t.extend_from_slice(b"/1'"); }
        sx::check(DerivationPath::from_str(text(&t)) == Err(Error::ChildNumber), "every step is a child number");
        sx::cover("no number");
    }
    // operations on paths of arbitrary steps
    c22_ops {
        let n = sx::choose(7) as usize;
        let v: Vec<u32> = (0..n).map(|_| sx::any_u32()).collect();
        let mut p = DerivationPath::default();
        sx::check(p.is_empty() && p.len() == 0 && p.parent().is_none(), "the root has no steps and no parent");
        sx::check(sx::same(&shown(&p), b"m"), "the root is shown as m");
        for i in &v {
            let before = p.clone();
            p.push(ChildNumber(*i));
            sx::check(p.len() == before.len() + 1, "push adds a step");
            sx::check(p.parent().as_ref() == Some(&before), "the parent of a path is the path without its last step");
        }
        let same = |g: &[ChildNumber]| { let mut ok = g.len() == n; for j in 0..g.len().min(n) { ok &= g[j].0 == v[j]; } ok };
        sx::check(same(p.as_ref()), "steps are kept in order");
        sx::check(p.is_empty() == (n == 0), "only the root is empty");
        let it: Vec<ChildNumber> = p.iter().collect();
        sx::check(same(&it), "the iterator gives the steps in order");
        let mut q = DerivationPath::default();
        q.extend(v.iter().map(|i| ChildNumber(*i)));
        sx::check(p == q, "extending adds the steps in order");
        if n > 0 {
            let mut w = v.clone();
            let at = sx::choose(6) as usize % n;
            w[at] = sx::any_u32();
            let mut q = DerivationPath::default();
            for i in &w { q.push(ChildNumber(*i)); }
            sx::check((p == q) == (w[at] == v[at]), "paths are equal exactly if all steps are");
        }
        let it: Vec<ChildNumber> = p.into_iter().collect();
        sx::check(same(&it), "the owning iterator gives the steps in order");
        sx::cover("ops");
    }
    // every path is shown as m and its steps
    c22_show {
        let n = sx::choose(3) as usize;
        let mut p = DerivationPath::default();
        let mut t = b"m".to_vec();
        for _ in 0..n {
            let v = sx::any_u32();
            p.push(ChildNumber(v));
            t.push(b'/');
            t.extend_from_slice(&shown(&ChildNumber(v)));
        }
        sx::check(sx::same(&shown(&p), &t), "a path is shown as m and its steps, separated by slashes");
        sx::cover("shown");
    }
}
fn any_text(t: &[u8]) {
    let r = DerivationPath::from_str(text(t));
    let mut parts = t.split(|c| *c == b'/');
    let first = parts.next();
    if first != Some(b"m") { sx::check(r == Err(Error::Decode), "a path starts with m"); sx::cover("no m"); return; }
    let mut want = vec![];
    let mut spec = true;
    for p in parts {
        match number(p) { Ok(v) => want.push(v), Err(true) => { sx::check(r == Err(Error::ChildNumber), "every step is a child number"); sx::cover("no number"); return } Err(false) => { spec = false; want.push(0) } }
    }
    if !spec { sx::cover("unspecified"); return; }
    match r {
        Ok(p) => { let a = p.as_ref(); let mut ok = a.len() == want.len(); for j in 0..a.len().min(want.len()) { ok &= a[j].0 == want[j]; } sx::check(ok, "the steps are those of the text"); sx::cover("path") }
        Err(_) => sx::fail("a well-formed path is read"),
    }
}
