//! The wallet from end to end (C32); what error texts depend on (C33)
use crate::ek::{encode, payload, priv_key};
use crate::mn::*;
use crate::words::*;
use crate::xp::*;
use kms::bip32::*;
use kms::bip39::*;
use std::fmt::Write;
use std::str::FromStr;

/// a key type that accepts every 32 bytes, whose derivation is an arbitrary function
#[derive(Clone)]
pub struct Wk([u8; 32]);
#[derive(Clone, PartialEq, Eq, PartialOrd, Ord, Debug)]
pub struct Wp([u8; 33]);
fn uf2<const B: usize>(name: &str, a: &[u8], b: &[u8]) -> [u8; B] { let mut i = a.to_vec(); i.extend_from_slice(b); sx::ufn(name, &i) }
impl PrivateKey for Wk {
    type PublicKey = Wp;
    fn from_bytes(b: &[u8; 32]) -> Result<Self> { Ok(Wk(*b)) }
    fn to_bytes(&self) -> [u8; 32] { self.0 }
    fn derive_child(&self, o: [u8; 32]) -> Result<Self> { Ok(Wk(uf2("WkChild", &self.0, &o))) }
    fn public_key(&self) -> Wp { Wp(sx::ufn("WkPublic", &self.0)) }
}
impl PublicKey for Wp {
    fn from_bytes(b: [u8; 33]) -> Result<Self> { Ok(Wp(b)) }
    fn to_bytes(&self) -> [u8; 33] { self.0 }
    fn derive_child(&self, o: [u8; 32]) -> Result<Self> { Ok(Wp(uf2("WpChild", &self.0, &o))) }
    fn fingerprint(&self) -> [u8; 4] { sx::ufn("WpPrint", &self.0) }
}
type WPrv = ExtendedPrivateKey<Wk>;
type WPub = ExtendedPublicKey<Wp>;
/// the standard's key
struct Std { k: [u8; 32], a: ExtendedKeyAttrs }
impl Std {
    fn master(seed: &[u8]) -> Std {
        let h = prf(b"Bitcoin seed", &[seed]);
        Std { k: half(&h, 0), a: ExtendedKeyAttrs { depth: 0, parent_fingerprint: [0; 4], child_number: ChildNumber(0), chain_code: half(&h, 1) } }
    }
    fn public(&self) -> [u8; 33] { sx::ufn("WkPublic", &self.k) }
    fn child(&self, i: u32) -> Std {
        let p = self.public();
        let h = if i >> 31 != 0 { prf(&self.a.chain_code, &[&[0], &self.k, &i.to_be_bytes()]) } else { prf(&self.a.chain_code, &[&p, &i.to_be_bytes()]) };
        Std { k: uf2("WkChild", &self.k, &half(&h, 0)), a: ExtendedKeyAttrs { depth: self.a.depth + 1, parent_fingerprint: sx::ufn("WpPrint", &p), child_number: ChildNumber(i), chain_code: half(&h, 1) } }
    }
    fn prv_text(&self, v: u32) -> String { encode(&payload(v, &self.a, &priv_key(&self.k))) }
    fn pub_text(&self, v: u32) -> String { encode(&payload(v, &self.a, &self.public())) }
}
/// account paths in use: text before the last index, child numbers, private and public prefix
const H: u32 = 1 << 31;
const PATHS: [(&str, &[u32], Prefix, u32, Prefix, u32); 6] = [
    ("m/44'/0'/0'/0/", &[H + 44, H, H, 0], Prefix::XPRV, 0x0488_ade4, Prefix::XPUB, 0x0488_b21e),
    ("m/49'/0'/5'/1/", &[H + 49, H, H + 5, 1], Prefix::YPRV, 0x049d_7878, Prefix::YPUB, 0x049d_7cb2),
    ("m/84'/1'/0'/0/", &[H + 84, H + 1, H, 0], Prefix::ZPRV, 0x04b2_430c, Prefix::ZPUB, 0x04b2_4746),
    ("m/44'/60'/0'/0/", &[H + 44, H + 60, H, 0], Prefix::TPRV, 0x0435_8394, Prefix::TPUB, 0x0435_87cf),
    ("m/2147483647'/2147483647/", &[u32::MAX, H - 1], Prefix::XPRV, 0x0488_ade4, Prefix::XPUB, 0x0488_b21e),
    ("m/", &[], Prefix::TPRV, 0x0435_8394, Prefix::TPUB, 0x0435_87cf),
];
/// the text and the number of an arbitrary index of three digits
fn index() -> (Vec<u8>, u32) { let d = crate::cn::digits(3); let hard = sx::any_bool(); let v = crate::cn::value(&d) as u32; (if hard { [&d[..], b"'"].concat() } else { d }, v | (hard as u32) << 31) }
fn same_text(a: &str, b: &str) -> bool { sx::same(a.as_bytes(), b.as_bytes()) }
/// the account of a phrase, password and path is the standard's
fn wallet(ph: &[u8], l: Language, at: usize, np: usize) {
    let (head, nums, p, pv, q, qv) = PATHS[at];
    let mut pw = vec![0u8; np];
    for x in pw.iter_mut() { let y = sx::any_u8(); sx::assume(y < 128); *x = y; }
    let (d, i) = index();
    let t = [head.as_bytes(), &d].concat();
    // the real thing
    let m = match Mnemonic::from_phrase(text(ph), l) { Ok(m) => m, Err(_) => sx::stop() };
    sx::check(sx::same(m.phrase().as_bytes(), ph), "a phrase is kept as it was given");
    let pass = if l == Language::English { m.phrase().as_bytes().to_vec() } else { use encoding::Encoding; match encoding::all::GB18030.encode(m.phrase(), encoding::EncoderTrap::Strict) { Ok(b) => b, Err(_) => sx::stop() } };
    let path = match DerivationPath::from_str(text(&t)) { Ok(p) => p, Err(_) => sx::fail("a standard path is read") };
    let x = match WPrv::new_from_path(Seed::new(&m, text(&pw)), &path) { Ok(x) => x, Err(_) => sx::fail("a wallet has every account") };
    // the standard
    let mut s = Std::master(&crate::sd::expect_seed(&pass, &pw));
    for n in nums { s = s.child(*n); }
    s = s.child(i);
    sx::check(same_text(&x.to_string(p), &s.prv_text(pv)), "the private key of an account is that of the standards");
    sx::check(same_text(&x.public_key().to_string(q), &s.pub_text(qv)), "the public key of an account is that of the standards");
    sx::cover("account");
}
struct Out(Vec<u8>);
impl Write for Out { fn write_str(&mut self, s: &str) -> std::fmt::Result { self.0.extend_from_slice(s.as_bytes()); Ok(()) } }
/// every text an error has
fn texts<E: std::fmt::Display + std::fmt::Debug>(e: &E) -> Vec<Vec<u8>> {
    let mut v = vec![];
    for k in 0..4 {
        let mut o = Out(Vec::with_capacity(1000));
        let _ = match k { 0 => write!(o, "{}", e), 1 => write!(o, "{:#}", e), 2 => write!(o, "{:?}", e), _ => write!(o, "{:#?}", e) };
        v.push(o.0);
    }
    v
}
fn alike<E: std::fmt::Display + std::fmt::Debug>(a: &E, b: &E) {
    let (a, b) = (texts(a), texts(b));
    for i in 0..4 { sx::check((a[i].len() == b[i].len()) && sx::same(&a[i], &b[i]), "the text of an error is the same for all secrets"); }
    sx::cover("error");
}
/// two errors of the same kind have the same text
fn alike_kind(a: &anyhow::Error, b: &anyhow::Error) { if kind(a) == kind(b) { alike(a, b) } }
fn refused<T>(r: anyhow::Result<T>) -> Option<anyhow::Error> { r.err() }
/// a phrase of n list words, with an arbitrary unknown word at a place
fn wrong(c: &Class, n: usize, at: usize, len: usize) -> Vec<u8> {
    let ks: Vec<usize> = (0..n).map(|_| c.any()).collect();
    let mut ph = vec![];
    for i in 0..n {
        if i > 0 { ph.push(b' '); }
        if i == at { for _ in 0..len { let x = sx::any_u8(); sx::assume(x >= b'0' && x <= b'9'); ph.push(x) } } else { ph.extend_from_slice(&c.bytes[ks[i]][..c.len]) }
    }
    ph
}

sx::harness! {
    // ---- C32: from the phrase to the account ----
    c32_wallet {
        let l = Language::ChineseSimplified;
        warm(l);
        let c = class(&list(l), 3);
        let k = sx::choose(12) as usize;
        let (ent, _) = entropy_of(&[&c], k % 5);
        let m = match Mnemonic::from_entropy(&ent, l) { Ok(m) => m, Err(_) => sx::stop() };
        let ph = m.phrase().as_bytes().to_vec();
        wallet(&ph, l, k / 2, k % 5 * 3);
    }
    c32_english {
        let l = Language::English;
        warm(l);
        let k = sx::choose(6) as usize;
        let (len, size) = [(3, 0), (4, 4), (5, 2), (6, 1), (7, 3), (8, 0)][k];
        let c = class(&list(l), len);
        let (ent, _) = entropy_of(&[&c], size);
        let m = match Mnemonic::from_entropy(&ent, l) { Ok(m) => m, Err(_) => sx::stop() };
        // the last word has the same length
        sx::assume(m.phrase().len() == SIZES[size].0 * (len + 1) - 1);
        let ph = m.phrase().as_bytes().to_vec();
        wallet(&ph, l, k, k % 3 * 4);
    }
    // an account that is exported half way and imported again leads to the same keys
    c32_account {
        let k = sx::choose(9) as usize;
        let (_, nums, p, _, q, _) = PATHS[[0, 0, 0, 1, 2, 2, 4, 4, 5][k]];
        let cut = [0, 3, 4, 3, 1, 2, 1, 2, 0][k];
        let seed: [u8; 64] = sx::any();
        let mut x = match WPrv::new(seed) { Ok(x) => x, Err(_) => sx::stop() };
        let mut y = x.clone();
        for (j, n) in nums.iter().enumerate() {
            if j == cut { y = match WPrv::from_str(&y.to_string(p)) { Ok(y) => y, Err(_) => sx::fail("an exported account can be imported") }; }
            x = match x.derive_child(ChildNumber(*n)) { Ok(x) => x, Err(_) => sx::fail("a wallet has every account") };
            y = match y.derive_child(ChildNumber(*n)) { Ok(y) => y, Err(_) => sx::fail("an imported account has every account below it") };
        }
        if cut == nums.len() { y = match WPrv::from_str(&y.to_string(p)) { Ok(y) => y, Err(_) => sx::fail("an exported account can be imported") }; }
        let i = ChildNumber(sx::any_u32());
        match (x.derive_child(i), y.derive_child(i)) {
            (Ok(x), Ok(y)) => { sx::check(same_text(&x.to_string(p), &y.to_string(p)) & same_text(&x.public_key().to_string(q), &y.public_key().to_string(q)), "an imported account leads to the same keys"); sx::cover("account") }
            _ => sx::fail("an imported account leads to the same keys"),
        }
        // public
        let i = ChildNumber(sx::bits(31) as u32);
        let u = y.public_key();
        let w = match WPub::from_str(&u.to_string(q)) { Ok(w) => w, Err(_) => sx::fail("an exported public account can be imported") };
        match (u.derive_child(i), w.derive_child(i)) {
            (Ok(u), Ok(w)) => sx::check(same_text(&u.to_string(q), &w.to_string(q)), "an imported public account leads to the same keys"),
            _ => sx::fail("an imported public account leads to the same keys"),
        }
    }
    // two wallets one after the other: each has its own account
    c32_two {
        let k = sx::choose(12) as usize;
        let n = [16, 32, 64, 128][k % 4];
        let (_, nums, p, pv, _, _) = PATHS[k / 2];
        let mut s = vec![vec![0u8; n], vec![0u8; n]];
        for s in s.iter_mut() { sx::any_into(s); }
        let mut path = DerivationPath::default();
        for n in nums { path.push(ChildNumber(*n)); }
        path.push(ChildNumber(sx::any_u32()));
        for s in &s {
            let x = match WPrv::new_from_path(s, &path) { Ok(x) => x, Err(_) => sx::fail("a wallet has every account") };
            let mut e = Std::master(s);
            for n in path.iter() { e = e.child(n.0); }
            sx::check(same_text(&x.to_string(p), &e.prv_text(pv)), "the account of a wallet does not depend on another wallet's");
        }
        sx::cover("accounts");
    }
    // a watching wallet that was given an account's public text sees the public keys of the account
    c32_watch {
        let (x, _, _) = any_xprv();
        sx::assume(crate::ek::sane(x.attrs()));
        let i = ChildNumber(sx::bits(31) as u32);
        let t = x.public_key().to_string(Prefix::XPUB);
        let w = match XPub::from_str(&t) { Ok(w) => w, Err(_) => sx::fail("an exported public key can be imported") };
        let y = match XPrv::from_str(&x.to_string(Prefix::XPRV)) { Ok(w) => w, Err(_) => sx::fail("an exported private key can be imported") };
        let (a, b) = (y.derive_child(i).map(|k| k.public_key()), w.derive_child(i));
        sx::check(eq_res(&a, &b, eq_xpub), "the public account leads to the public keys of the private account");
        sx::cover(if a.is_ok() { "child" } else { "error" });
    }
    // ---- C33: error texts ----
    c33_word {
        let k = sx::choose(60) as usize;
        let l = lang(k as u32 % 2);
        warm(l);
        let c = class(&list(l), if k % 2 == 0 { 4 } else { 3 });
        let (n, at, len) = (SIZES[k / 2 % 5].0, [0, SIZES[k / 2 % 5].0 - 1, 5, 3, 11, 1][k / 10], 1 + k / 2 * 7 % 30);
        let (p, q) = (wrong(&c, n, at, len), wrong(&c, n, at, len));
        match (refused(Mnemonic::from_phrase(text(&p), l)), refused(Mnemonic::from_phrase(text(&q), l))) { (Some(a), Some(b)) => alike_kind(&a, &b), _ => {} }
        match (refused(Mnemonic::validate(text(&p), l)), refused(Mnemonic::validate(text(&q), l))) { (Some(a), Some(b)) => alike_kind(&a, &b), _ => {} }
    }
    c33_checksum {
        let k = sx::choose(10) as usize;
        let l = lang(k as u32 % 2);
        warm(l);
        let c = class(&list(l), if k % 2 == 0 { 5 } else { 3 });
        let n = SIZES[k / 2].0;
        let ph = || { let ks: Vec<usize> = (0..n).map(|_| c.any()).collect(); phrase_of(&[&c], &ks) };
        let (p, q) = (ph(), ph());
        match (refused(Mnemonic::from_phrase(text(&p), l)), refused(Mnemonic::from_phrase(text(&q), l))) { (Some(a), Some(b)) => alike_kind(&a, &b), _ => {} }
        match (refused(Mnemonic::validate(text(&p), l)), refused(Mnemonic::validate(text(&q), l))) { (Some(a), Some(b)) => alike_kind(&a, &b), _ => {} }
    }
    // entropies and phrases of other sizes
    c33_entropy {
        let l = Language::ChineseSimplified;
        warm(l);
        let n = sx::choose(41) as usize;
        if SIZES.iter().any(|s| s.1 == n) { return; }
        let (mut p, mut q) = (vec![0u8; n], vec![0u8; n]);
        sx::any_into(&mut p);
        sx::any_into(&mut q);
        match (refused(Mnemonic::from_entropy(&p, l)), refused(Mnemonic::from_entropy(&q, l))) { (Some(a), Some(b)) => alike_kind(&a, &b), _ => {} }
    }
    c33_count {
        let k = sx::choose(56) as usize;
        let l = lang(k as u32 % 2);
        warm(l);
        let n = k / 2;
        if SIZES.iter().any(|s| s.0 == n) { return; }
        let c = class(&list(l), if k % 2 == 0 { 4 } else { 3 });
        let ph = || { let ks: Vec<usize> = (0..n).map(|_| c.any()).collect(); phrase_of(&[&c], &ks) };
        let (p, q) = (ph(), ph());
        match (refused(Mnemonic::from_phrase(text(&p), l)), refused(Mnemonic::from_phrase(text(&q), l))) { (Some(a), Some(b)) => alike_kind(&a, &b), _ => {} }
        match (refused(MnemonicType::for_phrase(text(&p))), refused(MnemonicType::for_phrase(text(&q)))) { (Some(a), Some(b)) => alike_kind(&a, &b), _ => {} }
    }
    // seeds, keys and texts of keys
    c33_seed {
        let n = sx::choose(131) as usize;
        let (mut p, mut q) = (vec![0u8; n], vec![0u8; n]);
        sx::any_into(&mut p);
        sx::any_into(&mut q);
        match (XPrv::new(&p), XPrv::new(&q)) { (Err(a), Err(b)) => alike(&a, &b), _ => {} }
    }
    c33_key {
        let (p, q): ([u8; 33], [u8; 33]) = (sx::any(), sx::any());
        let e = |key_bytes| ExtendedKey { prefix: Prefix::XPRV, attrs: ExtendedKeyAttrs { depth: 1, parent_fingerprint: [7; 4], child_number: ChildNumber(5), chain_code: [9; 32] }, key_bytes };
        match (XPrv::try_from(e(p)), XPrv::try_from(e(q))) { (Err(a), Err(b)) => if std::mem::discriminant(&a) == std::mem::discriminant(&b) { alike(&a, &b) }, _ => {} }
    }
    c33_text {
        let n = [20, 100, 111, 112][sx::choose(4) as usize];
        let mut t = vec![vec![0u8; n], vec![0u8; n]];
        for t in t.iter_mut() { for c in t.iter_mut() { *c = sx::any_u8(); sx::assume(*c < 128); } }
        match (ExtendedKey::from_str(text(&t[0])), ExtendedKey::from_str(text(&t[1]))) { (Err(a), Err(b)) => { if std::mem::discriminant(&a) == std::mem::discriminant(&b) { alike(&a, &b) } } _ => {} }
        match (XPrv::from_str(text(&t[0])), XPrv::from_str(text(&t[1]))) { (Err(a), Err(b)) => { if std::mem::discriminant(&a) == std::mem::discriminant(&b) { alike(&a, &b) } } _ => {} }
    }
    c33_sign {
        let (a, _) = any_sk();
        let (b, _) = any_sk();
        let n = sx::choose(67) as usize;
        let (mut p, mut q) = (vec![0u8; n], vec![0u8; n]);
        sx::any_into(&mut p);
        sx::any_into(&mut q);
        match (kms::ecdsa_sign(&a, &p), kms::ecdsa_sign(&b, &q)) { (Err(a), Err(b)) => alike(&a, &b), _ => {} }
    }
    // derivation
    c33_derive {
        let (mut a, mut b) = (any_attrs(), any_attrs());
        a.depth = 255;
        b.depth = 255;
        let ((_, k), (_, j)) = (any_sk(), any_sk());
        let (x, y) = (xprv_of(&k, a), xprv_of(&j, b));
        let i = ChildNumber(sx::any_u32());
        match (x.derive_child(i), y.derive_child(i)) { (Err(a), Err(b)) => if std::mem::discriminant(&a) == std::mem::discriminant(&b) { alike(&a, &b) }, _ => {} }
    }
}
