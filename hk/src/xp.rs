//! BIP32 keys: master keys (C10), derivation (C11-C16), equality (C20), fingerprints
//! and RIPEMD (C25), debug output (C26), accessors (C28); signing (C24)
use hmac::Mac;
use kms::bip32::*;
use ripemd::Ripemd160;
use secp::{PublicKey as Pk, SecretKey as Sk};
use sha2::{Digest, Sha256, Sha512};
use std::str::FromStr;

pub fn prf(key: &[u8], parts: &[&[u8]]) -> [u8; 64] {
    let mut h = match <hmac::Hmac<Sha512> as Mac>::new_from_slice(key) { Ok(h) => h, Err(_) => sx::stop() };
    for p in parts { h.update(p); }
    let mut o = [0u8; 64];
    o.copy_from_slice(&h.finalize().into_bytes());
    o
}
pub fn half(b: &[u8; 64], k: usize) -> [u8; 32] { let mut o = [0u8; 32]; o.copy_from_slice(&b[32 * k..32 * k + 32]); o }
const N: [u8; 32] = [0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xfe, 0xba, 0xae, 0xdc, 0xe6, 0xaf, 0x48, 0xa0, 0x3b, 0xbf, 0xd2, 0x5e, 0x8c, 0xd0, 0x36, 0x41, 0x41];
/// big-endian a < b, without branches
pub fn less(a: &[u8; 32], b: &[u8; 32]) -> bool {
    let mut bo = 0u32;
    for i in (0..8).rev() {
        let w = |x: &[u8; 32]| u32::from_be_bytes([x[4 * i], x[4 * i + 1], x[4 * i + 2], x[4 * i + 3]]) as u64;
        bo = (w(a).wrapping_sub(w(b)).wrapping_sub(bo as u64) >> 63) as u32;
    }
    bo != 0
}
pub fn scalar_ok(a: &[u8; 32]) -> bool { less(a, &N) & !sx::same(a, &[0; 32]) }
/// the sum modulo the group order; None if it is zero
pub fn add(k: &Sk, t: &[u8; 32]) -> Option<Sk> {
    let mut k = *k;
    match Sk::parse(t) { Ok(t) => match k.tweak_add_assign(&t) { Ok(()) => Some(k), Err(_) => None }, Err(_) => None }
}
pub fn hash160(b: &[u8]) -> [u8; 20] { let mut o = [0u8; 20]; o.copy_from_slice(&Ripemd160::digest(Sha256::digest(b))); o }
pub fn fp(b: &[u8]) -> [u8; 4] { let h = hash160(b); [h[0], h[1], h[2], h[3]] }

pub fn any_attrs() -> ExtendedKeyAttrs {
    ExtendedKeyAttrs { depth: sx::any_u8(), parent_fingerprint: sx::any(), child_number: ChildNumber(sx::any_u32()), chain_code: sx::any() }
}
/// an arbitrary secret key
pub fn any_sk() -> (Sk, [u8; 32]) {
    let b: [u8; 32] = sx::any();
    sx::assume(scalar_ok(&b));
    match Sk::parse(&b) { Ok(k) => (k, b), Err(_) => sx::stop() }
}
pub fn xprv_of(b: &[u8; 32], attrs: ExtendedKeyAttrs) -> XPrv {
    let mut key_bytes = [0u8; 33];
    key_bytes[1..].copy_from_slice(b);
    match XPrv::try_from(ExtendedKey { prefix: Prefix::XPRV, attrs, key_bytes }) { Ok(x) => x, Err(_) => sx::fail("a valid private key is accepted") }
}
/// an arbitrary extended private key
pub fn any_xprv() -> (XPrv, Sk, [u8; 32]) {
    let (k, b) = any_sk();
    let x = xprv_of(&b, any_attrs());
    (x, k, b)
}
pub fn xpub_of(b: &[u8; 33], attrs: ExtendedKeyAttrs) -> XPub {
    match XPub::try_from(ExtendedKey { prefix: Prefix::XPUB, attrs, key_bytes: *b }) { Ok(x) => x, Err(_) => sx::fail("a valid public key is accepted") }
}
/// an arbitrary extended public key
pub fn any_xpub() -> (XPub, Pk) {
    let c: [u8; 33] = sx::any();
    let p = match Pk::parse_compressed(&c) { Ok(p) => p, Err(_) => sx::stop() };
    let x = xpub_of(&c, any_attrs());
    (x, p)
}
/// (IL, IR) of a child of a private key
pub fn child_of(sk: &Sk, cc: &[u8; 32], i: u32) -> [u8; 64] {
    if i >> 31 != 0 { prf(cc, &[&[0], &sk.serialize(), &i.to_be_bytes()]) } else { prf(cc, &[&Pk::from_secret_key(sk).serialize_compressed(), &i.to_be_bytes()]) }
}
fn same_attrs(a: &ExtendedKeyAttrs, depth: u8, f: &[u8], i: u32, cc: &[u8]) -> bool {
    (a.depth == depth) & sx::same(&a.parent_fingerprint, f) & (a.child_number.0 == i) & sx::same(&a.chain_code, cc)
}
pub fn eq_attrs(a: &ExtendedKeyAttrs, b: &ExtendedKeyAttrs) -> bool { same_attrs(a, b.depth, &b.parent_fingerprint, b.child_number.0, &b.chain_code) }
pub fn eq_xprv(a: &XPrv, b: &XPrv) -> bool { eq_attrs(a.attrs(), b.attrs()) & sx::same(&a.to_bytes(), &b.to_bytes()) }
pub fn eq_xpub(a: &XPub, b: &XPub) -> bool { eq_attrs(a.attrs(), b.attrs()) & sx::same(&a.to_bytes(), &b.to_bytes()) }
pub fn eq_res<T>(a: &Result<T>, b: &Result<T>, f: fn(&T, &T) -> bool) -> bool { match (a, b) { (Ok(a), Ok(b)) => f(a, b), (Err(a), Err(b)) => a == b, _ => false } }
/// a path of n arbitrary child numbers
fn any_path(n: usize) -> (DerivationPath, Vec<u32>) {
    let mut p = DerivationPath::default();
    let mut v = vec![];
    for _ in 0..n { let i = sx::any_u32(); p.push(ChildNumber(i)); v.push(i); }
    (p, v)
}
/// the k-th choice of a number of steps and of which are hardened: 1 + 2 + 4 + ... choices
fn hard_path(k: u32) -> (DerivationPath, Vec<u32>) {
    let n = 31 - (k + 1).leading_zeros();
    let mut p = DerivationPath::default();
    let mut v = vec![];
    for j in 0..n { let i = sx::bits(31) as u32 | ((k + 1) >> j & 1) << 31; p.push(ChildNumber(i)); v.push(i); }
    (p, v)
}
fn steps(mut k: XPrv, v: &[u32]) -> Result<XPrv> { for i in v { k = k.derive_child(ChildNumber(*i))?; } Ok(k) }
fn steps_pub(mut k: XPub, v: &[u32]) -> Result<XPub> { for i in v { k = k.derive_child(ChildNumber(*i))?; } Ok(k) }
/// a key type whose operations are arbitrary functions; derivation fails after a number of steps
#[derive(Clone)]
pub struct Tk([u8; 32], usize);
#[derive(Clone, PartialEq, Eq, PartialOrd, Ord, Debug)]
pub struct Tp([u8; 33], usize);
fn uf2<const B: usize>(name: &str, a: &[u8], b: &[u8]) -> [u8; B] { let mut i = a.to_vec(); i.extend_from_slice(b); sx::ufn(name, &i) }
fn less_one(n: usize) -> Result<usize> { n.checked_sub(1).ok_or(Error::Bip39) }
/// keys from bytes: how many derivations they have in them, or refusal
fn from_any() -> Result<usize> { let n = FAIL.with(|f| f.get()); if n == usize::MAX { Err(Error::Bip39) } else { Ok(n) } }
impl PrivateKey for Tk {
    type PublicKey = Tp;
    fn from_bytes(b: &[u8; 32]) -> Result<Self> { Ok(Tk(*b, from_any()?)) }
    fn to_bytes(&self) -> [u8; 32] { sx::ufn("TkBytes", &self.0) }
    fn derive_child(&self, o: [u8; 32]) -> Result<Self> { Ok(Tk(uf2("TkChild", &self.0, &o), less_one(self.1)?)) }
    fn public_key(&self) -> Tp { Tp(sx::ufn("TkPublic", &self.0), self.1) }
}
impl PublicKey for Tp {
    fn from_bytes(b: [u8; 33]) -> Result<Self> { Ok(Tp(b, from_any()?)) }
    fn to_bytes(&self) -> [u8; 33] { sx::ufn("TpBytes", &self.0) }
    fn derive_child(&self, o: [u8; 32]) -> Result<Self> { Ok(Tp(uf2("TpChild", &self.0, &o), less_one(self.1)?)) }
    fn fingerprint(&self) -> [u8; 4] { sx::ufn("TpPrint", &self.0) }
}
thread_local! { pub static FAIL: std::cell::Cell<usize> = const { std::cell::Cell::new(0) }; }
/// attributes of a concrete depth
fn attrs_at(depth: u8) -> ExtendedKeyAttrs { ExtendedKeyAttrs { depth, ..any_attrs() } }
pub fn any_tprv(depth: u8) -> ExtendedPrivateKey<Tk> {
    let mut key_bytes = [0u8; 33];
    sx::any_into(&mut key_bytes[1..]);
    match ExtendedPrivateKey::try_from(ExtendedKey { prefix: Prefix::XPRV, attrs: attrs_at(depth), key_bytes }) { Ok(x) => x, Err(_) => sx::stop() }
}
pub fn any_tpub(depth: u8) -> ExtendedPublicKey<Tp> {
    match ExtendedPublicKey::try_from(ExtendedKey { prefix: Prefix::XPUB, attrs: attrs_at(depth), key_bytes: sx::any() }) { Ok(x) => x, Err(_) => sx::stop() }
}
fn eq_t(a: &ExtendedPrivateKey<Tk>, b: &ExtendedPrivateKey<Tk>) -> bool { eq_attrs(a.attrs(), b.attrs()) & sx::same(&a.private_key().0, &b.private_key().0) }
fn eq_u(a: &ExtendedPublicKey<Tp>, b: &ExtendedPublicKey<Tp>) -> bool { eq_attrs(a.attrs(), b.attrs()) & sx::same(&a.public_key().0, &b.public_key().0) }
fn half33(b: &[u8; 33]) -> [u8; 32] { let mut o = [0u8; 32]; o.copy_from_slice(&b[1..]); o }
/// a derivation with an arbitrary key type
fn generic(r: Result<(Vec<u8>, ExtendedKeyAttrs)>, depth: u8, k: Result<Vec<u8>>, h: &[u8; 64], i: u32, print: &[u8; 4]) {
    match r {
        Ok((b, a)) => {
            sx::check(depth < 255, "a key of depth 255 has no children");
            match k { Ok(k) => sx::check(sx::same(&b, &k), "the child is the key type's child for the left half"), Err(_) => sx::fail("a derivation the key type refuses fails") }
            sx::check(same_attrs(&a, depth + 1, print, i, &h[32..]), "a child has the next depth, the parent's fingerprint, its number and the right half");
            sx::cover("ok");
        }
        Err(e) => {
            if depth == 255 { sx::check((e == Error::Depth) | (k.is_err() & (e == Error::Bip39)), "a key of depth 255 has no children"); sx::cover("depth"); return; }
            sx::check(k.is_err(), "a derivation the key type accepts succeeds");
            sx::check(e == Error::Bip39, "the key type's error is reported");
            sx::cover("refused");
        }
    }
}
/// a total order that agrees with equality
fn order<T: Ord>(a: &T, b: &T, c: &T) {
    use std::cmp::Ordering::*;
    let (ab, ba) = (a.cmp(b), b.cmp(a));
    sx::check(ab == ba.reverse(), "comparing in the opposite direction gives the opposite");
    sx::check((ab == Equal) == (a == b), "only equal values are neither less nor greater");
    sx::check(a.partial_cmp(b) == Some(ab), "the two comparisons agree");
    sx::check(((a < b) == (ab == Less)) & ((a <= b) == (ab != Greater)) & ((a > b) == (ab == Greater)) & ((a >= b) == (ab != Less)), "the operators agree with the comparison");
    if ab == Less && b.cmp(c) == Less { sx::check(a.cmp(c) == Less, "the order is transitive"); sx::cover("transitive"); }
    sx::cover(match ab { Less => "less", Equal => "equal", Greater => "greater" });
}
pub fn check_child(x: &ExtendedPrivateKey<Tk>, i: u32) {
    let k = x.private_key().clone();
    let pk = k.public_key();
    let a = x.attrs().clone();
    let r = x.derive_child(ChildNumber(i));
    let h = if i >> 31 != 0 { prf(&a.chain_code, &[&[0], &k.to_bytes(), &i.to_be_bytes()]) } else { prf(&a.chain_code, &[&pk.to_bytes(), &i.to_be_bytes()]) };
    generic(r.map(|c| (c.private_key().0.to_vec(), c.attrs().clone())), a.depth, k.derive_child(half(&h, 0)).map(|c| c.0.to_vec()), &h, i, &pk.fingerprint());
}
pub fn check_child_public(x: &ExtendedPublicKey<Tp>, i: u32) {
    let k = x.public_key().clone();
    let a = x.attrs().clone();
    sx::check(sx::same(&x.fingerprint(), &k.fingerprint()), "the fingerprint is the key type's");
    let r = x.derive_child(ChildNumber(i));
    if i >> 31 != 0 { sx::check(matches!(r, Err(Error::ChildNumber)) || (a.depth == 255 && r.is_err()), "a public key has no hardened children"); sx::cover("hardened"); return; }
    let h = prf(&a.chain_code, &[&k.to_bytes(), &i.to_be_bytes()]);
    generic(r.map(|c| (c.public_key().0.to_vec(), c.attrs().clone())), a.depth, k.derive_child(half(&h, 0)).map(|c| c.0.to_vec()), &h, i, &k.fingerprint());
}
/// n steps, hardened by a pattern (2: none)
fn long_path(n: usize, k: usize) -> (DerivationPath, Vec<u32>) {
    let mut p = DerivationPath::default();
    let mut v = vec![];
    for j in 0..n { let i = sx::bits(31) as u32 | ((k == 0 && j % 2 == 0 || k == 1 && j % 5 == 4) as u32) << 31; p.push(ChildNumber(i)); v.push(i); }
    (p, v)
}
struct Out(Vec<u8>);
impl std::fmt::Write for Out { fn write_str(&mut self, s: &str) -> std::fmt::Result { self.0.extend_from_slice(s.as_bytes()); Ok(()) } }

sx::harness! {
    // ---- C10: master keys ----
    c10_master {
        let n = sx::choose(139) as usize;
        let n = if n < 131 { n } else { [255, 256, 257, 272, 288, 320, 384, 512][n - 131] };
        let mut seed = vec![0u8; n];
        sx::any_into(&mut seed);
        let r = XPrv::new(&seed);
        if !(n == 16 || n == 32 || n == 64 || n == 128) {
            sx::check(matches!(r, Err(Error::SeedLength)), "a seed of another size is refused as such");
            sx::cover("seed length");
            return;
        }
        let i = prf(b"Bitcoin seed", &[&seed]);
        let ok = scalar_ok(&half(&i, 0));
        match r {
            Ok(x) => {
                sx::check(ok, "a master key is a valid private key");
                sx::check(sx::same(&x.to_bytes(), &i[..32]), "the master key is the left half of HMAC-SHA512(\"Bitcoin seed\", seed)");
                sx::check(same_attrs(x.attrs(), 0, &[0; 4], 0, &i[32..]), "the master chain code is the right half; depth, fingerprint and child number are zero");
                sx::cover("ok");
            }
            Err(e) => { sx::check(!ok, "a seed with a valid master key is accepted"); sx::check(e == Error::Crypto, "an invalid master key is a cryptographic error"); sx::cover("invalid") }
        }
    }
    // the seed of a mnemonic is used as it is; the empty path is the master key
    c10_seed {
        use kms::bip39::*;
        crate::words::warm(Language::ChineseSimplified);
        let mut ent = [0u8; 16];
        sx::any_into(&mut ent);
        let m = match Mnemonic::from_entropy(&ent, Language::ChineseSimplified) { Ok(m) => m, Err(_) => sx::stop() };
        let s = Seed::new(&m, "");
        let a = XPrv::new(s.as_bytes());
        sx::check(eq_res(&XPrv::new(&s), &a, eq_xprv), "the master key of a Seed is that of its bytes");
        sx::check(eq_res(&XPrv::new_from_path(&s, &DerivationPath::default()), &a, eq_xprv), "the empty path leads to the master key");
        sx::cover(if a.is_ok() { "ok" } else { "invalid" });
    }
    // ---- C11: private children ----
    c11_child {
        let (x, k, _) = any_xprv();
        let i = sx::any_u32();
        let h = child_of(&k, &x.attrs().chain_code, i);
        let (il, ir) = (half(&h, 0), half(&h, 1));
        let full = x.attrs().depth == 255;
        match x.derive_child(ChildNumber(i)) {
            Ok(c) => {
                sx::check(!full, "no child below depth 255");
                sx::check(less(&il, &N), "no child if IL is not below the group order");
                if sx::same(&il, &[0; 32]) { sx::check(sx::same(&c.to_bytes(), &k.serialize()), "adding zero changes nothing") }
                else {
                    match add(&k, &il) { Some(s) => sx::check(sx::same(&c.to_bytes(), &s.serialize()), "the child key is IL + parent key modulo the group order"), None => sx::fail("no child if the key would be zero") }
                }
                let f = fp(&Pk::from_secret_key(&k).serialize_compressed());
                sx::check(sx::same(&c.attrs().chain_code, &ir), "the child's chain code is IR");
                sx::check(sx::same(&c.attrs().parent_fingerprint, &f), "the child carries the fingerprint of the parent's public key");
                sx::check(c.attrs().child_number.0 == i, "the child carries its number");
                sx::check(c.attrs().depth == x.attrs().depth.wrapping_add(1), "the child is one level deeper");
                sx::cover(if i >> 31 != 0 { "hardened" } else { "normal" });
            }
            Err(e) => {
                if full { sx::check(e == Error::Depth, "depth overflow is reported as such"); sx::cover("depth") }
                else { sx::check(!scalar_ok(&il) || add(&k, &il).is_none(), "a child exists unless IL is invalid or the key would be zero"); sx::check(e == Error::Crypto, "an invalid child is a cryptographic error"); sx::cover("invalid") }
            }
        }
    }
    // ---- C12: public children ----
    c12_child {
        let (x, k) = any_xpub();
        let i = sx::any_u32();
        let full = x.attrs().depth == 255;
        let r = x.derive_child(ChildNumber(i));
        if i >> 31 != 0 {
            match r { Ok(_) => sx::fail("a public key has no hardened children"), Err(e) => sx::check(e == Error::ChildNumber || full, "asking for a hardened child is a child number error") }
            sx::cover("hardened");
            return;
        }
        let ser = k.serialize_compressed();
        let h = prf(&x.attrs().chain_code, &[&ser, &i.to_be_bytes()]);
        let (il, ir) = (half(&h, 0), half(&h, 1));
        let mut t = k;
        let valid = match Sk::parse(&il) { Ok(s) => t.tweak_add_assign(&s).is_ok(), Err(_) => false };
        match r {
            Ok(c) => {
                sx::check(!full, "no child below depth 255");
                sx::check(less(&il, &N), "no child if IL is not below the group order");
                if sx::same(&il, &[0; 32]) { sx::check(sx::same(&c.to_bytes(), &ser), "adding zero changes nothing") }
                else { sx::check(valid, "no child at infinity"); sx::check(sx::same(&c.to_bytes(), &t.serialize_compressed()), "the child key is IL*G + parent key"); }
                sx::check(sx::same(&c.attrs().chain_code, &ir), "the child's chain code is IR");
                sx::check(sx::same(&c.attrs().parent_fingerprint, &fp(&ser)), "the child carries the fingerprint of the parent");
                sx::check(c.attrs().child_number.0 == i, "the child carries its number");
                sx::check(c.attrs().depth == x.attrs().depth.wrapping_add(1), "the child is one level deeper");
                sx::cover("child");
            }
            Err(e) => {
                if full { sx::check(e == Error::Depth, "depth overflow is reported as such"); sx::cover("depth") }
                else { sx::check(!valid, "a child exists unless IL is invalid or the point is at infinity"); sx::check(e == Error::Crypto, "an invalid child is a cryptographic error"); sx::cover("invalid") }
            }
        }
    }
    // ---- C13: taking the public key commutes with derivation ----
    c13_one {
        let (x, _, _) = any_xprv();
        let i = sx::bits(31) as u32;
        let a = x.derive_child(ChildNumber(i)).map(|c| c.public_key());
        let b = x.public_key().derive_child(ChildNumber(i));
        sx::check(eq_res(&a, &b, eq_xpub), "the public key of the child is the child of the public key");
        sx::cover(if a.is_ok() { "child" } else { "error" });
    }
    c13_two {
        let (x, _, _) = any_xprv();
        let p = [sx::bits(31) as u32, sx::bits(31) as u32];
        let a = steps(x.clone(), &p).map(|c| c.public_key());
        let b = steps_pub(x.public_key(), &p);
        sx::check(eq_res(&a, &b, eq_xpub), "the public key of the grandchild is the grandchild of the public key");
        sx::cover(if a.is_ok() { "child" } else { "error" });
    }
    c13_path {
        let (x, _, _) = any_xprv();
        let n = 1 + sx::choose(3) as usize;
        let (p, v) = any_path(n);
        for i in &v { sx::assume(*i >> 31 == 0); }
        let a = x.clone().derive_from_path(&p).map(|c| c.public_key());
        let b = x.public_key().derive_from_path(&p);
        sx::check(eq_res(&a, &b, eq_xpub), "the public key of a descendant is the descendant of the public key");
        sx::cover(if a.is_ok() { "child" } else { "error" });
    }
    // ---- C14: whatever the HMAC gives, a key or an error comes out ----
    c14_master {
        let seed: [u8; 64] = sx::any();
        let il = half(&prf(b"Bitcoin seed", &[&seed]), 0);
        let k = sx::choose(3);
        sx::assume(match k { 0 => sx::same(&il, &[0; 32]), 1 => sx::same(&il, &N), _ => less(&N, &il) });
        sx::check(XPrv::new(&seed).is_err(), "an invalid master key is an error");
        sx::check(XPrv::new_from_path(&seed, &any_path(1).0).is_err(), "an invalid master key has no descendants");
        sx::cover("error");
    }
    c14_child {
        let (x, sk, _) = any_xprv();
        sx::assume(x.attrs().depth < 200);
        let i = sx::any_u32();
        let il = half(&child_of(&sk, &x.attrs().chain_code, i), 0);
        let k = sx::choose(4);
        sx::assume(match k { 0 => sx::same(&il, &[0; 32]), 1 => sx::same(&il, &N), 2 => less(&N, &il), _ => scalar_ok(&il) && add(&sk, &il).is_none() });
        let r = x.derive_child(ChildNumber(i));
        if k == 0 { if let Ok(c) = r { sx::check(sx::same(&c.to_bytes(), &sk.serialize()), "adding zero changes nothing") } } else { sx::check(r == Err(Error::Crypto), "an invalid private child is an error"); }
        let mut p = DerivationPath::default();
        p.push(ChildNumber(i));
        p.push(ChildNumber(sx::any_u32()));
        let r = x.derive_from_path(&p);
        if k > 0 { sx::check(r.is_err(), "an invalid child has no descendants"); }
        sx::cover("error");
    }
    c14_pub {
        let (x, pk) = any_xpub();
        sx::assume(x.attrs().depth < 200);
        let i = sx::bits(31) as u32;
        let il = half(&prf(&x.attrs().chain_code, &[&pk.serialize_compressed(), &i.to_be_bytes()]), 0);
        let k = sx::choose(4);
        sx::assume(match k { 0 => sx::same(&il, &[0; 32]), 1 => sx::same(&il, &N), 2 => less(&N, &il), _ => { let mut t = pk; scalar_ok(&il) && match Sk::parse(&il) { Ok(s) => t.tweak_add_assign(&s).is_err(), Err(_) => false } } });
        let r = x.derive_child(ChildNumber(i));
        if k == 0 { if let Ok(c) = r { sx::check(sx::same(&c.to_bytes(), &pk.serialize_compressed()), "adding zero changes nothing") } } else { sx::check(matches!(r, Err(Error::Crypto)), "an invalid public child is an error"); }
        let mut p = DerivationPath::default();
        p.push(ChildNumber(i));
        p.push(ChildNumber(sx::any_u32()));
        let r = x.derive_from_path(&p);
        if k > 0 { sx::check(r.is_err(), "an invalid child has no descendants"); }
        sx::cover("error");
    }
    // ---- C15: depth ----
    c15_depth {
        let (x, _, _) = any_xprv();
        let i = sx::any_u32();
        let d = x.attrs().depth;
        let public = sx::choose(2) == 1;
        if public { sx::assume(i >> 31 == 0); }
        let r = if public { x.public_key().derive_child(ChildNumber(i)).map(|c| c.attrs().depth) } else { x.derive_child(ChildNumber(i)).map(|c| c.attrs().depth) };
        match r {
            Ok(e) => { sx::check(d < 255, "keys at depth 255 have no children"); sx::check(e == d.wrapping_add(1), "a child is one level deeper than its parent"); sx::cover("child") }
            Err(Error::Depth) => { sx::check(d == 255, "only keys at depth 255 lack children for their depth"); sx::cover("depth") }
            Err(_) => { sx::check(d < 255, "a key at depth 255 has no children for its depth"); sx::cover("error") }
        }
    }
    c15_path { depth_path(14, 3) }
    c15_path_deep { depth_path(30, 4) }
    // ---- C16: paths ----
    c16_prv { fold_prv(15) }
    c16_prv_deep { fold_prv(31) }
    c16_pub { fold_pub(4) }
    c16_pub_deep { fold_pub(6) }
    // long paths
    // ---- long paths, with an arbitrary key type (derivation is generic in it) ----
    c16_long { long_paths(&LONG) }
    c16_long_deep { long_paths(&LONGER) }
    c16_seed_long { long_paths_seed(&LONG) }
    c16_seed_long_deep { long_paths_seed(&LONGER) }
    c16_seed {
        let seed: [u8; 32] = sx::any();
        let (p, v) = hard_path(sx::choose(7));
        let a = XPrv::new_from_path(seed, &p);
        let b = XPrv::new(seed).and_then(|k| steps(k, &v));
        sx::check(eq_res(&a, &b, eq_xprv), "a path from a seed starts at its master key");
        sx::cover(if a.is_ok() { "ok" } else { "error" });
    }
    c16_seed_size {
        let (p, _) = any_path(sx::choose(4) as usize);
        let n = sx::choose(131) as usize;
        if n == 16 || n == 32 || n == 64 || n == 128 { return; }
        sx::check(matches!(XPrv::new_from_path(vec![7u8; n], &p), Err(Error::SeedLength)), "a seed of a wrong size is refused whatever the path");
        sx::cover("size");
    }
    // a concatenated path is the second followed from the end of the first
    c16_split {
        let (x, _, _) = any_xprv();
        let k = sx::choose(9);
        let ((p, _), (q, w)) = (hard_path(k / 3), hard_path(k % 3));
        let mut pq = p.clone();
        pq.extend(w.iter().map(|i| ChildNumber(*i)));
        let a = x.clone().derive_from_path(&pq);
        let b = x.derive_from_path(&p).and_then(|k| k.derive_from_path(&q));
        sx::check(eq_res(&a, &b, eq_xprv), "a path can be followed in parts");
        sx::cover(if a.is_ok() { "ok" } else { "error" });
    }
    // ---- C20: equality ----
    c20_prv {
        let ((a, _, _), (b, _, _)) = (any_xprv(), any_xprv());
        use subtle::ConstantTimeEq;
        let want = eq_xprv(&a, &b);
        sx::check((a == b) == want, "extended private keys are equal exactly if the private keys and all attributes are");
        sx::check(bool::from(a.ct_eq(&b)) == want, "constant-time comparison agrees");
        sx::check((a != b) != want, "inequality is the opposite");
        sx::check(a == a.clone(), "a clone is equal");
        sx::cover(if want { "equal" } else { "different" });
    }
    // keys that differ in one part only
    c20_one {
        let (a, _, _) = any_xprv();
        let mut t = a.attrs().clone();
        let mut kb = a.to_bytes();
        let k = sx::choose(5);
        match k {
            0 => t.depth = sx::any_u8(),
            1 => t.parent_fingerprint[sx::choose(4) as usize] = sx::any_u8(),
            2 => t.child_number = ChildNumber(sx::any_u32()),
            3 => t.chain_code[sx::choose(32) as usize] = sx::any_u8(),
            _ => { kb[sx::choose(32) as usize] = sx::any_u8(); sx::assume(scalar_ok(&kb)); }
        }
        let b = xprv_of(&kb, t);
        sx::check((a == b) == eq_xprv(&a, &b), "keys that differ in one part are different");
        sx::cover(if a == b { "equal" } else { "different" });
    }
    c20_pub {
        let ((a, _), (b, _)) = (any_xpub(), any_xpub());
        let want = eq_xpub(&a, &b);
        sx::check((a == b) == want, "extended public keys are equal exactly if the public keys and all attributes are");
        sx::cover(if want { "equal" } else { "different" });
    }
    // ---- C29: derivation is generic in the key type ----
    c29_child {
        FAIL.with(|f| f.set(sx::choose(2) as usize));
        let mut x = any_tprv(0);
        let i = sx::any_u32();
        if sx::any_bool() { x = any_tprv(255); }
        check_child(&x, i);
    }
    c29_child_public {
        FAIL.with(|f| f.set(sx::choose(2) as usize));
        let mut x = any_tpub(0);
        let i = sx::any_u32();
        if sx::any_bool() { x = any_tpub(255); }
        check_child_public(&x, i);
    }
    c29_master {
        FAIL.with(|f| f.set([0, usize::MAX][sx::choose(2) as usize]));
        let mut seed = vec![0u8; [16, 32, 64, 128][sx::choose(4) as usize]];
        sx::any_into(&mut seed);
        let h = prf(b"Bitcoin seed", &[&seed]);
        match (ExtendedPrivateKey::<Tk>::new(&seed), Tk::from_bytes(&half(&h, 0))) {
            (Ok(x), Ok(k)) => {
                sx::check(sx::same(&x.private_key().0, &k.0), "the master key is the key type's key of the left half");
                sx::check(same_attrs(x.attrs(), 0, &[0; 4], 0, &h[32..]), "a master key has depth, fingerprint and child number zero and the right half as chain code");
                sx::cover("ok");
            }
            (Err(e), Err(f)) => { sx::check(e == f, "the key type's refusal is reported"); sx::cover("refused") }
            _ => sx::fail("a master key exists exactly if the key type accepts the left half"),
        }
    }
    c29_text {
        let x = any_tprv(sx::choose(3) as u8 * 100);
        let y = x.public_key();
        let k = x.private_key().clone();
        sx::check(sx::same(&y.public_key().0, &k.public_key().0) & eq_attrs(y.attrs(), x.attrs()), "the public key is the key type's, with the same attributes");
        sx::check(sx::same(&x.to_bytes(), &k.to_bytes()) & sx::same(&y.to_bytes(), &k.public_key().to_bytes()), "the bytes are the key type's");
        let (e, f) = (x.to_extended_key(Prefix::YPRV), y.to_extended_key(Prefix::ZPUB));
        sx::check((e.key_bytes[0] == 0) & sx::same(&e.key_bytes[1..], &k.to_bytes()) & eq_attrs(&e.attrs, x.attrs()) & (e.prefix == Prefix::YPRV), "the extended key has the key type's bytes");
        sx::check(sx::same(&f.key_bytes, &k.public_key().to_bytes()) & eq_attrs(&f.attrs, x.attrs()) & (f.prefix == Prefix::ZPUB), "the extended public key has the key type's bytes");
        FAIL.with(|f| f.set([0, usize::MAX][sx::choose(2) as usize]));
        let (eb, fb) = (half33(&e.key_bytes), f.key_bytes);
        match (ExtendedPrivateKey::<Tk>::try_from(e), Tk::from_bytes(&eb)) {
            (Ok(a), Ok(b)) => { sx::check(sx::same(&a.private_key().0, &b.0) & eq_attrs(a.attrs(), x.attrs()), "an extended key is read by the key type"); sx::cover("read") }
            (Err(a), Err(b)) => { sx::check(a == b, "the key type's refusal is reported"); sx::cover("refused") }
            _ => sx::fail("an extended key is read exactly if the key type accepts its bytes"),
        }
        match (ExtendedPublicKey::<Tp>::try_from(f), Tp::from_bytes(fb)) {
            (Ok(a), Ok(b)) => { sx::check(sx::same(&a.public_key().0, &b.0) & eq_attrs(a.attrs(), x.attrs()), "an extended key is read by the key type"); sx::cover("read") }
            (Err(a), Err(b)) => { sx::check(a == b, "the key type's refusal is reported"); sx::cover("refused") }
            _ => sx::fail("an extended key is read exactly if the key type accepts its bytes"),
        }
    }
    c29_equal {
        let (x, y) = (any_tprv(3), any_tprv(3));
        let want = eq_attrs(x.attrs(), y.attrs()) & sx::same(&x.private_key().to_bytes(), &y.private_key().to_bytes());
        sx::check((x == y) == want, "two keys are equal exactly if their bytes and attributes are");
        sx::cover(if want { "equal" } else { "different" });
    }
    // ---- C30: orderings ----
    c30_numbers {
        let (a, b) = (sx::any_u32(), sx::any_u32());
        order(&ChildNumber(a), &ChildNumber(b), &ChildNumber(sx::any_u32()));
        sx::check((ChildNumber(a) < ChildNumber(b)) == (a < b), "child numbers are ordered as numbers: all hardened ones after all others");
    }
    c30_attrs { order(&any_attrs(), &any_attrs(), &any_attrs()); }
    c30_prefix {
        let k = sx::choose(512) as usize;
        const P: [Prefix; 8] = [Prefix::XPRV, Prefix::XPUB, Prefix::TPRV, Prefix::TPUB, Prefix::YPRV, Prefix::YPUB, Prefix::ZPRV, Prefix::ZPUB];
        order(&P[k % 8], &P[k / 8 % 8], &P[k / 64]);
    }
    // prefixes of any four letters and any version
    c30_any {
        let p = || {
            let mut t = [0u8; 4];
            for c in t.iter_mut() { let b = sx::bits(5) as u8; sx::assume(b >= 1 && b <= 26); *c = (sx::bits(1) as u8) << 5 | 0x40 | b; }
            Prefix::from_parts_unchecked(unsafe { std::str::from_utf8_unchecked(&t) }, sx::any_u32())
        };
        order(&p(), &p(), &p());
    }
    c30_public {
        let (a, b, c) = (any_tpub(1), any_tpub(1), any_tpub(1));
        order(&a, &b, &c);
    }
    // ---- C24: signatures ----
    c24_sign {
        let (k, _) = any_sk();
        let n = sx::choose(73) as usize;
        let n = if n < 67 { n } else { [96, 128, 256, 288, 512, 544][n - 67] };
        let mut m = vec![0u8; n];
        sx::any_into(&mut m);
        match kms::ecdsa_sign(&k, &m) {
            Ok((s, r)) => {
                sx::check(n == 32, "only 32-byte digests are signed");
                if n != 32 { return; }
                let mut d = [0u8; 32];
                d.copy_from_slice(&m);
                let d = secp::Message::parse(&d);
                let (e, f) = secp::sign(&d, &k);
                sx::check(sx::same(&s, &e.serialize()), "the signature is r || s of the deterministic ECDSA signature of the digest under the key");
                sx::check(r == f.serialize(), "the recovery id is that of the signature");
                sx::check(r < 4, "the recovery id is at most 3");
                match secp::Signature::parse_standard(&s) { Ok(g) => sx::check(secp::verify(&d, &g, &Pk::from_secret_key(&k)), "the signature verifies under the public key"), Err(_) => sx::fail("the signature is well-formed") }
                sx::cover("signed");
            }
            Err(_) => { sx::check(n != 32, "every 32-byte digest is signed"); sx::cover("refused") }
        }
    }
    // ---- C25: fingerprints and RIPEMD ----
    c25_fp {
        let (x, k, _) = any_xprv();
        let p = Pk::from_secret_key(&k).serialize_compressed();
        let f = fp(&p);
        sx::check(sx::same(&x.public_key().fingerprint(), &f), "a fingerprint is the start of RIPEMD160(SHA256(compressed public key))");
        sx::check(sx::same(&PublicKey::fingerprint(x.public_key().public_key()), &f), "the fingerprint of the inner key is the same");
        if let Ok(c) = x.derive_child(ChildNumber(sx::any_u32())) { sx::check(sx::same(&c.attrs().parent_fingerprint, &f), "children name their parent by its fingerprint"); sx::cover("child") }
        sx::cover("fingerprint");
    }
    c25_ripemd {
        let n = sx::choose(138) as usize;
        let n = if n < 130 { n } else { [191, 192, 193, 255, 256, 257, 500, 1000][n - 130] };
        let mut m = vec![0u8; n];
        sx::any_into(&mut m);
        let d = Ripemd160::digest(&m);
        let mut e = [0u8; 40];
        for i in 0..20 { e[2 * i] = b"0123456789abcdef"[(d[i] >> 4) as usize]; e[2 * i + 1] = b"0123456789abcdef"[(d[i] & 15) as usize]; }
        let s = kms::crypto::ripemd(&m);
        sx::check(sx::same(s.as_bytes(), &e), "ripemd gives RIPEMD-160 of the message in lower-case hexadecimal");
        sx::cover("hash");
    }
    // ---- C26: debug output does not depend on the private key ----
    c26_debug {
        let k = sx::choose(4);
        let t = ExtendedKeyAttrs { depth: 3, parent_fingerprint: [1, 20, 200, 7], child_number: ChildNumber([7, 0x8000_0005][k as usize / 2]), chain_code: [0xa5; 32] };
        let ((_, a), (_, b)) = (any_sk(), any_sk());
        let (a, b) = (xprv_of(&a, t.clone()), xprv_of(&b, t));
        let (mut o, mut p) = (Out(Vec::with_capacity(2000)), Out(Vec::with_capacity(2000)));
        use std::fmt::Write;
        let _ = if k % 2 == 0 { let _ = write!(o, "{:?}", a); write!(p, "{:?}", b) } else { let _ = write!(o, "{:#?}", a); write!(p, "{:#?}", b) };
        sx::check(o.0.len() > 0, "something is shown");
        sx::check(sx::same(&o.0, &p.0), "the debug output of an extended private key does not depend on the private key");
        sx::cover("shown");
    }
    // ---- C28: accessors and conversions ----
    c28_prv {
        let (k, b) = any_sk();
        let t = any_attrs();
        let x = xprv_of(&b, t.clone());
        sx::check(sx::same(&x.to_bytes(), &b), "the bytes of an extended private key are those of its key");
        sx::check(sx::same(&x.private_key().serialize(), &b), "the inner key is the key");
        sx::check(eq_attrs(x.attrs(), &t), "the attributes are kept");
        sx::check(sx::same(&Sk::from(&x).serialize(), &b), "conversion by reference gives the key");
        for (f, c, v) in crate::ek::KNOWN {
            let e = x.to_extended_key(f);
            sx::check((e.prefix == f) & (e.prefix.as_str() == c) & (e.prefix.version() == v), "the extended key has the prefix that was asked for");
            sx::check(eq_attrs(&e.attrs, &t) & (e.key_bytes[0] == 0) & sx::same(&e.key_bytes[1..], &b), "the extended key has the attributes, a zero byte and the key");
        }
        let p = Pk::from_secret_key(&k);
        let y = x.public_key();
        sx::check(sx::same(&y.to_bytes(), &p.serialize_compressed()), "the extended public key has the public key of the private key");
        sx::check(eq_attrs(y.attrs(), &t), "the extended public key has the same attributes");
        sx::check(sx::same(&Pk::from(&y).serialize_compressed(), &p.serialize_compressed()), "conversion by reference gives the public key");
        sx::check(sx::same(&y.public_key().serialize_compressed(), &p.serialize_compressed()), "the inner public key is the key");
        for (f, c, v) in crate::ek::KNOWN {
            let e = y.to_extended_key(f);
            sx::check((e.prefix == f) & (e.prefix.as_str() == c) & (e.prefix.version() == v), "the extended key has the prefix that was asked for");
            sx::check(eq_attrs(&e.attrs, &t) & sx::same(&e.key_bytes, &p.serialize_compressed()), "the extended key has the attributes and the compressed key");
        }
        sx::check(eq_xpub(&XPub::from(&x), &y), "conversion to a public key is public_key()");
        sx::check(sx::same(&Pk::from(y).serialize(), &p.serialize()), "conversion by value gives the public key");
        sx::check(sx::same(&Sk::from(x).serialize(), &b), "conversion by value gives the key");
        sx::cover("key");
    }
    c28_traits {
        let (k, b) = any_sk();
        sx::check(sx::same(&PrivateKey::to_bytes(&k), &b), "a private key serialises to its bytes");
        let any: [u8; 32] = sx::any();
        match <Sk as PrivateKey>::from_bytes(&any) { Ok(s) => { sx::check(scalar_ok(&any), "only keys from 1 to n-1 are private keys"); sx::check(sx::same(&PrivateKey::to_bytes(&s), &any), "a private key is its bytes"); sx::cover("valid") } Err(e) => { sx::check(!scalar_ok(&any), "every number from 1 to n-1 is a private key"); sx::check(e == Error::Crypto, "an invalid key is a cryptographic error"); sx::cover("invalid") } }
        let p = PrivateKey::public_key(&k);
        let pb = PublicKey::to_bytes(&p);
        sx::check(sx::same(&pb, &Pk::from_secret_key(&k).serialize_compressed()), "a public key serialises in compressed form");
        match <Pk as PublicKey>::from_bytes(pb) { Ok(q) => sx::check(sx::same(&PublicKey::to_bytes(&q), &pb), "a public key is its bytes"), Err(_) => sx::fail("a serialised public key is accepted") }
        let c: [u8; 33] = sx::any();
        match (<Pk as PublicKey>::from_bytes(c), Pk::parse_compressed(&c)) { (Ok(q), Ok(_)) => { sx::check(sx::same(&PublicKey::to_bytes(&q), &c), "an accepted public key is its bytes"); sx::cover("point") } (Err(e), Err(_)) => { sx::check(e == Error::Crypto, "an invalid public key is a cryptographic error"); sx::cover("no point") } _ => sx::fail("exactly the valid compressed points are accepted") }
    }
}
fn depth_path(m: u32, most: u32) {
    let (x, _, _) = any_xprv();
    let d = x.attrs().depth as usize;
    let k = sx::choose(m + most);
    let r;
    let n;
    if k < m { let (p, v) = hard_path(k + 1); n = v.len(); r = x.derive_from_path(&p).map(|c| c.attrs().depth); }
    else { let (p, v) = hard_path((2 << (k - m)) - 1); n = v.len(); r = x.public_key().derive_from_path(&p).map(|c| c.attrs().depth); }
    match r {
        Ok(e) => { sx::check(d + n <= 255, "no key below depth 255"); sx::check(e as usize == d + n, "the depth counts the steps"); sx::cover("child") }
        Err(Error::Depth) => { sx::check(d + n > 255, "only paths below depth 255 fail for their depth"); sx::cover("depth") }
        Err(_) => { sx::cover("error") }
    }
}
fn fold_prv(m: u32) {
    let (x, _, _) = any_xprv();
    let (p, v) = hard_path(sx::choose(m));
    let a = x.clone().derive_from_path(&p);
    let b = steps(x, &v);
    sx::check(eq_res(&a, &b, eq_xprv), "following a path derives child after child");
    sx::cover(if a.is_ok() { "ok" } else { "error" });
}
fn fold_pub(m: u32) {
    let (x, _) = any_xpub();
    let (p, v) = any_path(sx::choose(m) as usize);
    let a = x.clone().derive_from_path(&p);
    let b = steps_pub(x, &v);
    sx::check(eq_res(&a, &b, eq_xpub), "following a path derives child after child");
    sx::cover(if a.is_ok() { "ok" } else { "error" });
}
/// lengths of paths
const LONG: [usize; 15] = [4, 5, 6, 7, 8, 9, 10, 12, 16, 17, 20, 32, 33, 40, 64];
const LONGER: [usize; 3] = [100, 128, 255];
fn long_paths(sizes: &[usize]) {
    let n = sizes[sx::choose(sizes.len() as u32) as usize];
    let k = sx::choose(3) as usize;
    // no failure, at the second last step, at the last step, by depth
    let (fail, depth) = [(n, 0), (n - 2, 3), (n - 1, 0), (n, 0u8.wrapping_sub(n as u8)), (n, 255 - n as u8)][sx::choose(5) as usize];
    FAIL.with(|f| f.set(fail));
    let (p, v) = long_path(n, k);
    if k < 2 {
        let x = any_tprv(depth);
        let a = x.clone().derive_from_path(&p);
        let mut b = Ok(x);
        for i in v { b = b.and_then(|k| k.derive_child(ChildNumber(i))); }
        sx::check(eq_res(&a, &b, eq_t), "following a path derives child after child");
        sx::cover(if a.is_ok() { "ok" } else { "error" });
    } else {
        let x = any_tpub(depth);
        let a = x.clone().derive_from_path(&p);
        let mut b = Ok(x);
        for i in v { b = b.and_then(|k| k.derive_child(ChildNumber(i))); }
        sx::check(eq_res(&a, &b, eq_u), "following a path derives child after child");
        sx::cover(if a.is_ok() { "ok public" } else { "error" });
    }
}
fn long_paths_seed(sizes: &[usize]) {
    let n = sizes[sx::choose(sizes.len() as u32) as usize];
    let k = sx::choose(6) as usize;
    FAIL.with(|f| f.set(n - k / 2));
    let mut seed = vec![0u8; [16, 32, 64, 128][n % 4]];
    sx::any_into(&mut seed);
    let (p, v) = long_path(n, k % 2);
    let a = ExtendedPrivateKey::<Tk>::new_from_path(&seed, &p);
    let mut b = ExtendedPrivateKey::<Tk>::new(&seed);
    for i in v { b = b.and_then(|k| k.derive_child(ChildNumber(i))); }
    sx::check(eq_res(&a, &b, eq_t), "a path from a seed starts at its master key");
    sx::cover(if a.is_ok() { "ok" } else { "error" });
}
/// names used by other modules
pub fn parse_xprv(s: &str) -> Result<XPrv> { XPrv::from_str(s) }
pub fn parse_xpub(s: &str) -> Result<XPub> { XPub::from_str(s) }
