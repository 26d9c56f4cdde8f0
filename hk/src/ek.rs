//! Serialised extended keys (C17-C19), prefixes (C23), zeroisation (C27)
use crate::xp::*;
use kms::bip32::*;
use secp::PublicKey as Pk;
use std::fmt::Write;
use std::str::FromStr;

pub const KNOWN: [(Prefix, &str, u32); 8] = [
    (Prefix::XPRV, "xprv", 0x0488_ade4), (Prefix::XPUB, "xpub", 0x0488_b21e), (Prefix::TPRV, "tprv", 0x0435_8394), (Prefix::TPUB, "tpub", 0x0435_87cf),
    (Prefix::YPRV, "yprv", 0x049d_7878), (Prefix::YPUB, "ypub", 0x049d_7cb2), (Prefix::ZPRV, "zprv", 0x04b2_430c), (Prefix::ZPUB, "zpub", 0x04b2_4746),
];
/// the 78 bytes of the standard
pub fn payload(version: u32, a: &ExtendedKeyAttrs, key: &[u8]) -> Vec<u8> {
    let mut v = version.to_be_bytes().to_vec();
    v.push(a.depth);
    v.extend_from_slice(&a.parent_fingerprint);
    v.extend_from_slice(&a.child_number.0.to_be_bytes());
    v.extend_from_slice(&a.chain_code);
    v.extend_from_slice(key);
    v
}
pub fn encode(p: &[u8]) -> String {
    let mut b = [0u8; 160];
    let n = match bs58::encode(p).with_check().into(&mut b[..]) { Ok(n) => n, Err(_) => sx::stop() };
    text(&b[..n]).to_string()
}
fn decode(t: &str) -> Option<Vec<u8>> {
    let mut b = [0u8; 200];
    match bs58::decode(t).with_check(None).into(&mut b[..]) { Ok(n) => Some(b[..n].to_vec()), Err(_) => None }
}
/// not a master key with a parent
pub fn sane(a: &ExtendedKeyAttrs) -> bool { (a.depth != 0) | (sx::same(&a.parent_fingerprint, &[0; 4]) & (a.child_number.0 == 0)) }
pub fn priv_key(b: &[u8; 32]) -> [u8; 33] { let mut k = [0u8; 33]; k[1..].copy_from_slice(b); k }
fn text(b: &[u8]) -> &str { unsafe { std::str::from_utf8_unchecked(b) } }
struct Out(Vec<u8>);
impl Write for Out { fn write_str(&mut self, s: &str) -> std::fmt::Result { self.0.extend_from_slice(s.as_bytes()); Ok(()) } }
pub fn shown(e: &impl std::fmt::Display) -> Vec<u8> { let mut o = Out(Vec::with_capacity(128)); let _ = write!(o, "{}", e); o.0 }
/// content of a freed block
fn freed(id: u32, at: usize, n: usize) -> bool {
    let mut b = [0u8; 600];
    let r = sx::watch_get(id, &mut b);
    let mut z = 0u8;
    for i in 0..n { z |= b[at + i]; }
    r.is_some() & (z == 0)
}

sx::harness! {
    // ---- C17: layout ----
    c17_raw {
        let k = sx::choose(9) as usize;
        let prefix = if k == 8 { Prefix::from_parts_unchecked("Ltub", sx::any_u32()) } else { KNOWN[k].0 };
        let version = if k == 8 { prefix.version() } else { KNOWN[k].2 };
        let attrs = any_attrs();
        let key_bytes: [u8; 33] = sx::any();
        let want = encode(&payload(version, &attrs, &key_bytes));
        let e = ExtendedKey { prefix, attrs, key_bytes };
        // whatever the caller's buffer held before
        let mut buf: [u8; ExtendedKey::MAX_BASE58_SIZE] = sx::any();
        match e.write_base58(&mut buf) {
            Ok(s) => sx::check(sx::same(s.as_bytes(), want.as_bytes()), "an extended key is written as Base58Check of version, depth, fingerprint, child number, chain code and key"),
            Err(_) => sx::fail("every extended key can be written"),
        }
        sx::check(sx::same(&shown(&e), want.as_bytes()), "Display writes the same text");
        sx::check(sx::same(&shown(&e.clone()), want.as_bytes()), "a clone is written in the same way");
        sx::cover("written");
    }
    c17_prv {
        let (p, _, v) = KNOWN[sx::choose(8) as usize];
        let (x, _, b) = any_xprv();
        let want = encode(&payload(v, x.attrs(), &priv_key(&b)));
        sx::check(sx::same(x.to_string(p).as_bytes(), want.as_bytes()), "a private key is written with a zero byte before the key");
        let e = x.to_extended_key(p);
        sx::check(sx::same(&e.key_bytes, &priv_key(&b)), "the key field is a zero byte and the private key");
        sx::check(eq_attrs(&e.attrs, x.attrs()), "the attributes are those of the key");
        sx::check(sx::same(&shown(&e), want.as_bytes()), "both ways of writing agree");
        sx::cover("written");
    }
    c17_pub {
        let (p, _, v) = KNOWN[sx::choose(8) as usize];
        let (x, k) = any_xpub();
        let want = encode(&payload(v, x.attrs(), &k.serialize_compressed()));
        sx::check(sx::same(x.to_string(p).as_bytes(), want.as_bytes()), "a public key is written in compressed form");
        let e = x.to_extended_key(p);
        sx::check(sx::same(&e.key_bytes, &k.serialize_compressed()), "the key field is the compressed public key");
        sx::check(eq_attrs(&e.attrs, x.attrs()), "the attributes are those of the key");
        sx::check(sx::same(&shown(&e), want.as_bytes()), "both ways of writing agree");
        sx::cover("written");
    }
    // ---- C18: what is written can be read ----
    c18_raw {
        let (prefix, _, _) = KNOWN[sx::choose(8) as usize];
        let attrs = any_attrs();
        sx::assume(sane(&attrs));
        let e = ExtendedKey { prefix, attrs, key_bytes: sx::any() };
        let t = shown(&e);
        match ExtendedKey::from_str(text(&t)) {
            Ok(f) => {
                sx::check(f.prefix == e.prefix, "the prefix survives writing and reading");
                sx::check(eq_attrs(&f.attrs, &e.attrs), "the attributes survive writing and reading");
                sx::check(sx::same(&f.key_bytes, &e.key_bytes), "the key survives writing and reading");
                sx::check(sx::same(&shown(&f), &t), "a key that was read is written as before");
                sx::cover("read");
            }
            Err(_) => sx::fail("a written extended key can be read"),
        }
    }
    c18_prv {
        let k = sx::choose(4) as usize * 2;
        let (x, _, _) = any_xprv();
        sx::assume(sane(x.attrs()));
        let t = x.to_string(KNOWN[k].0);
        match parse_xprv(&t) { Ok(y) => { sx::check(eq_xprv(&x, &y), "an extended private key survives writing and reading"); sx::cover("read") } Err(_) => sx::fail("a written extended private key can be read") }
        sx::check(parse_xpub(&t).is_err(), "a private key is not a public key");
    }
    c18_pub {
        let k = sx::choose(4) as usize * 2 + 1;
        let (x, _) = any_xpub();
        sx::assume(sane(x.attrs()));
        let t = x.to_string(KNOWN[k].0);
        match parse_xpub(&t) { Ok(y) => { sx::check(eq_xpub(&x, &y), "an extended public key survives writing and reading"); sx::cover("read") } Err(_) => sx::fail("a written extended public key can be read") }
        sx::check(parse_xprv(&t).is_err(), "a public key is not a private key");
    }
    // a derived key survives, too
    c18_child {
        let (x, _, _) = any_xprv();
        let c = match x.derive_child(ChildNumber(sx::any_u32())) { Ok(c) => c, Err(_) => return };
        match parse_xprv(&c.to_string(Prefix::XPRV)) { Ok(y) => { sx::check(eq_xprv(&c, &y), "a child survives writing and reading"); sx::cover("read") } Err(_) => sx::fail("a written child can be read") }
    }
    // ---- C19: which texts are keys ----
    c19_import {
        let k = sx::choose(16) as usize;
        let (_, chars, version) = KNOWN[k % 8];
        let attrs = any_attrs();
        let key: [u8; 33] = sx::any();
        let p = payload(version, &attrs, &key);
        let t = encode(&p);
        let ok = sane(&attrs);
        match ExtendedKey::from_str(&t) {
            Ok(e) => {
                sx::check(ok, "a master key with a parent is refused");
                sx::check(e.prefix.as_str() == chars && e.prefix.version() == version, "the prefix is that of the version");
                sx::check(eq_attrs(&e.attrs, &attrs), "depth, fingerprint, child number and chain code are read from their places");
                sx::check(sx::same(&e.key_bytes, &key), "the key is read from its place");
                sx::cover("extended key");
            }
            Err(_) => sx::check(!ok, "a well-formed extended key is read"),
        }
        if k < 8 {
            let mut b = [0u8; 32];
            b.copy_from_slice(&key[1..]);
            let good = ok & (k % 2 == 0) & (key[0] == 0) & scalar_ok(&b);
            match parse_xprv(&t) {
                Ok(x) => { sx::check(good, "only a private version, a zero byte and a valid key make an extended private key"); sx::check(eq_attrs(x.attrs(), &attrs) & sx::same(&x.to_bytes(), &b), "the private key is the one in the text"); sx::cover("private") }
                Err(_) => { sx::check(!good, "a valid extended private key is read"); sx::cover("not private") }
            }
        } else {
            let valid = Pk::parse_compressed(&key).is_ok();
            let good = ok & (k % 2 == 1) & valid;
            match parse_xpub(&t) {
                Ok(x) => { sx::check(good, "only a public version and a valid point make an extended public key"); sx::check(eq_attrs(x.attrs(), &attrs) & sx::same(&x.to_bytes(), &key), "the public key is the one in the text"); sx::cover("public") }
                Err(_) => { sx::check(!good, "a valid extended public key is read"); sx::cover("not public") }
            }
        }
    }
    // Base58Check of payloads of other sizes
    c19_size {
        let n = sx::choose(100) as usize;
        let mut p = vec![0u8; n];
        sx::any_into(&mut p);
        let (_, _, v) = KNOWN[n % 8];
        for (d, s) in p.iter_mut().zip(v.to_be_bytes()) { *d = s; }
        if n == 78 { return; }
        let t = encode(&p);
        sx::check(ExtendedKey::from_str(&t).is_err(), "a payload of another size is refused");
        sx::check(parse_xprv(&t).is_err() && parse_xpub(&t).is_err(), "a payload of another size is no key");
        sx::cover("size");
    }
    // arbitrary text
    c19_text {
        let n = sx::choose(126) as usize;
        let n = if n < 120 { n } else { [128, 160, 222, 255, 256, 400][n - 120] };
        let mut t = vec![0u8; n];
        for c in t.iter_mut() { *c = sx::any_u8(); sx::assume(*c < 128); }
        let t = text(&t);
        let want = decode(t);
        let r = ExtendedKey::from_str(t);
        match want {
            None => { sx::check(r.is_err(), "text that is not Base58Check is refused"); sx::check(parse_xprv(t).is_err() && parse_xpub(t).is_err(), "text that is not Base58Check is no key"); sx::cover("base58") }
            Some(p) => {
                if p.len() != 78 { sx::check(r.is_err(), "a payload of another size is refused"); sx::check(parse_xprv(t).is_err() && parse_xpub(t).is_err(), "a payload of another size is no key"); sx::cover("size"); return; }
                if let Ok(e) = r { sx::check(sx::same(&payload(e.prefix.version(), &e.attrs, &e.key_bytes), &p), "the fields read are those of the payload"); sx::cover("read") } else { sx::cover("refused") }
            }
        }
    }
    // text with characters that are not ASCII
    c19_wide {
        let k = sx::choose(6) as usize;
        let mut t = vec![b'x'; k];
        t.extend_from_slice(&[0xc3, 0x80 | sx::bits(6) as u8]);
        for _ in 0..3 { t.push(b'1' + sx::bits(3) as u8); }
        sx::check(ExtendedKey::from_str(text(&t)).is_err(), "text that is not ASCII is refused");
        sx::check(parse_xprv(text(&t)).is_err() && parse_xpub(text(&t)).is_err(), "text that is not ASCII is no key");
        sx::cover("refused");
    }
    // conversion of the parts
    c19_parts {
        let k = sx::choose(16) as usize;
        let attrs = any_attrs();
        let key_bytes: [u8; 33] = sx::any();
        let e = ExtendedKey { prefix: KNOWN[k % 8].0, attrs: attrs.clone(), key_bytes };
        if k < 8 {
            let mut b = [0u8; 32];
            b.copy_from_slice(&key_bytes[1..]);
            let good = (k % 2 == 0) & (key_bytes[0] == 0) & scalar_ok(&b);
            match XPrv::try_from(e) { Ok(x) => { sx::check(good, "only a private prefix, a zero byte and a valid key make an extended private key"); sx::check(eq_attrs(x.attrs(), &attrs) & sx::same(&x.to_bytes(), &b), "the parts are kept"); sx::cover("private") } Err(e) => { sx::check(!good, "valid parts make an extended private key"); sx::check(e == Error::Crypto, "invalid parts are a cryptographic error"); sx::cover("not private") } }
        } else {
            let good = (k % 2 == 1) & Pk::parse_compressed(&key_bytes).is_ok();
            match XPub::try_from(e) { Ok(x) => { sx::check(good, "only a public prefix and a valid point make an extended public key"); sx::check(eq_attrs(x.attrs(), &attrs) & sx::same(&x.to_bytes(), &key_bytes), "the parts are kept"); sx::cover("public") } Err(e) => { sx::check(!good, "valid parts make an extended public key"); sx::check(e == Error::Crypto, "invalid parts are a cryptographic error"); sx::cover("not public") } }
        }
    }
    // ---- C23: prefixes ----
    c23_known {
        let k = sx::choose(8) as usize;
        let (p, s, v) = KNOWN[k];
        sx::check(p.as_str() == s && p.version() == v, "a constant prefix has its standard characters and version");
        sx::check(sx::same(&p.to_bytes(), &v.to_be_bytes()), "the version is written big-endian");
        sx::check(p.is_private() == (k % 2 == 0) && p.is_public() == (k % 2 == 1), "prv is private and pub is public");
        sx::check(Version::from(p) == v && Version::from(&p) == v, "a prefix converts to its version");
        sx::check(AsRef::<str>::as_ref(&p) == s, "a prefix is its characters");
        sx::check(sx::same(&shown(&p), s.as_bytes()), "a prefix is shown as its characters");
        sx::check(Prefix::try_from(v) == Ok(p), "a known version gives the constant prefix");
        sx::check(Prefix::from_bytes(v.to_be_bytes()) == Ok(p), "known version bytes give the constant prefix");
        sx::check(Prefix::try_from(&v.to_be_bytes()[..]) == Ok(p), "a slice with a known version gives the constant prefix");
        sx::cover("known");
    }
    c23_any {
        let b: [u8; 4] = sx::any();
        let v = u32::from_be_bytes(b);
        match (Prefix::try_from(v), Prefix::from_bytes(b), Prefix::try_from(&b[..])) {
            (Ok(p), Ok(q), Ok(r)) => {
                sx::check(p.version() == v, "a prefix made from a version has that version");
                sx::check((p == q) & (p == r), "a version and its bytes give the same prefix");
                sx::check(sx::same(&p.to_bytes(), &b), "the bytes of a prefix are those of its version");
                for (c, _, w) in KNOWN { sx::check((p == c) == (v == w), "a prefix is that of a known version exactly if it was made from it"); }
                sx::cover("ok");
            }
            (Err(_), Err(_), Err(_)) => { for (_, _, w) in KNOWN { sx::check(v != w, "the known versions have prefixes"); } sx::cover("err") }
            _ => sx::fail("a version and its bytes are accepted alike"),
        }
    }
    // the characters of a version are those its keys start with
    c23_chars {
        let v = sx::any_u32();
        let mut p = [0u8; 78];
        p[..4].copy_from_slice(&v.to_be_bytes());
        let t = encode(&p);
        let c = &t.as_bytes()[..4];
        let mut letters = 1u8;
        for x in c { letters &= ((*x >= b'a') & (*x <= b'z') | (*x >= b'A') & (*x <= b'Z')) as u8; }
        match Prefix::try_from(v) {
            Ok(p) => {
                sx::check(letters == 1, "only versions of four letters are prefixes");
                sx::check(sx::same(p.as_str().as_bytes(), c), "the characters of a prefix are those its keys start with");
                sx::check(p.is_private() == sx::same(&c[1..], b"prv") && p.is_public() == sx::same(&c[1..], b"pub"), "private and public prefixes are told by their characters");
                sx::cover("prefix");
            }
            Err(_) => { sx::check(letters == 0, "every version of four letters is a prefix"); sx::cover("no prefix") }
        }
    }
    c23_slice {
        let n = sx::choose(10) as usize;
        let mut b = vec![4u8; n];
        sx::any_into(&mut b);
        if n == 4 { return; }
        sx::check(Prefix::try_from(&b[..]).is_err(), "only four bytes are a version");
        sx::cover("size");
    }
    // private and public by the characters
    c23_kind {
        let mut c = [0u8; 4];
        for x in c.iter_mut() { *x = sx::any_u8(); sx::assume((*x >= b'a' && *x <= b'z') || (*x >= b'A' && *x <= b'Z')); }
        let p = Prefix::from_parts_unchecked(text(&c), 7);
        let (prv, pb) = (sx::same(&c[1..], b"prv"), sx::same(&c[1..], b"pub"));
        sx::check(p.is_private() == prv, "private prefixes are those that end in prv");
        sx::check(p.is_public() == pb, "public prefixes are those that end in pub");
        sx::check(sx::same(p.as_str().as_bytes(), &c), "a prefix keeps its characters");
        sx::cover("kind");
    }
    // ---- C27: secrets are erased ----
    c27_seed {
        use kms::bip39::*;
        let l = Language::ChineseSimplified;
        crate::words::warm(l);
        let mut ent = [0u8; 16];
        sx::any_into(&mut ent);
        let m = match Mnemonic::from_entropy(&ent, l) { Ok(m) => m, Err(_) => sx::stop() };
        let s = Seed::new(&m, "pass");
        let t = s.clone();
        let (a, b) = (sx::watch(s.as_bytes().as_ptr()), sx::watch(t.as_bytes().as_ptr()));
        drop(s);
        sx::check(freed(a, 0, 64), "a seed is erased when it is dropped");
        sx::check(sx::same(t.as_bytes(), Seed::new(&m, "pass").as_bytes()), "dropping a seed leaves its clone alone");
        drop(t);
        sx::check(freed(b, 0, 64), "a clone of a seed is erased when it is dropped");
        sx::cover("dropped");
    }
    c27_mnemonic {
        use kms::bip39::*;
        let l = Language::ChineseSimplified;
        crate::words::warm(l);
        let k = sx::choose(10) as usize;
        let (nw, nb) = crate::words::SIZES[k % 5];
        let mut ent = vec![0u8; nb];
        sx::any_into(&mut ent);
        let m = match Mnemonic::from_entropy(&ent, l) { Ok(m) => m, Err(_) => sx::stop() };
        let m = if k < 5 { m } else { match Mnemonic::from_phrase(m.phrase(), l) { Ok(m) => m, Err(_) => sx::stop() } };
        let c = m.clone();
        let w = [sx::watch(m.phrase().as_ptr()), sx::watch(m.entropy().as_ptr()), sx::watch(c.phrase().as_ptr()), sx::watch(c.entropy().as_ptr())];
        drop(m);
        sx::check(freed(w[0], 0, nw * 4 - 1), "the phrase of a mnemonic is erased when it is dropped");
        sx::check(freed(w[1], 0, nb), "the entropy of a mnemonic is erased when it is dropped");
        sx::check(sx::same(c.entropy(), &ent) && c.phrase().len() == nw * 4 - 1 && c.phrase().as_bytes()[3] == b' ', "dropping a mnemonic leaves its clone alone");
        if k % 2 == 0 {
            drop(c);
            sx::check(freed(w[2], 0, nw * 4 - 1), "the phrase of a clone is erased when it is dropped");
        } else {
            let p = c.into_phrase();
            sx::check(p.len() == nw * 4 - 1, "the phrase is handed out");
            sx::check(!freed(w[2], 0, 0), "the phrase that is handed out is not freed");
        }
        sx::check(freed(w[3], 0, nb), "the entropy of a clone is erased when it is dropped");
        sx::cover("dropped");
    }
    c27_key {
        let k = sx::choose(9) as usize;
        let prefix = if k < 4 { KNOWN[2 * k].0 } else { Prefix::from_parts_unchecked(["Ltpv", "uprv", "vprv", "dgpv", "Zprv"][k - 4], sx::any_u32()) };
        let attrs = any_attrs();
        let mut key_bytes: [u8; 33] = sx::any();
        key_bytes[0] = 0;
        let e = Box::new(ExtendedKey { prefix, attrs, key_bytes });
        let base = &*e as *const ExtendedKey as *const u8;
        let at = e.key_bytes.as_ptr() as usize - base as usize;
        let w = sx::watch(base);
        drop(e);
        sx::check(freed(w, at, 33), "the key in a serialised extended key is erased when it is dropped");
        sx::cover("dropped");
    }
    // the text of a private key erases itself
    c27_text {
        let (x, _, _) = any_xprv();
        let k = sx::choose(5) as usize;
        let t = x.to_string(if k < 4 { KNOWN[2 * k].0 } else { Prefix::from_parts_unchecked("Ltpv", sx::any_u32()) });
        let n = t.len();
        let w = sx::watch(t.as_ptr());
        drop(t);
        sx::check(freed(w, 0, n), "the text of an extended private key is erased when it is dropped");
        sx::cover("dropped");
    }
}
