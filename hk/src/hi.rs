//! Histories (C31): what was done before does not change a result
use crate::words::*;
use crate::{cn, ek, mn, sd, xp};
use kms::bip32::*;
use kms::bip39::{Language, Mnemonic};
use ripemd::Ripemd160;
use secp::PublicKey as Pk;
use sha2::Digest;
use std::str::FromStr;

type Op = Box<dyn Fn()>;
const OPS: u32 = 12;
/// an operation with arbitrary arguments that checks its result against the standard
fn op(k: u32) -> Op {
    match k {
        // a child of a private key, of a public key
        0 => {
            let (x, i) = (xp::any_tprv(7), sx::any_u32());
            Box::new(move || xp::check_child(&x, i))
        }
        1 => {
            let (x, i) = (xp::any_tpub(7), sx::bits(31) as u32);
            Box::new(move || xp::check_child_public(&x, i))
        }
        // a master key
        2 => {
            let seed: [u8; 64] = sx::any();
            Box::new(move || {
                let h = xp::prf(b"Bitcoin seed", &[&seed]);
                match (XPrv::new(seed), xp::scalar_ok(&xp::half(&h, 0))) {
                    (Ok(x), true) => sx::check(sx::same(&x.to_bytes(), &h[..32]) & sx::same(&x.attrs().chain_code, &h[32..]), "a master key depends on the seed only"),
                    (Err(_), false) => {}
                    _ => sx::fail("whether a seed has a master key depends on the seed only"),
                }
            })
        }
        // a seed
        3 => {
            let ent: [u8; 16] = sx::any();
            let p = vec![sx::bits(6) as u8 + 32, sx::bits(6) as u8 + 32];
            Box::new(move || {
                let m = match Mnemonic::from_entropy(&ent, Language::ChineseSimplified) { Ok(m) => m, Err(_) => sx::stop() };
                sd::check_seed(&m, &m.as_bytes(), mn::text(&p), &p);
            })
        }
        // phrases
        4 | 5 => {
            let l = Language::ChineseSimplified;
            let words = list(l);
            let c = class(&words, 3);
            let (ent, ks) = mn::entropy_of(&[&c], if k == 4 { 0 } else { 2 });
            Box::new(move || {
                let m = match Mnemonic::from_entropy(&ent, l) { Ok(m) => m, Err(_) => sx::stop() };
                mn::check_phrase(m.phrase().as_bytes(), &ent, &words, &[&c], &ks);
                match Mnemonic::from_phrase(m.phrase(), l) { Ok(n) => sx::check(sx::same(n.entropy(), &ent), "decoding a phrase depends on the phrase only"), Err(_) => sx::fail("decoding a phrase depends on the phrase only") }
            })
        }
        // texts of keys
        6 => {
            let (prefix, chars, _) = ek::KNOWN[6];
            let attrs = xp::any_attrs();
            sx::assume(ek::sane(&attrs));
            let e = ExtendedKey { prefix, attrs, key_bytes: sx::any() };
            Box::new(move || {
                let t = ek::shown(&e);
                sx::check(sx::same(&t[..4], chars.as_bytes()), "the text of a key depends on the key only");
                match ExtendedKey::from_str(mn::text(&t)) {
                    Ok(f) => sx::check(f.prefix == e.prefix && xp::eq_attrs(&f.attrs, &e.attrs) && sx::same(&f.key_bytes, &e.key_bytes), "reading a key depends on the text only"),
                    Err(_) => sx::fail("reading a key depends on the text only"),
                }
            })
        }
        // paths
        7 => {
            let mut t = b"m/".to_vec();
            t.extend_from_slice(&cn::digits(2));
            t.extend_from_slice(b"'/");
            t.extend_from_slice(&cn::digits(1));
            Box::new(move || {
                let want = [cn::value(&t[2..4]) as u32 | 1 << 31, cn::value(&t[6..7]) as u32];
                match DerivationPath::from_str(mn::text(&t)) {
                    Ok(p) => { let a = p.as_ref(); sx::check(a.len() == 2 && a[0].0 == want[0] && a[1].0 == want[1], "reading a path depends on the text only") }
                    Err(_) => sx::check(t[2] == b'0', "a path of decimal numbers is read"),
                }
            })
        }
        // signatures and digests
        8 => {
            let ((s, _), m) = (xp::any_sk(), sx::any::<32>());
            Box::new(move || match kms::ecdsa_sign(&s, &m) {
                Ok((a, r)) => { let (e, f) = secp::sign(&secp::Message::parse(&m), &s); sx::check(sx::same(&a, &e.serialize()) & (r == f.serialize()), "a signature depends on the digest and the key only") }
                Err(_) => sx::fail("every digest is signed"),
            })
        }
        9 => {
            let m: [u8; 5] = sx::any();
            Box::new(move || {
                let d = Ripemd160::digest(&m);
                let t = kms::crypto::ripemd(&m);
                sx::check(t.len() == 40 && t.as_bytes()[7] == b"0123456789abcdef"[(d[3] & 15) as usize] && t.as_bytes()[38] == b"0123456789abcdef"[(d[19] >> 4) as usize], "a digest depends on the message only");
            })
        }
        // fingerprints
        10 => {
            let (x, p) = xp::any_xpub();
            Box::new(move || sx::check(sx::same(&x.fingerprint(), &xp::fp(&p.serialize_compressed())), "a fingerprint depends on the key only"))
        }
        // the public key of a private key
        _ => {
            let (x, s, _) = xp::any_xprv();
            Box::new(move || sx::check(sx::same(&x.public_key().to_bytes(), &Pk::from_secret_key(&s).serialize_compressed()) & xp::eq_attrs(x.attrs(), x.public_key().attrs()), "a public key depends on the private key only"))
        }
    }
}
sx::harness! {
    // two operations, then the first again
    c31_pairs {
        warm(Language::ChineseSimplified);
        xp::FAIL.with(|f| f.set(9));
        let k = sx::choose(OPS * OPS);
        let (a, b) = (op(k % OPS), op(k / OPS));
        a();
        b();
        a();
        sx::cover("done");
    }
    // the same kind of operation several times
    c31_many {
        warm(Language::ChineseSimplified);
        xp::FAIL.with(|f| f.set(9));
        let k = sx::choose(OPS);
        if k == 6 { sx::cover("done"); return; } // two of these in c31_pairs
        let ops: Vec<Op> = (0..3).map(|_| op(k)).collect();
        for o in ops.iter() { o(); }
        for o in ops.iter() { o(); }
        sx::cover("done");
    }
}
