//! Model of libsecp256k1.  Scalars are real arithmetic modulo the group order.
//! A point is its discrete logarithm; its SEC1 encoding is an uninterpreted
//! bijection between non-zero scalars and the valid encodings.  Signing is an
//! uninterpreted function of (message, key).
use core::convert::TryFrom;
use std::fmt;

pub mod util {
    pub const MESSAGE_SIZE: usize = 32;
    pub const SECRET_KEY_SIZE: usize = 32;
    pub const RAW_PUBLIC_KEY_SIZE: usize = 64;
    pub const FULL_PUBLIC_KEY_SIZE: usize = 65;
    pub const COMPRESSED_PUBLIC_KEY_SIZE: usize = 33;
    pub const SIGNATURE_SIZE: usize = 64;
}
#[derive(Debug, Clone, Copy, Eq, PartialEq)]
pub enum Error { InvalidSignature, InvalidPublicKey, InvalidSecretKey, InvalidRecoveryId, InvalidMessage, InvalidInputLength, TweakOutOfRange, InvalidAffine }
impl std::error::Error for Error {}
impl fmt::Display for Error {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str(match self {
            Error::InvalidSignature => "Invalid signature", Error::InvalidPublicKey => "Invalid public key", Error::InvalidSecretKey => "Invalid secret key",
            Error::InvalidRecoveryId => "Invalid recovery ID", Error::InvalidMessage => "Invalid message", Error::InvalidInputLength => "Invalid input length",
            Error::TweakOutOfRange => "Tweak out of range", Error::InvalidAffine => "Invalid Affine",
        })
    }
}

/// 256-bit numbers, most significant limb first
type U = [u64; 4];
const N: U = [0xffff_ffff_ffff_ffff, 0xffff_ffff_ffff_fffe, 0xbaae_dce6_af48_a03b, 0xbfd2_5e8c_d036_4141];
fn from_be(b: &[u8; 32]) -> U { let mut r = [0; 4]; for i in 0..4 { let mut x = [0u8; 8]; x.copy_from_slice(&b[8 * i..8 * i + 8]); r[i] = u64::from_be_bytes(x); } r }
fn to_be(a: &U) -> [u8; 32] { let mut r = [0; 32]; for i in 0..4 { r[8 * i..8 * i + 8].copy_from_slice(&a[i].to_be_bytes()); } r }
fn add(a: &U, b: &U) -> (U, bool) {
    let mut r = [0; 4]; let mut c = false;
    for i in (0..4).rev() { let (x, c1) = a[i].overflowing_add(b[i]); let (y, c2) = x.overflowing_add(c as u64); r[i] = y; c = c1 | c2; }
    (r, c)
}
fn sub(a: &U, b: &U) -> (U, bool) {
    let mut r = [0; 4]; let mut c = false;
    for i in (0..4).rev() { let (x, c1) = a[i].overflowing_sub(b[i]); let (y, c2) = x.overflowing_sub(c as u64); r[i] = y; c = c1 | c2; }
    (r, c)
}
fn lt_n(a: &U) -> bool { sub(a, &N).1 }
fn is_zero(a: &U) -> bool { a[0] | a[1] | a[2] | a[3] == 0 }
fn pick(c: bool, a: &U, b: &U) -> U { let m = (c as u64).wrapping_neg(); let mut r = [0; 4]; for i in 0..4 { r[i] = (a[i] & m) | (b[i] & !m); } r }
fn add_mod(a: &U, b: &U) -> U { let (s, c) = add(a, b); let (d, bo) = sub(&s, &N); pick(c | !bo, &d, &s) }
fn reduce(a: &U) -> U { let (d, bo) = sub(a, &N); pick(!bo, &d, a) }

#[derive(Debug, Clone, Copy, Eq, PartialEq, Default)]
pub struct Scalar(U);
impl Scalar { pub fn b32(&self) -> [u8; 32] { to_be(&self.0) } pub fn is_zero(&self) -> bool { is_zero(&self.0) } }

// the encoding of the point with discrete logarithm d: a bijection
fn encode(d: &U) -> [u8; 33] {
    let b = to_be(d);
    let mut c: [u8; 33] = sx::ufn("ecencode", &b);
    c[0] = 2 | (c[0] & 1);
    let back: [u8; 33] = sx::ufn("ecdecode", &c);
    sx::assume(back[0] & 1 == 1 && sx::same(&back[1..], &b));
    c
}
fn decode(c: &[u8; 33]) -> Option<U> {
    let r: [u8; 33] = sx::ufn("ecdecode", c);
    if r[0] & 1 == 0 { return None; }
    let mut b = [0u8; 32];
    b.copy_from_slice(&r[1..]);
    let d = from_be(&b);
    sx::assume(lt_n(&d) & !is_zero(&d));
    let back = encode(&d);
    sx::assume(sx::same(&back, c));
    Some(d)
}
fn y_of(c: &[u8; 33]) -> [u8; 32] { let mut y: [u8; 32] = sx::ufn("ecy", &c[..]); y[31] = (y[31] & 0xfe) | (c[0] & 1); y }

#[derive(Clone, Copy, Eq, PartialEq)]
pub struct PublicKey(U);
impl fmt::Debug for PublicKey { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { f.debug_tuple("PublicKey").field(&self.serialize_compressed()).finish() } }
#[derive(Debug, Clone, Copy, Eq, PartialEq)]
pub struct SecretKey(U);
#[derive(Debug, Clone, Copy, Eq, PartialEq)]
pub struct Signature { pub r: Scalar, pub s: Scalar }
#[derive(Debug, Clone, Copy, Eq, PartialEq)]
pub struct RecoveryId(u8);
#[derive(Debug, Clone, Copy, Eq, PartialEq)]
pub struct Message(pub Scalar);
pub enum PublicKeyFormat { Compressed, Full, Raw }

impl PublicKey {
    pub fn from_secret_key(k: &SecretKey) -> PublicKey { PublicKey(k.0) }
    pub fn parse_slice(p: &[u8], format: Option<PublicKeyFormat>) -> Result<PublicKey, Error> {
        match (p.len(), format) {
            (65, None) | (65, Some(PublicKeyFormat::Full)) => Self::parse(p.try_into().unwrap()),
            (33, None) | (33, Some(PublicKeyFormat::Compressed)) => Self::parse_compressed(p.try_into().unwrap()),
            (64, None) | (64, Some(PublicKeyFormat::Raw)) => { let mut a = [4u8; 65]; a[1..].copy_from_slice(p); Self::parse(&a) }
            _ => Err(Error::InvalidInputLength),
        }
    }
    pub fn parse(p: &[u8; 65]) -> Result<PublicKey, Error> {
        if !(p[0] == 4 || p[0] == 6 || p[0] == 7) { return Err(Error::InvalidPublicKey); }
        let odd = p[64] & 1;
        if p[0] != 4 && odd != p[0] & 1 { return Err(Error::InvalidPublicKey); }
        let mut c = [0u8; 33];
        c[0] = 2 | odd;
        c[1..].copy_from_slice(&p[1..33]);
        let k = Self::parse_compressed(&c)?;
        if sx::same(&y_of(&c), &p[33..]) { Ok(k) } else { Err(Error::InvalidPublicKey) }
    }
    pub fn parse_compressed(p: &[u8; 33]) -> Result<PublicKey, Error> {
        if p[0] & 0xfe != 2 { return Err(Error::InvalidPublicKey); }
        match decode(p) { Some(d) => Ok(PublicKey(d)), None => Err(Error::InvalidPublicKey) }
    }
    pub fn serialize(&self) -> [u8; 65] {
        let c = encode(&self.0);
        let mut r = [4u8; 65];
        r[1..33].copy_from_slice(&c[1..]);
        r[33..].copy_from_slice(&y_of(&c));
        r
    }
    pub fn serialize_compressed(&self) -> [u8; 33] { encode(&self.0) }
    pub fn tweak_add_assign(&mut self, t: &SecretKey) -> Result<(), Error> {
        let s = add_mod(&self.0, &t.0);
        if is_zero(&s) { return Err(Error::TweakOutOfRange); }
        self.0 = s;
        Ok(())
    }
    pub fn tweak_mul_assign(&mut self, t: &SecretKey) -> Result<(), Error> { self.0 = mul(&self.0, &t.0); Ok(()) }
    pub fn combine(keys: &[PublicKey]) -> Result<Self, Error> {
        let mut s = [0; 4];
        for k in keys { s = add_mod(&s, &k.0); }
        if is_zero(&s) { Err(Error::InvalidPublicKey) } else { Ok(PublicKey(s)) }
    }
}
/// some non-zero product (commutative)
fn mul(a: &U, b: &U) -> U {
    let sw = sub(a, b).1;
    let (x, y) = (pick(sw, a, b), pick(sw, b, a));
    let mut i = to_be(&x).to_vec();
    i.extend_from_slice(&to_be(&y));
    let r = from_be(&sx::ufn("ecmul", &i));
    sx::assume(lt_n(&r) & !is_zero(&r));
    r
}
impl SecretKey {
    pub fn parse(p: &[u8; 32]) -> Result<SecretKey, Error> {
        let k = from_be(p);
        if lt_n(&k) & !is_zero(&k) { Ok(SecretKey(k)) } else { Err(Error::InvalidSecretKey) }
    }
    pub fn parse_slice(p: &[u8]) -> Result<SecretKey, Error> { if p.len() != 32 { return Err(Error::InvalidInputLength); } Self::parse(p.try_into().unwrap()) }
    pub fn random<R: rand::Rng>(rng: &mut R) -> SecretKey { loop { let mut b = [0u8; 32]; rng.fill_bytes(&mut b); if let Ok(k) = Self::parse(&b) { return k; } } }
    pub fn serialize(&self) -> [u8; 32] { to_be(&self.0) }
    pub fn tweak_add_assign(&mut self, t: &SecretKey) -> Result<(), Error> {
        let s = add_mod(&self.0, &t.0);
        if is_zero(&s) { return Err(Error::TweakOutOfRange); }
        self.0 = s;
        Ok(())
    }
    pub fn tweak_mul_assign(&mut self, t: &SecretKey) -> Result<(), Error> { self.0 = mul(&self.0, &t.0); Ok(()) }
    pub fn inv(&self) -> Self { let r = from_be(&sx::ufn("ecinv", &to_be(&self.0))); sx::assume(lt_n(&r) & !is_zero(&r)); SecretKey(r) }
}
impl Default for SecretKey { fn default() -> Self { SecretKey([0, 0, 0, 1]) } }
impl Into<Scalar> for SecretKey { fn into(self) -> Scalar { Scalar(self.0) } }
impl TryFrom<Scalar> for SecretKey { type Error = Error; fn try_from(s: Scalar) -> Result<Self, Error> { if s.is_zero() { Err(Error::InvalidSecretKey) } else { Ok(SecretKey(s.0)) } } }
impl fmt::LowerHex for SecretKey { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { for b in self.serialize() { write!(f, "{:02x}", b)?; } Ok(()) } }

impl Signature {
    pub fn parse_overflowing(p: &[u8; 64]) -> Signature { Signature { r: Scalar(reduce(&from_be(p[..32].try_into().unwrap()))), s: Scalar(reduce(&from_be(p[32..].try_into().unwrap()))) } }
    pub fn parse_standard(p: &[u8; 64]) -> Result<Signature, Error> {
        let (r, s) = (from_be(p[..32].try_into().unwrap()), from_be(p[32..].try_into().unwrap()));
        if lt_n(&r) & lt_n(&s) { Ok(Signature { r: Scalar(r), s: Scalar(s) }) } else { Err(Error::InvalidSignature) }
    }
    pub fn serialize(&self) -> [u8; 64] { let mut o = [0; 64]; o[..32].copy_from_slice(&to_be(&self.r.0)); o[32..].copy_from_slice(&to_be(&self.s.0)); o }
    pub fn normalize_s(&mut self) {}
}
impl Message {
    pub fn parse(p: &[u8; 32]) -> Message { Message(Scalar(reduce(&from_be(p)))) }
    pub fn parse_slice(p: &[u8]) -> Result<Message, Error> { if p.len() != 32 { return Err(Error::InvalidInputLength); } let mut a = [0; 32]; a.copy_from_slice(p); Ok(Self::parse(&a)) }
    pub fn serialize(&self) -> [u8; 32] { to_be(&self.0 .0) }
}
impl RecoveryId {
    pub fn parse(p: u8) -> Result<RecoveryId, Error> { if p < 4 { Ok(RecoveryId(p)) } else { Err(Error::InvalidRecoveryId) } }
    pub fn parse_rpc(p: u8) -> Result<RecoveryId, Error> { if p >= 27 && p < 31 { Self::parse(p - 27) } else { Err(Error::InvalidRecoveryId) } }
    pub fn serialize(&self) -> u8 { self.0 }
}
impl Into<u8> for RecoveryId { fn into(self) -> u8 { self.0 } }
impl Into<i32> for RecoveryId { fn into(self) -> i32 { self.0 as i32 } }
/// signing: r, s < n (the low s), recovery id 0..3
pub fn sign(m: &Message, k: &SecretKey) -> (Signature, RecoveryId) {
    let mut i = m.serialize().to_vec();
    i.extend_from_slice(&k.serialize());
    let o: [u8; 65] = sx::ufn("ecsign", &i);
    let r = from_be(o[..32].try_into().unwrap());
    let s = from_be(o[32..64].try_into().unwrap());
    sx::assume(lt_n(&r) & lt_n(&s) & !is_zero(&r) & !is_zero(&s));
    (Signature { r: Scalar(r), s: Scalar(s) }, RecoveryId(o[64] & 3))
}
pub fn verify(m: &Message, s: &Signature, k: &PublicKey) -> bool { let (g, _) = sign(m, &SecretKey(k.0)); sx::same(&g.serialize(), &s.serialize()) }
