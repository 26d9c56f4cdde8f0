//! Model of bs58 (Base58Check only): encoding is an uninterpreted injective
//! function of the payload.  Kept exact: which characters may occur, the length
//! (111) of the encoding of a 78-byte payload with a known version, and the four
//! characters such a version starts with.
use std::cell::RefCell;

pub const CHECKSUM_LEN: usize = 4;
const ALPHA: &[u8; 58] = b"123456789ABCDEFGHJKLMNPQRSTUVWXYZabcdefghijkmnopqrstuvwxyz";
static CHARS: [u8; 64] = *b"123456789ABCDEFGHJKLMNPQRSTUVWXYZabcdefghijkmnopqrstuvwxyz123456";
static OK: [u8; 256] = { let mut t = [0u8; 256]; let mut i = 0; while i < 58 { t[ALPHA[i] as usize] = 1; i += 1; } t };
/// version bytes, and the characters a 78-byte payload with them starts with
static VERSIONS: [([u8; 4], [u8; 4]); 8] = [
    ([0x04, 0x35, 0x83, 0x94], *b"tprv"), ([0x04, 0x35, 0x87, 0xcf], *b"tpub"),
    ([0x04, 0x88, 0xad, 0xe4], *b"xprv"), ([0x04, 0x88, 0xb2, 0x1e], *b"xpub"),
    ([0x04, 0x9d, 0x78, 0x78], *b"yprv"), ([0x04, 0x9d, 0x7c, 0xb2], *b"ypub"),
    ([0x04, 0xb2, 0x43, 0x0c], *b"zprv"), ([0x04, 0xb2, 0x47, 0x46], *b"zpub"),
];
/// every (payload, text) pair seen so far: the two determine each other
thread_local! { static SEEN: RefCell<Vec<(Vec<u8>, Vec<u8>)>> = const { RefCell::new(Vec::new()) }; }

fn encode_text(p: &[u8]) -> Vec<u8> {
    if let Some(t) = SEEN.with(|s| s.borrow().iter().find(|e| e.0.len() == p.len() && sx::same(&e.0, p)).map(|e| e.1.clone())) { return t; }
    let n = if p.len() == 78 { 111 } else { (p.len() + 4) * 138 / 100 + 1 };
    let mut t = vec![0u8; n];
    sx::uf("b58encode", p, &mut t);
    for c in t.iter_mut() { *c = CHARS[(*c & 63) as usize]; }
    if p.len() == 78 {
        for (v, chars) in VERSIONS.iter() { if sx::same(&p[..4], v) { t[..4].copy_from_slice(chars); break; } }
    }
    // the text decodes to the payload
    let mut d = vec![0u8; p.len() + 5];
    sx::uf("b58decode", &t, &mut d);
    sx::assume(sx::same(&d[5..], p) && d[0] == 0);
    SEEN.with(|s| s.borrow_mut().push((p.to_vec(), t.clone())));
    t
}
/// the payload followed by the checksum
fn decode_text(t: &[u8]) -> Result<(Vec<u8>, [u8; 4]), decode::Error> {
    if let Some(p) = SEEN.with(|s| s.borrow().iter().find(|e| e.1.len() == t.len() && sx::same(&e.1, t)).map(|e| e.0.clone())) {
        return Ok((p, sx::ufn("b58checksum", t)));
    }
    let mut ok = 1u8;
    for c in t { ok &= OK[*c as usize]; }
    if ok == 0 { return Err(decode::Error::InvalidCharacter { character: '?', index: 0 }); }
    // which length the payload has is a function of the text
    let [l, bad] = sx::ufn::<2>("b58length", t);
    if bad & 1 != 0 { return Err(decode::Error::InvalidChecksum { checksum: [0; 4], expected_checksum: [0; 4] }); }
    let n = match l { 0 => 77usize, 1 => 79, 2 => 0, _ => 78 };
    let mut d = vec![0u8; n + 5];
    sx::uf("b58decode", t, &mut d);
    sx::assume(d[0] == 0);
    let p = d[5..].to_vec();
    SEEN.with(|s| s.borrow_mut().push((p.clone(), t.to_vec())));
    Ok((p, sx::ufn("b58checksum", t)))
}

pub struct Alphabet(());
impl Alphabet { pub const DEFAULT: &'static Self = &Alphabet(()); pub const BITCOIN: &'static Self = &Alphabet(()); }
pub fn decode<I: AsRef<[u8]>>(input: I) -> decode::DecodeBuilder<I> { decode::DecodeBuilder { input, check: false, ver: None } }
pub fn encode<I: AsRef<[u8]>>(input: I) -> encode::EncodeBuilder<I> { encode::EncodeBuilder { input, check: false, ver: None } }

pub mod encode {
    use core::fmt;
    pub struct EncodeBuilder<I: AsRef<[u8]>> { pub(crate) input: I, pub(crate) check: bool, pub(crate) ver: Option<u8> }
    #[derive(Copy, Clone, Debug, Eq, PartialEq)]
    #[non_exhaustive]
    pub enum Error { BufferTooSmall }
    impl std::error::Error for Error {}
    impl fmt::Display for Error { fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result { f.write_str("buffer too small") } }
    pub type Result<T> = core::result::Result<T, Error>;
    pub trait EncodeTarget { fn put(&mut self, t: &[u8]) -> Result<usize>; }
    impl<T: EncodeTarget + ?Sized> EncodeTarget for &mut T { fn put(&mut self, t: &[u8]) -> Result<usize> { T::put(self, t) } }
    impl EncodeTarget for Vec<u8> { fn put(&mut self, t: &[u8]) -> Result<usize> { self.clear(); self.extend_from_slice(t); Ok(t.len()) } }
    impl EncodeTarget for String { fn put(&mut self, t: &[u8]) -> Result<usize> { *self = unsafe { String::from_utf8_unchecked(t.to_vec()) }; Ok(t.len()) } }
    impl EncodeTarget for [u8] { fn put(&mut self, t: &[u8]) -> Result<usize> { if self.len() < t.len() { return Err(Error::BufferTooSmall); } self[..t.len()].copy_from_slice(t); Ok(t.len()) } }
    impl<const N: usize> EncodeTarget for [u8; N] { fn put(&mut self, t: &[u8]) -> Result<usize> { self[..].put(t) } }
    impl EncodeTarget for str { fn put(&mut self, t: &[u8]) -> Result<usize> { unsafe { self.as_bytes_mut() }.put(t) } }
    impl<I: AsRef<[u8]>> EncodeBuilder<I> {
        pub fn with_alphabet(self, _: &crate::Alphabet) -> Self { self }
        pub fn with_check(self) -> Self { EncodeBuilder { check: true, ..self } }
        pub fn with_check_version(self, v: u8) -> Self { EncodeBuilder { check: true, ver: Some(v), ..self } }
        fn text(&self) -> Vec<u8> {
            let p = self.input.as_ref();
            if !self.check { let mut t = vec![0u8; p.len() * 138 / 100 + 1]; sx::uf("b58plain", p, &mut t); for c in t.iter_mut() { *c = crate::CHARS[(*c & 63) as usize]; } return t; }
            let mut q = vec![]; if let Some(v) = self.ver { q.push(v); } q.extend_from_slice(p);
            crate::encode_text(&q)
        }
        pub fn into_string(self) -> String { unsafe { String::from_utf8_unchecked(self.text()) } }
        pub fn into_vec(self) -> Vec<u8> { self.text() }
        pub fn into(self, mut output: impl EncodeTarget) -> Result<usize> { output.put(&self.text()) }
    }
}
pub mod decode {
    use core::fmt;
    pub struct DecodeBuilder<I: AsRef<[u8]>> { pub(crate) input: I, pub(crate) check: bool, pub(crate) ver: Option<u8> }
    pub type Result<T> = core::result::Result<T, Error>;
    #[derive(Copy, Clone, Debug, Eq, PartialEq)]
    #[non_exhaustive]
    pub enum Error {
        BufferTooSmall,
        InvalidCharacter { character: char, index: usize },
        NonAsciiCharacter { index: usize },
        InvalidChecksum { checksum: [u8; 4], expected_checksum: [u8; 4] },
        InvalidVersion { ver: u8, expected_ver: u8 },
        NoChecksum,
    }
    impl std::error::Error for Error {}
    impl fmt::Display for Error { fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result { f.write_str("base58 error") } }
    impl<I: AsRef<[u8]>> DecodeBuilder<I> {
        pub fn with_alphabet(self, _: &crate::Alphabet) -> Self { self }
        pub fn with_check(self, v: Option<u8>) -> Self { DecodeBuilder { check: true, ver: v, ..self } }
        fn bytes(&self) -> Result<(Vec<u8>, [u8; 4])> {
            if !self.check {
                // everything, checksum included, whether or not it is right
                let t = self.input.as_ref();
                return match crate::decode_text(t) { Ok((mut p, c)) => { p.extend_from_slice(&c); Ok((p, [0; 4])) } Err(e) => Err(e) };
            }
            let r = crate::decode_text(self.input.as_ref())?;
            if let Some(v) = self.ver { if r.0.first() != Some(&v) { return Err(Error::InvalidVersion { ver: 0, expected_ver: v }); } }
            Ok(r)
        }
        pub fn into_vec(self) -> Result<Vec<u8>> { self.bytes().map(|r| r.0) }
        pub fn into<O: AsMut<[u8]>>(self, mut output: O) -> Result<usize> {
            let (p, c) = self.bytes()?;
            let o = output.as_mut();
            let n = p.len() + if self.check { 4 } else { 0 };
            if o.len() < n { return Err(Error::BufferTooSmall); }
            o[..p.len()].copy_from_slice(&p);
            if self.check { o[p.len()..n].copy_from_slice(&c); }
            Ok(p.len())
        }
    }
}
