//! Reference word lists (the standard ones, committed with the harnesses) and
//! ways to make arbitrary word sequences.
use kms::bip39::Language;

pub const EN: &str = include_str!("../data/english.txt");
pub const ZH: &str = include_str!("../data/chinese_simplified.txt");

/// the reference list
pub fn list(l: Language) -> Vec<&'static str> {
    let t = match l { Language::English => EN, _ => ZH };
    let mut v = Vec::with_capacity(2048);
    let b = t.as_bytes();
    let mut i = 0;
    while i < b.len() {
        let mut j = i;
        while j < b.len() && b[j] != b'\n' { j += 1; }
        if j > i { v.push(&t[i..j]); }
        i = j + 1;
    }
    assert!(v.len() == 2048);
    v
}
pub fn lang(k: u32) -> Language { if k == 0 { Language::English } else { Language::ChineseSimplified } }

/// the words of one length, as tables from a dense number to list index and bytes
pub struct Class { pub len: usize, pub bits: u32, pub idx: Vec<u16>, pub bytes: Vec<[u8; 8]> }
pub fn class(words: &[&str], len: usize) -> Class {
    let mut c = Class { len, bits: 0, idx: vec![], bytes: vec![] };
    for (i, w) in words.iter().enumerate() {
        if w.len() == len {
            c.idx.push(i as u16);
            let mut b = [0u8; 8];
            b[..len].copy_from_slice(w.as_bytes());
            c.bytes.push(b);
        }
    }
    let n = c.idx.len();
    while (1usize << c.bits) < n { c.bits += 1; }
    let mut i = 0;
    while c.idx.len() < 1 << c.bits { let (x, b) = (c.idx[i], c.bytes[i]); c.idx.push(x); c.bytes.push(b); i += 1; }
    c
}
impl Class {
    /// an arbitrary word of this class: its dense number
    pub fn any(&self) -> usize { sx::bits(self.bits) as usize }
}

/// big-endian bit string of 11-bit groups
pub fn pack(groups: &[u16], nbits: usize) -> Vec<u8> {
    let mut out = vec![0u8; (nbits + 7) / 8];
    for i in 0..nbits {
        let g = groups[i / 11];
        let bit = (g >> (10 - i % 11)) & 1;
        out[i / 8] |= (bit as u8) << (7 - i % 8);
    }
    out
}
/// the 11-bit groups of entropy || first bits of hash
pub fn groups(entropy: &[u8], first: u8) -> Vec<u16> {
    let ent = entropy.len() * 8;
    let n = (ent + ent / 32) / 11;
    let mut v = Vec::with_capacity(n);
    for g in 0..n {
        let mut x = 0u16;
        for j in 0..11 {
            let i = g * 11 + j;
            let byte = if i / 8 < entropy.len() { entropy[i / 8] } else { first };
            x = x << 1 | ((byte >> (7 - i % 8)) & 1) as u16;
        }
        v.push(x);
    }
    v
}
/// the five sizes: words, entropy bytes
pub const SIZES: [(usize, usize); 5] = [(12, 16), (15, 20), (18, 24), (21, 28), (24, 32)];
/// make the crate's lazily built tables before anything symbolic happens
pub fn warm(l: Language) { let w = list(l); let a = l.wordmap().get_bits(w[3]).is_ok(); let b = l.wordlist().get_words_by_prefix(w[5]).len(); std::hint::black_box((a, b)); }
