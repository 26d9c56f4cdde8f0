//! Sizes (C05), creation (C06), seeds (C07), hexadecimal output (C08), languages (C09)
use crate::mn::*;
use crate::words::*;
use kms::bip39::*;
use std::fmt::Write;

type Prf = hmac::Hmac<sha2::Sha512>;
/// the seed the standard prescribes
pub fn expect_seed(pass: &[u8], salt_tail: &[u8]) -> [u8; 64] {
    let mut salt = b"mnemonic".to_vec();
    salt.extend_from_slice(salt_tail);
    let mut out = [0u8; 64];
    pbkdf2::pbkdf2::<Prf>(pass, &salt, 2048, &mut out);
    out
}
pub fn check_seed(m: &Mnemonic, pass: &[u8], pw: &str, norm: &[u8]) {
    let s = Seed::new(m, pw);
    let e = expect_seed(pass, norm);
    sx::check(s.as_bytes().len() == 64, "a seed has 64 bytes");
    sx::check(sx::same(s.as_bytes(), &e), "the seed is PBKDF2-HMAC-SHA512(phrase, \"mnemonic\" + normalised password, 2048 rounds)");
    sx::check(sx::same(s.as_ref(), &e), "all views of a seed agree");
    sx::check(sx::same(s.clone().as_bytes(), &e), "a clone of a seed is the same seed");
    sx::cover("seed");
}
fn mtype(k: u32) -> MnemonicType { match k { 0 => MnemonicType::Words12, 1 => MnemonicType::Words15, 2 => MnemonicType::Words18, 3 => MnemonicType::Words21, _ => MnemonicType::Words24 } }
const BITS: [usize; 5] = [128, 160, 192, 224, 256];
fn is_type(t: MnemonicType, k: usize) {
    sx::check(t.entropy_bits() == BITS[k], "entropy size of the type");
    sx::check(t.word_count() == SIZES[k].0, "word count of the type");
    sx::check(t.checksum_bits() as usize == BITS[k] / 32, "checksum size of the type");
    sx::check(t.total_bits() == BITS[k] / 32 * 33, "total size of the type");
}
/// reference decompositions: code point, NFKD form
pub const NFKD: &str = include_str!("../data/nfkd.txt");
pub fn nfkd_block(b: usize) -> Vec<(u32, Vec<u8>)> {
    let x = |c: u8| (if c <= b'9' { c - b'0' } else { (c | 32) - b'a' + 10 }) as u32;
    NFKD.lines().skip(b * 64).take(64).map(|l| {
        let (a, h) = l.split_once(' ').unwrap();
        let h = h.as_bytes();
        (a.bytes().fold(0, |v, c| v * 16 + x(c)), (0..h.len() / 2).map(|i| (x(h[2 * i]) * 16 + x(h[2 * i + 1])) as u8).collect())
    }).collect()
}
/// UTF-8 of a code point (all of a block have the same length, n)
pub fn utf8(c: u32, n: usize) -> Vec<u8> {
    let t = |k: u32| 0x80 | (c >> k & 63) as u8;
    match n { 2 => vec![0xc0 | (c >> 6) as u8, t(0)], 3 => vec![0xe0 | (c >> 12) as u8, t(6), t(0)], _ => vec![0xf0 | (c >> 18) as u8, t(12), t(6), t(0)] }
}
pub const BLOCKS: u32 = 40;

fn hexdigit(x: u8, up: bool) -> u8 { (if up { b"0123456789ABCDEF" } else { b"0123456789abcdef" })[x as usize & 15] }
fn expect_hex(b: &[u8], alt: bool, up: bool) -> Vec<u8> {
    let mut v = vec![];
    if alt { v.extend_from_slice(b"0x"); }
    for x in b { v.push(hexdigit(x >> 4, up)); v.push(hexdigit(x & 15, up)); }
    v
}
struct Out(Vec<u8>);
impl Write for Out { fn write_str(&mut self, s: &str) -> std::fmt::Result { self.0.extend_from_slice(s.as_bytes()); Ok(()) } }

sx::harness! {
    // ---- C05: sizes ----
    c05_words {
        let n = sx::any_u64() as usize;
        let k = SIZES.iter().position(|s| s.0 == n);
        match MnemonicType::for_word_count(n) {
            Ok(t) => { match k { Some(k) => { is_type(t, k); sx::cover("ok") } None => sx::fail("only the five standard word counts have a type") } }
            Err(e) => { sx::check(k.is_none(), "the five standard word counts have a type"); sx::check(kind(&e) == (4, n), "a wrong word count is reported with the count"); sx::cover("err") }
        }
    }
    c05_bits {
        let n = sx::any_u64() as usize;
        let k = BITS.iter().position(|s| *s == n);
        match MnemonicType::for_key_size(n) {
            Ok(t) => { match k { Some(k) => { is_type(t, k); sx::cover("ok") } None => sx::fail("only the five standard entropy sizes have a type") } }
            Err(e) => { sx::check(k.is_none(), "the five standard entropy sizes have a type"); sx::check(kind(&e) == (3, n), "a wrong entropy size is reported with the size"); sx::cover("err") }
        }
    }
    c05_show {
        let k = sx::choose(6);
        let t = if k == 5 { MnemonicType::default() } else { mtype(k) };
        let k = if k == 5 { 0 } else { k as usize };
        is_type(t, k);
        let want = ["12 words (128bits)", "15 words (160bits)", "18 words (192bits)", "21 words (224bits)", "24 words (256bits)"][k];
        let mut o = Out(vec![]);
        let _ = write!(o, "{}", t);
        sx::check(sx::same(&o.0, want.as_bytes()), "the type is shown with its word count and entropy size");
        sx::cover("shown");
    }
    // a phrase of n words, each of up to three arbitrary visible characters
    c05_phrase {
        let n = 1 + sx::choose(26) as usize;
        let mut ph = vec![];
        for i in 0..n {
            if i > 0 { ph.push(b' '); }
            for _ in 0..1 + i % 3 { let x = sx::any_u8(); sx::assume(x > 32 && x < 127); ph.push(x); }
        }
        let k = SIZES.iter().position(|s| s.0 == n);
        match MnemonicType::for_phrase(text(&ph)) {
            Ok(t) => { match k { Some(k) => { is_type(t, k); sx::cover("ok") } None => sx::fail("a phrase has a type only if it has a standard number of words") } }
            Err(e) => { sx::check(k.is_none(), "a phrase with a standard number of words has a type"); sx::check(kind(&e) == (4, n), "a wrong word count is reported with the count"); sx::cover("err") }
        }
    }
    // ---- C06: creation ----
    c06_zh { created(sx::choose(10), Language::ChineseSimplified, None) }
    // English: the random bytes are such that the words have given lengths
    c06_en {
        let l = Language::English;
        warm(l);
        let words = list(l);
        let cs: Vec<Class> = (3..9).map(|l| class(&words, l)).collect();
        let k = sx::choose(30);
        let (ent, _) = entropy_of(&pattern(&cs, k / 5), k as usize % 5);
        created(k % 5, l, Some(ent));
    }
    // two mnemonics are made from different random bytes
    c06_two {
        let l = Language::ChineseSimplified;
        warm(l);
        let k = sx::choose(25);
        let a = Mnemonic::new(mtype(k % 5), l);
        let b = Mnemonic::new(mtype(k / 5), l);
        let (x, y) = (a.entropy().to_vec(), b.entropy().to_vec());
        sx::check(x.len() * 8 == BITS[k as usize % 5] && y.len() * 8 == BITS[k as usize / 5], "a new mnemonic has the entropy of its type");
        #[cfg(feature = "models")]
        {
            let d = rand::sx_drawn();
            sx::check(d.len() >= x.len() + y.len(), "each mnemonic draws its own random bytes");
            let n = x.len();
            if d.len() >= n + y.len() { sx::check(sx::same(&d[..n], &x) && sx::same(&d[n..n + y.len()], &y), "each mnemonic is made from the bytes drawn for it"); }
        }
        #[cfg(not(feature = "models"))]
        sx::check(x != y, "two mnemonics differ");
        sx::cover("two");
    }
    // ---- C07: seeds ----
    // every phrase, passwords of up to 8 ASCII characters
    c07_en {
        let l = Language::English;
        warm(l);
        let words = list(l);
        let cs: Vec<Class> = (3..9).map(|l| class(&words, l)).collect();
        let k = sx::choose(5 * PATTERNS);
        let (ent, _) = entropy_of(&pattern(&cs, k / 5), k as usize % 5);
        let m = match Mnemonic::from_entropy(&ent, l) { Ok(m) => m, Err(_) => sx::stop() };
        let mut pw = vec![0u8; (k as usize * 7) % 9];
        for p in pw.iter_mut() { let x = sx::any_u8(); sx::assume(x < 128); *p = x; }
        let ph = m.phrase().as_bytes().to_vec();
        check_seed(&m, &ph, text(&pw), &pw);
    }
    c07_zh {
        let l = Language::ChineseSimplified;
        warm(l);
        let c = class(&list(l), 3);
        let k = sx::choose(10);
        let (ent, _) = entropy_of(&[&c], k as usize % 5);
        let m = match Mnemonic::from_entropy(&ent, l) { Ok(m) => m, Err(_) => sx::stop() };
        let mut pw = vec![0u8; k as usize / 5 * 5];
        for p in pw.iter_mut() { let x = sx::any_u8(); sx::assume(x < 128); *p = x; }
        // the byte form of a Chinese phrase is GB18030: two bytes for every character, one for a space
        let gb = { use encoding::Encoding; match encoding::all::GB18030.encode(m.phrase(), encoding::EncoderTrap::Strict) { Ok(b) => b, Err(_) => sx::stop() } };
        sx::check(gb.len() == SIZES[k as usize % 5].0 * 3 - 1, "two bytes per character");
        check_seed(&m, &gb, text(&pw), &pw);
    }
    // passwords with one arbitrary character of each of several blocks, among ASCII characters
    c07_norm {
        let l = Language::English;
        warm(l);
        let b = sx::choose(BLOCKS * 2);
        let m = match Mnemonic::from_entropy(&[7u8; 16], l) { Ok(m) => m, Err(_) => sx::stop() };
        let t = nfkd_block(b as usize / 2);
        let i = sx::bits(6) as usize;
        let (mut pw, mut norm) = (vec![], vec![]);
        if b % 2 == 1 { let x = sx::any_u8(); sx::assume(x > 31 && x < 127); pw.push(x); norm.push(x); }
        pw.extend_from_slice(&utf8(t[0].0 + i as u32, char::from_u32(t[0].0).map_or(3, char::len_utf8)));
        let mut n = [0u8; 40];
        let lens: Vec<usize> = t.iter().map(|x| x.1.len()).collect();
        let len = sx::conc(lens[i] as u64) as usize;
        for j in 0..len { let tab: Vec<u8> = t.iter().map(|x| x.1.get(j).copied().unwrap_or(0)).collect(); n[j] = tab[i]; }
        norm.extend_from_slice(&n[..len]);
        if b % 2 == 1 { pw.push(b'!'); norm.push(b'!'); }
        let ph = m.phrase().as_bytes().to_vec();
        check_seed(&m, &ph, text(&pw), &norm);
    }
    // long passwords
    c07_long {
        let l = Language::English;
        warm(l);
        let k = sx::choose(44) as usize;
        let m = match Mnemonic::from_entropy(&[0x5au8; 24], l) { Ok(m) => m, Err(_) => sx::stop() };
        let n = [9, 12, 15, 16, 17, 24, 31, 32, 33, 55, 56, 63, 64, 65, 100, 119, 120, 127, 128, 129, 256, 300][k % 22];
        let (mut pw, mut norm) = (vec![], vec![]);
        // with a letter that is decomposed at the end
        for _ in 0..n { let x = sx::any_u8(); sx::assume(x < 128); pw.push(x); norm.push(x); }
        if k >= 22 { pw.extend_from_slice("\u{fc}".as_bytes()); norm.extend_from_slice("u\u{308}".as_bytes()); }
        let ph = m.phrase().as_bytes().to_vec();
        check_seed(&m, &ph, text(&pw), &norm);
    }
    // two arbitrary characters from one of the first blocks, also with a Chinese phrase
    c07_pair {
        let k = sx::choose(8);
        let l = lang(k % 2);
        warm(l);
        let m = match Mnemonic::from_entropy(&[0x11u8; 32], l) { Ok(m) => m, Err(_) => sx::stop() };
        let pass = if l == Language::English { m.phrase().as_bytes().to_vec() } else { use encoding::Encoding; match encoding::all::GB18030.encode(m.phrase(), encoding::EncoderTrap::Strict) { Ok(b) => b, Err(_) => sx::stop() } };
        let t = nfkd_block(k as usize / 4);
        let lens: Vec<usize> = t.iter().map(|x| x.1.len()).collect();
        let (mut pw, mut norm) = (vec![], vec![]);
        for r in 0..2 {
            let i = sx::bits(4) as usize + 48 * (k as usize / 2 % 2);
            pw.extend_from_slice(&utf8(t[0].0 + i as u32, 2));
            let len = sx::conc(lens[i] as u64) as usize;
            for j in 0..len { let tab: Vec<u8> = t.iter().map(|x| x.1.get(j).copied().unwrap_or(0)).collect(); norm.push(tab[i]); }
            if r == 0 { pw.push(b'x'); norm.push(b'x'); }
        }
        check_seed(&m, &pass, text(&pw), &norm);
    }
    // several combining characters are put in canonical order
    c07_order {
        let l = Language::English;
        warm(l);
        let m = match Mnemonic::from_entropy(&[0xf0u8; 16], l) { Ok(m) => m, Err(_) => sx::stop() };
        let x = sx::any_u8();
        sx::assume(x >= b'a' && x <= b'z' && x != b'q');
        let (a, b) = [("\u{315}\u{300}\u{323}", "\u{323}\u{300}\u{315}"), ("\u{301}\u{327}", "\u{327}\u{301}"), ("\u{308}\u{304}", "\u{308}\u{304}"), ("\u{345}\u{301}", "\u{301}\u{345}"), ("\u{1ec3}\u{323}", "e\u{323}\u{302}\u{309}")][sx::choose(5) as usize];
        let (mut pw, mut norm) = (vec![x], vec![x]);
        pw.extend_from_slice(a.as_bytes()); norm.extend_from_slice(b.as_bytes());
        let ph = m.phrase().as_bytes().to_vec();
        check_seed(&m, &ph, text(&pw), &norm);
    }
    // ---- C08: hexadecimal output ----
    c08_mnemonic {
        let l = Language::ChineseSimplified;
        warm(l);
        let k = sx::choose(20);
        let f = k / 5;
        let n = SIZES[k as usize % 5].1;
        let mut ent = vec![0u8; n];
        sx::any_into(&mut ent);
        let m = match Mnemonic::from_entropy(&ent, l) { Ok(m) => m, Err(_) => sx::stop() };
        let mut o = Out(Vec::with_capacity(80));
        let _ = match f { 0 => write!(o, "{:x}", m), 1 => write!(o, "{:#x}", m), 2 => write!(o, "{:X}", m), _ => write!(o, "{:#X}", m) };
        sx::check(sx::same(&o.0, &expect_hex(&ent, f % 2 == 1, f >= 2)), "a mnemonic in hexadecimal is its entropy, two digits a byte");
        sx::cover("hex");
    }
    c08_seed {
        let l = Language::English;
        warm(l);
        let k = sx::choose(6);
        let m = match Mnemonic::from_entropy(&[9u8; 16], l) { Ok(m) => m, Err(_) => sx::stop() };
        let p = sx::any_u8();
        sx::assume(p < 128);
        let s = Seed::new(&m, text(&[p]));
        let b = s.as_bytes().to_vec();
        let mut o = Out(Vec::with_capacity(140));
        let _ = match k { 0 => write!(o, "{:x}", s), 1 => write!(o, "{:#x}", s), 2 => write!(o, "{:X}", s), 3 => write!(o, "{:#X}", s), 4 => write!(o, "{:?}", s), _ => write!(o, "{:#?}", s) };
        sx::check(sx::same(&o.0, &expect_hex(&b, k % 2 == 1 || k == 4, k >= 2)), "a seed in hexadecimal is its bytes, two digits each");
        sx::cover("hex");
    }
    c08_text {
        let l = Language::ChineseSimplified;
        warm(l);
        let c = class(&list(l), 3);
        let k = sx::choose(4);
        let (ent, _) = entropy_of(&[&c], 0);
        let m = match Mnemonic::from_entropy(&ent, l) { Ok(m) => m, Err(_) => sx::stop() };
        let want = m.phrase().as_bytes().to_vec();
        let got = match k { 0 => { let mut o = Out(vec![]); let _ = write!(o, "{}", m); o.0 } 1 => AsRef::<str>::as_ref(&m).as_bytes().to_vec(), 2 => m.into_phrase().into_bytes(), _ => String::from(m).into_bytes() };
        sx::check(sx::same(&got, &want), "all text forms of a mnemonic are its phrase");
        sx::cover("text");
    }
    // English phrases of all sizes: text and debug forms
    c08_show {
        let l = Language::English;
        warm(l);
        let words = list(l);
        let k = sx::choose(5 * 7);
        let (size, f) = (k as usize % 5, k / 5);
        let cl: Vec<Class> = [3, 8, 5].iter().map(|n| class(&words, *n)).collect();
        let refs: Vec<&Class> = cl.iter().collect();
        let (ent, _) = entropy_of(&refs, size);
        let m = match Mnemonic::from_entropy(&ent, l) { Ok(m) => m, Err(_) => sx::stop() };
        let mut want = m.phrase().as_bytes().to_vec();
        if f < 2 { want.insert(0, b'"'); want.push(b'"'); }
        let mut o = Out(vec![]);
        match f {
            0 => { let _ = write!(o, "{:?}", m); }
            1 => { let _ = write!(o, "{:#?}", m); }
            2 => { let _ = write!(o, "{}", m); }
            3 => { let _ = write!(o, "{:#}", m); }
            4 => o.0 = AsRef::<str>::as_ref(&m).as_bytes().to_vec(),
            5 => o.0 = m.into_phrase().into_bytes(),
            _ => o.0 = String::from(m).into_bytes(),
        }
        sx::check(sx::same(&o.0, &want), "all text forms of a mnemonic are its phrase; the debug form is the phrase as a string");
        sx::cover("text");
    }
    // ---- C09: languages and word lists ----
    // every index has its standard word, and the word map inverts the list
    c09_list {
        let l = lang(sx::choose(2));
        warm(l);
        let words = list(l);
        let i = sx::bits(11) as u16;
        let w = l.wordlist().get_word(i.into());
        let lens: Vec<u8> = words.iter().map(|w| w.len() as u8).collect();
        sx::check(w.len() == lens[i as usize] as usize, "the i-th word has the right length");
        let n = sx::conc(w.len() as u64) as usize;
        let b = w.as_bytes();
        for j in 0..n { let t: Vec<u8> = words.iter().map(|w| *w.as_bytes().get(j).unwrap_or(&0)).collect(); sx::check(b[j] == t[i as usize], "the i-th word is the standard's i-th word"); }
        match l.wordmap().get_bits(w) { Ok(x) => sx::check(u16::from(x) == i, "the word map inverts the word list"), Err(_) => sx::fail("every list word is in the word map") }
        sx::cover("word");
    }
    // an arbitrary string is in the word map exactly if it is a list word
    c09_map {
        let k = sx::choose(11);
        let l = if k < 9 { Language::English } else { Language::ChineseSimplified };
        warm(l);
        let words = list(l);
        let mut w = vec![0u8; if k < 9 { 1 + k as usize } else { 3 * (k as usize - 8) }];
        for i in 0..w.len() { let x = sx::any_u8(); sx::assume(if k < 9 { x < 0x80 } else if i % 3 == 0 { x >= 0xe4 && x <= 0xe8 } else { x >= 0x80 && x < 0xc0 }); w[i] = x }
        let keys: Vec<(*const u8, usize)> = words.iter().map(|x| (x.as_ptr(), x.len())).collect();
        let i = sx::lookup(&keys, &w);
        match l.wordmap().get_bits(text(&w)) {
            Ok(x) => { sx::check(u16::from(x) as usize == i, "the word map gives a word its index"); sx::cover("in") }
            Err(e) => { sx::check(i == 2048, "every list word is in the word map"); sx::check(matches!(e, ErrorKind::InvalidWord), "an unknown word is reported as such"); sx::cover("not in") }
        }
    }
    // prefix search, for any one, two or three lower-case letters
    c09_prefix {
        let l = Language::English;
        warm(l);
        let words = list(l);
        let k = sx::choose(53) as usize;
        let n = k / 26 + 1;
        let k = k % 26;
        let n = 4 - n;
        // a number for every prefix; where its words start, and how many there are
        let (size, base) = match n { 1 => (26, 0), 2 => (26, k * 26), _ => (676, k * 676) };
        let (mut first, mut count) = (vec![0u64; size], vec![0u64; size]);
        for (i, w) in words.iter().enumerate() {
            let w = w.as_bytes();
            if w.len() < n { continue; }
            let mut x = 0usize;
            for b in &w[..n] { x = x * 26 + (b - b'a') as usize; }
            if x < base || x - base >= size { continue; }
            if count[x - base] == 0 { first[x - base] = i as u64; }
            count[x - base] += 1;
        }
        let mut p = vec![0u8; n];
        let mut x = 0usize;
        for j in 0..n {
            if n > 1 && j == 0 { p[0] = b'a' + k as u8; continue; }
            let c = sx::any_u8();
            sx::assume(c >= b'a' && c <= b'z');
            p[j] = c;
            x = x * 26 + (c - b'a') as usize;
        }
        let r = l.wordlist().get_words_by_prefix(text(&p));
        let n = sx::conc(r.len() as u64) as usize;
        let r: &[&str] = unsafe { std::slice::from_raw_parts(sx::conc(r.as_ptr() as u64) as *const &str, n) };
        sx::check(n as u64 == count[x], "as many words are found as have the prefix");
        if n > 0 {
            let f = words.iter().position(|w| *w == r[0]).unwrap_or(0);
            sx::check(f as u64 == first[x], "the words found start with the first that has the prefix");
            for i in 0..n { sx::check(f + i < 2048 && r[i] == words[f + i], "the words found are in list order"); }
            sx::cover("found");
        } else { sx::cover("none"); }
    }
    // the first four letters of any word; the whole of any word
    c09_prefix_long {
        let l = Language::English;
        warm(l);
        let words = list(l);
        let k = sx::choose(7 * 32) as usize;
        let n = if k < 32 { 4 } else { k / 32 + 2 };
        long_prefix(l, &words, k % 32 * 64, n, k >= 32);
    }
    c09_prefix_mid {
        let l = Language::English;
        warm(l);
        let words = list(l);
        let k = sx::choose(3 * 32) as usize;
        long_prefix(l, &words, k % 32 * 64, 5 + k / 32, false);
    }
    // one or two arbitrary ASCII characters, not all of them lower-case letters; a character that is not ASCII
    c09_prefix_any {
        let l = Language::English;
        warm(l);
        let k = sx::choose(6) as usize;
        let mut p = vec![0u8; 1 + k % 3];
        let mut low = true;
        for c in p.iter_mut() { *c = sx::any_u8(); sx::assume(*c < 128); low &= *c >= b'a' && *c <= b'z'; }
        sx::assume(!low);
        if k >= 3 { p.insert(1, 0xc3); p.insert(2, 0x80 | sx::bits(6) as u8); }
        sx::check(l.wordlist().get_words_by_prefix(text(&p)).is_empty(), "no English word has a character that is no lower-case letter");
        if k < 3 { sx::check(Language::ChineseSimplified.wordlist().get_words_by_prefix(text(&p)).is_empty(), "no Chinese word has an ASCII character"); }
        sx::cover("none");
    }
    c09_prefix_zh {
        let l = Language::ChineseSimplified;
        warm(l);
        let words = list(l);
        let k = sx::choose(32) as usize;
        long_prefix(l, &words, k * 64, 3, true);
        sx::check(l.wordlist().get_words_by_prefix("").len() == 2048, "every word starts with the empty prefix");
    }
    // language codes
    c09_code {
        let n = sx::choose(8) as usize;
        let mut c = vec![0u8; n];
        for x in c.iter_mut() { *x = sx::any_u8(); sx::assume(*x < 0x80); }
        let low: Vec<u8> = c.iter().map(|x| if *x >= b'A' && *x <= b'Z' { x | 32 } else { *x }).collect();
        let (en, zh) = (sx::same(&low, b"en"), sx::same(&low, b"zh-cn"));
        match Language::from_language_code(text(&c)) {
            Some(Language::English) => { sx::check(en, "only \"en\" is English"); sx::cover("en") }
            Some(_) => { sx::check(zh, "only \"zh-cn\" is simplified Chinese"); sx::cover("zh") }
            None => { sx::check(!en & !zh, "the codes of both languages are known, in any case"); sx::cover("none") }
        }
    }
    // language of a phrase: that of its first word
    c09_detect {
        let k = sx::choose(8);
        warm(Language::English);
        warm(Language::ChineseSimplified);
        let (en, zh) = (list(Language::English), list(Language::ChineseSimplified));
        let n = if k < 6 { 3 + k as usize } else { 3 * (k as usize - 5) };
        let mut ph = vec![];
        if k % 2 == 0 { ph.push(b' '); }
        let at = ph.len();
        for i in 0..n { let x = sx::any_u8(); sx::assume(if k < 6 { x > 32 && x < 0x7f } else if i % 3 == 0 { x >= 0xe4 && x <= 0xe8 } else { x >= 0x80 && x < 0xc0 }); ph.push(x) }
        let w = ph[at..].to_vec();
        ph.extend_from_slice(" \u{7684} about ".as_bytes());
        let look = |l: &[&str]| { let keys: Vec<(*const u8, usize)> = l.iter().map(|x| (x.as_ptr(), x.len())).collect(); sx::lookup(&keys, &w) < 2048 };
        let is = if k < 6 { (look(&en), false) } else { (false, look(&zh)) };
        match Language::from_phrase(text(&ph)) {
            Some(Language::English) => { sx::check(is.0, "English only if the first word is"); sx::cover("en") }
            Some(_) => { sx::check(is.1, "Chinese only if the first word is"); sx::cover("zh") }
            None => { sx::check(!is.0 & !is.1, "a first word of a list has a language"); sx::cover("none") }
        }
    }
    c09_misc {
        let k = sx::choose(3);
        sx::check(Language::default() == Language::English, "English is the default");
        sx::check(Language::from_phrase(["", " ", "\u{3000}\n"][k as usize]).is_none(), "an empty phrase has no language");
        let r = Mnemonic::from_phrase(["", " ", "\u{3000}\n"][k as usize], Language::English);
        sx::check(r.is_err(), "an empty phrase is refused");
        sx::cover("done");
    }
}
fn created(k: u32, l: Language, _script: Option<Vec<u8>>) {
    warm(l);
    #[cfg(feature = "models")]
    if let Some(s) = _script { rand::sx_script(s) }
    let k = k as usize % 5;
    let m = Mnemonic::new(mtype(k as u32), l);
    let e = m.entropy().to_vec();
    sx::check(e.len() * 8 == BITS[k], "a new mnemonic has the entropy of its type");
    sx::check(m.language() == l, "a new mnemonic has the language asked for");
    #[cfg(feature = "models")]
    {
        let d = rand::sx_drawn();
        sx::check(d.len() >= e.len(), "as many random bytes are drawn as the entropy needs");
        if d.len() >= e.len() { sx::check(sx::same(&d[..e.len()], &e), "the entropy of a new mnemonic is what the system's random generator gave"); }
    }
    match Mnemonic::from_entropy(&e, l) { Ok(n) => sx::check(sx::same(n.phrase().as_bytes(), m.phrase().as_bytes()), "the phrase of a new mnemonic is that of its entropy"), Err(_) => sx::fail("the entropy of a new mnemonic is accepted") }
    sx::cover("created");
}
/// prefix search for the first n bytes of any of 64 words (of those with n bytes, if whole)
fn long_prefix(l: Language, words: &[&str], at: usize, n: usize, whole: bool) {
    let pick: Vec<&str> = words[at..at + 64].iter().filter(|w| if whole { w.len() == n } else { w.len() >= n }).cloned().collect();
    if pick.is_empty() { return; }
    let i = sx::bits(6) as usize;
    sx::assume(i < pick.len());
    let mut p = vec![0u8; n];
    for j in 0..n { let mut t = [0u8; 64]; for (x, w) in pick.iter().enumerate() { t[x] = w.as_bytes()[j]; } p[j] = t[i]; }
    let r = l.wordlist().get_words_by_prefix(text(&p));
    let q = pick[sx::conc(i as u64) as usize];
    let mut k = 0;
    for w in words {
        if w.len() >= n && w.as_bytes()[..n] == q.as_bytes()[..n] {
            sx::check(k < r.len(), "every word with the prefix is found");
            if k < r.len() { sx::check(r[k] == *w, "the words found are those with the prefix, in list order"); }
            k += 1;
        }
    }
    sx::check(k == r.len(), "only words with the prefix are found");
    sx::cover("prefix");
}
