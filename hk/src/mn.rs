//! Mnemonic: entropy <-> phrase (C01-C04), creation (C06)
use crate::words::*;
use kms::bip39::*;
use sha2::{Digest, Sha256};

/// entropy of the given size whose words (but for the last one) are arbitrary
/// among the classes; and the dense numbers of those words
pub fn entropy_of(cl: &[&Class], size: usize) -> (Vec<u8>, Vec<usize>) {
    let (nw, nb) = SIZES[size];
    let mut g = Vec::with_capacity(nw);
    let mut ks = vec![];
    for i in 0..nw - 1 { let c = cl[i % cl.len()]; let k = c.any(); ks.push(k); g.push(c.idx[k]); }
    // the rest of the entropy: nb*8 - 11*(nw-1) bits
    let rest = nb * 8 - 11 * (nw - 1);
    g.push((sx::bits(rest as u32) << (11 - rest)) as u16);
    (pack(&g, nb * 8), ks)
}
/// the phrase of an entropy follows the standard
pub fn check_phrase(phrase: &[u8], ent: &[u8], words: &[&str], cl: &[&Class], ks: &[usize]) {
    let h = Sha256::digest(ent);
    let g = groups(ent, h[0]);
    let mut pos = 0;
    for (i, k) in ks.iter().enumerate() {
        let c = cl[i % cl.len()];
        sx::check(phrase.len() >= pos + c.len + 1, "the phrase is long enough");
        sx::check(sx::same(&phrase[pos..pos + c.len], &c.bytes[*k][..c.len]), "word i is the list's word for the i-th 11 bits");
        sx::check(phrase[pos + c.len] == b' ', "words are separated by one space");
        pos += c.len + 1;
    }
    // the last word
    let last = &phrase[pos..];
    let w = words[g[ks.len()] as usize];
    sx::check(w.len() == last.len() && sx::same(w.as_bytes(), last), "the last word carries the rest of the entropy and the checksum");
}
/// a phrase of words given by class and dense number
pub fn phrase_of(cl: &[&Class], ks: &[usize]) -> Vec<u8> {
    let mut v = vec![];
    for (i, k) in ks.iter().enumerate() {
        if i > 0 { v.push(b' '); }
        let c = cl[i % cl.len()];
        v.extend_from_slice(&c.bytes[*k][..c.len]);
    }
    v
}
pub fn text(b: &[u8]) -> &str { unsafe { std::str::from_utf8_unchecked(b) } }
/// English word-length patterns: 0-5 every word has that length; 6-11 lengths vary along the phrase
pub const PATTERNS: u32 = 12;
pub fn pattern(cs: &[Class], p: u32) -> Vec<&Class> {
    if p < 6 { vec![&cs[p as usize]] } else { (0..5).map(|i| &cs[(i * (1 + p as usize % 2) * 2 + i / 3 + p as usize) % 6]).collect() }
}
pub fn kind(e: &anyhow::Error) -> (u32, usize) {
    match e.downcast_ref::<ErrorKind>() {
        Some(ErrorKind::InvalidChecksum { .. }) => (1, 0),
        Some(ErrorKind::InvalidWord { .. }) => (2, 0),
        Some(ErrorKind::InvalidKeysize(n)) => (3, *n),
        Some(ErrorKind::InvalidWordLength(n)) => (4, *n),
        Some(ErrorKind::InvalidEntropyLength(n, _)) => (5, *n),
        #[allow(unreachable_patterns)]
        Some(_) => (6, 0),
        None => (0, 0),
    }
}
fn new_of(ent: &[u8], l: Language) -> Mnemonic {
    match Mnemonic::from_entropy(ent, l) { Ok(m) => m, Err(_) => sx::fail("entropy of a standard size is accepted") }
}
fn round_trip(ent: &[u8], l: Language) {
    let m = new_of(ent, l);
    sx::check(sx::same(m.entropy(), ent), "a mnemonic made from entropy keeps that entropy");
    sx::check(m.language() == l, "a mnemonic keeps its language");
    match Mnemonic::from_phrase(m.phrase(), l) {
        Ok(n) => {
            sx::check(sx::same(n.entropy(), ent), "the phrase decodes to the entropy it was made from");
            sx::check(sx::same(n.phrase().as_bytes(), m.phrase().as_bytes()), "decoding a phrase keeps it");
            sx::check(n.language() == l, "decoding keeps the language");
        }
        Err(_) => sx::fail("the phrase of a mnemonic is accepted"),
    }
    sx::check(Mnemonic::validate(m.phrase(), l).is_ok(), "the phrase of a mnemonic validates");
    sx::cover("round trip");
}
/// decode a phrase of nw arbitrary list words, the index of word i being g[i]
fn decode(ph: &[u8], g: &[u16], l: Language) {
    let (nw, nb) = *SIZES.iter().find(|s| s.0 == g.len()).unwrap();
    let all = pack(g, nw * 11);
    let mut ent = all[..nb].to_vec();
    ent.truncate(nb);
    let h = Sha256::digest(&ent);
    let cb = nw / 3;
    let good = h[0] >> (8 - cb) == all[nb] >> (8 - cb);
    match Mnemonic::from_phrase(text(ph), l) {
        Ok(m) => {
            sx::check(good, "a phrase is accepted only if its checksum is right");
            sx::check(sx::same(m.entropy(), &ent), "the entropy is the first bits of the words");
            sx::check(sx::same(m.phrase().as_bytes(), ph), "an accepted phrase is kept");
            sx::cover("accepted");
        }
        Err(e) => {
            sx::check(!good, "a phrase of list words with the right checksum is accepted");
            sx::check(kind(&e).0 == 1, "a wrong checksum is reported as such");
            sx::cover("checksum");
        }
    }
    match Mnemonic::validate(text(ph), l) {
        Ok(()) => sx::check(good, "validate accepts only a right checksum"),
        Err(e) => { sx::check(!good, "validate accepts a right checksum"); sx::check(kind(&e).0 == 1, "validate reports a wrong checksum as such"); }
    }
}

sx::harness! {
    // ---- C01: entropy -> phrase -> entropy ----
    c01_zh {
        let l = Language::ChineseSimplified;
        warm(l);
        let c = class(&list(l), 3);
        let size = sx::choose(5) as usize;
        let (ent, _) = entropy_of(&[&c], size);
        round_trip(&ent, l);
    }
    c01_en {
        let l = Language::English;
        warm(l);
        let words = list(l);
        let cs: Vec<Class> = (3..9).map(|l| class(&words, l)).collect();
        let k = sx::choose(5 * PATTERNS);
        let (ent, _) = entropy_of(&pattern(&cs, k / 5), k as usize % 5);
        round_trip(&ent, l);
    }
    // ---- C02: the words are those the standard prescribes ----
    c02_zh {
        let l = Language::ChineseSimplified;
        warm(l);
        let words = list(l);
        let c = class(&words, 3);
        let size = sx::choose(5) as usize;
        let (ent, ks) = entropy_of(&[&c], size);
        let m = new_of(&ent, l);
        check_phrase(m.phrase().as_bytes(), &ent, &words, &[&c], &ks);
        sx::cover("done");
    }
    c02_en {
        let l = Language::English;
        warm(l);
        let words = list(l);
        let cs: Vec<Class> = (3..9).map(|l| class(&words, l)).collect();
        let k = sx::choose(5 * PATTERNS);
        let p = pattern(&cs, k / 5);
        let (ent, ks) = entropy_of(&p, k as usize % 5);
        let m = new_of(&ent, l);
        check_phrase(m.phrase().as_bytes(), &ent, &words, &p, &ks);
        sx::cover("done");
    }
    c02_sizes {
        warm(Language::ChineseSimplified);
        let k = sx::choose(56) as usize;
        let n = if k < 41 { k } else { [48, 64, 80, 96, 128, 160, 255, 256, 257, 272, 276, 288, 512 + 24, 8192 + 16, 65536 + 32][k - 41] };
        let mut ent = vec![0u8; n];
        if n < 300 { sx::any_into(&mut ent); } else { ent[n - 1] = sx::any_u8(); }
        match Mnemonic::from_entropy(&ent, Language::ChineseSimplified) {
            Ok(m) => { sx::check(SIZES.iter().any(|s| s.1 == n), "only the five standard entropy sizes are accepted"); sx::check(sx::same(m.entropy(), &ent), "entropy is kept"); sx::cover("accepted") }
            Err(e) => { sx::check(!SIZES.iter().any(|s| s.1 == n), "the five standard entropy sizes are accepted"); sx::check(kind(&e) == (3, n * 8), "a wrong entropy size is reported with its size"); sx::cover("rejected") }
        }
    }
    // ---- C03: which phrases are accepted ----
    c03_zh {
        let l = Language::ChineseSimplified;
        warm(l);
        let c = class(&list(l), 3);
        let nw = SIZES[sx::choose(5) as usize].0;
        let ks: Vec<usize> = (0..nw).map(|_| c.any()).collect();
        let g: Vec<u16> = ks.iter().map(|k| c.idx[*k]).collect();
        decode(&phrase_of(&[&c], &ks), &g, l);
    }
    c03_en {
        let l = Language::English;
        warm(l);
        let words = list(l);
        let cs: Vec<Class> = (3..9).map(|l| class(&words, l)).collect();
        let k = sx::choose(5 * PATTERNS);
        let p = pattern(&cs, k / 5);
        let nw = SIZES[k as usize % 5].0;
        let ks: Vec<usize> = (0..nw).map(|i| p[i % p.len()].any()).collect();
        let g: Vec<u16> = ks.iter().enumerate().map(|(i, k)| p[i % p.len()].idx[*k]).collect();
        decode(&phrase_of(&p, &ks), &g, l);
    }
    // one word is an arbitrary string of visible ASCII characters
    c03_word {
        let l = Language::English;
        warm(l);
        let words = list(l);
        let c = class(&words, 5);
        let k = sx::choose(18);
        let (at, len) = ([0usize, 11][k as usize / 9], 1 + k as usize % 9);
        let ks: Vec<usize> = (0..12).map(|_| c.any()).collect();
        let mut w = vec![0u8; len];
        for i in 0..len { let x = sx::any_u8(); sx::assume(x > 0x20 && x < 0x7f); w[i] = x }
        one_word(l, &words, &c, &ks, at, &w, true);
    }
    // one word is one or two arbitrary characters from U+4000 to U+8FFF
    c03_word_zh {
        let l = Language::ChineseSimplified;
        warm(l);
        let words = list(l);
        let c = class(&words, 3);
        let k = sx::choose(6);
        let (at, len) = ([0usize, 4, 11][k as usize / 2], 3 * (1 + k as usize % 2));
        let ks: Vec<usize> = (0..12).map(|_| c.any()).collect();
        let w = chinese(len);
        one_word(l, &words, &c, &ks, at, &w, false);
    }
    // the same at every place of phrases of every length, one character
    c03_place {
        let l = Language::ChineseSimplified;
        warm(l);
        let words = list(l);
        let c = class(&words, 3);
        let k = sx::choose(90) as usize;
        let (n, at) = { let (mut n, mut k) = (12, k); while k >= n { k -= n; n += 3; } (n, k) };
        let ks: Vec<usize> = (0..n).map(|_| c.any()).collect();
        let w = chinese(3);
        one_word(l, &words, &c, &ks, at, &w, false);
    }
    // words separated by something that is no white space
    c03_sep {
        let k = sx::choose(66) as usize;
        let l = lang(k as u32 % 2);
        warm(l);
        let c = class(&list(l), if l == Language::English { 5 } else { 3 });
        let sep = ["\u{200b}", "\u{feff}", "\u{180e}", "-", ",", ", ", "_", "\0", "\u{200d}", "\u{1f}", "\u{3001}"][k / 6];
        let ks: Vec<usize> = (0..12).map(|_| c.any()).collect();
        let mut ph = vec![];
        for (i, j) in ks.iter().enumerate() {
            if i > 0 { ph.extend_from_slice(if [i == 1, i == 6, true][k / 2 % 3] { sep } else { " " }.as_bytes()); }
            ph.extend_from_slice(&c.bytes[*j][..c.len]);
        }
        match Mnemonic::from_phrase(text(&ph), l) { Ok(_) => sx::fail("words are separated by white space only"), Err(e) => sx::check(kind(&e).0 == 2, "what stands between white space is one word, here an unknown one") }
        match Mnemonic::validate(text(&ph), l) { Ok(_) => sx::fail("words are separated by white space only"), Err(e) => sx::check(kind(&e).0 == 2, "what stands between white space is one word, here an unknown one") }
        sx::cover("refused");
    }
    // the number of words
    c03_count {
        let l = lang(sx::choose(2));
        warm(l);
        let c = class(&list(l), if l == Language::English { 6 } else { 3 });
        let n = sx::choose(28) as usize;
        let ks: Vec<usize> = (0..n).map(|_| c.any()).collect();
        let ph = phrase_of(&[&c], &ks);
        match Mnemonic::from_phrase(text(&ph), l) {
            Ok(m) => { sx::check(SIZES.iter().any(|s| s.0 == n), "only 12, 15, 18, 21 or 24 words are accepted"); sx::check(m.entropy().len() * 3 == n * 4, "the entropy has the size that belongs to the word count"); sx::cover("accepted") }
            Err(e) => {
                let (k, m) = kind(&e);
                if SIZES.iter().any(|s| s.0 == n) { sx::check(k == 1, "a standard word count is only refused for its checksum") }
                else if n == 0 { sx::check(k != 0, "an empty phrase is refused") }
                else { sx::check(k == 4 && m == n, "a wrong word count is reported with the count") }
                sx::cover("rejected")
            }
        }
    }
    // ---- C04: normalisation ----
    // white space: any ASCII white space characters, one or two of them, also around the phrase
    c04_ws {
        let l = lang(sx::choose(2));
        warm(l);
        let c = class(&list(l), if l == Language::English { 4 } else { 3 });
        let lay = sx::choose(4);
        let ks: Vec<usize> = (0..12).map(|_| c.any()).collect();
        let mut ph = vec![];
        let ws = |ph: &mut Vec<u8>| { let x = sx::any_u8(); sx::assume(x == 32 || (x >= 9 && x <= 13)); ph.push(x) };
        if lay & 1 != 0 { ws(&mut ph); }
        for (i, k) in ks.iter().enumerate() {
            if i > 0 { ws(&mut ph); if i % 4 == lay as usize { ws(&mut ph); } }
            ph.extend_from_slice(&c.bytes[*k][..c.len]);
        }
        if lay & 2 != 0 { ws(&mut ph); ws(&mut ph); }
        same_as(&ph, &phrase_of(&[&c], &ks), l);
    }
    // phrases of every length, one or several separators each
    c04_sizes {
        let k = sx::choose(10);
        let l = lang(k % 2);
        warm(l);
        let c = class(&list(l), if l == Language::English { 4 } else { 3 });
        let ks: Vec<usize> = (0..SIZES[k as usize / 2].0).map(|_| c.any()).collect();
        let mut ph = vec![];
        for (i, k) in ks.iter().enumerate() {
            if i > 0 { for _ in 0..[1, 2, 1, 3, 9][i % 5] { let x = sx::any_u8(); sx::assume(x == 32 || (x >= 9 && x <= 13)); ph.push(x) } }
            ph.extend_from_slice(&c.bytes[*k][..c.len]);
        }
        ph.push(b'\n');
        same_as(&ph, &phrase_of(&[&c], &ks), l);
    }
    // other white space
    c04_wide {
        let k = sx::choose(40);
        let l = lang(k % 2);
        warm(l);
        let c = class(&list(l), if l == Language::English { 4 } else { 3 });
        let sep = ["\u{3000}", "\u{a0}", "\u{2003}", "\u{85}", "\u{2028}", "\u{3000}\u{3000}", " \u{3000}", "\u{1680}", "\u{2000}", "\u{2001}", "\u{2002}", "\u{2004}", "\u{2005}", "\u{2006}", "\u{2007}", "\u{2008}", "\u{2009}\u{200a}", "\u{2029}\t", "\u{202f}", "\u{205f}"][k as usize / 2];
        let ks: Vec<usize> = (0..12).map(|_| c.any()).collect();
        let mut ph = vec![];
        for (i, k) in ks.iter().enumerate() { if i > 0 { ph.extend_from_slice(sep.as_bytes()); } ph.extend_from_slice(&c.bytes[*k][..c.len]); }
        same_as(&ph, &phrase_of(&[&c], &ks), l);
    }
    // English letters written in a compatibility form (full width, bold, small capitals ...)
    c04_nfkd {
        let l = Language::English;
        warm(l);
        let words = list(l);
        let form = sx::choose(4);
        let len = 3 + sx::choose(6) as usize;
        let c = class(&words, len);
        let at = sx::choose(2) as usize * 11;
        let ks: Vec<usize> = (0..12).map(|_| c.any()).collect();
        let mut ph = vec![];
        for (i, k) in ks.iter().enumerate() {
            if i > 0 { ph.push(b' '); }
            for j in 0..len {
                let b = c.bytes[*k][j];
                if i != at || (form == 3 && j != 1) { ph.push(b); continue; }
                match form {
                    // U+FF41.. full width
                    0 | 3 => { ph.push(0xef); ph.push(0xbd); ph.push(b - 0x61 + 0x81); }
                    // U+24D0.. circled
                    1 => { let x = 0x24d0 + (b - 0x61) as u32; ph.push(0xe2); ph.push(0x80 | (x >> 6 & 63) as u8); ph.push(0x80 | (x & 63) as u8); }
                    // U+1D41A.. bold
                    _ => { let x = 0x1d41a + (b - 0x61) as u32; ph.push(0xf0); ph.push(0x80 | (x >> 12 & 63) as u8); ph.push(0x80 | (x >> 6 & 63) as u8); ph.push(0x80 | (x & 63) as u8); }
                }
            }
        }
        same_as(&ph, &phrase_of(&[&c], &ks), l);
    }
}
/// a phrase of twelve words, one of which is w
fn chinese(len: usize) -> Vec<u8> {
    let mut w = vec![0u8; len];
    for i in 0..len { let x = sx::any_u8(); sx::assume(if i % 3 == 0 { x >= 0xe4 && x <= 0xe8 } else { x >= 0x80 && x < 0xc0 }); w[i] = x }
    w
}
fn one_word(l: Language, words: &[&str], c: &Class, ks: &[usize], at: usize, w: &[u8], norm: bool) {
    let mut ph = vec![];
    for i in 0..ks.len() { if i > 0 { ph.push(b' '); } if i == at { ph.extend_from_slice(w) } else { ph.extend_from_slice(&c.bytes[ks[i]][..c.len]) } }
    // is it a list word?
    let keys: Vec<(*const u8, usize)> = words.iter().map(|x| (x.as_ptr(), x.len())).collect();
    let idx = sx::lookup(&keys, w) as u16;
    let r = Mnemonic::validate(text(&ph), l);
    if idx == 2048 {
        match r { Ok(()) => sx::fail("a word that is not in the list is refused"), Err(e) => sx::check(kind(&e).0 == 2, "an unknown word is reported as such") }
        if norm { match Mnemonic::from_phrase(text(&ph), l) { Ok(_) => sx::fail("a phrase with a word that is not in the list is refused"), Err(e) => sx::check(kind(&e).0 == 2, "an unknown word is reported as such") } }
        sx::cover("unknown word");
    } else {
        let g: Vec<u16> = (0..ks.len()).map(|i| if i == at { idx } else { c.idx[ks[i]] }).collect();
        let n = ks.len() / 3;
        let all = pack(&g, n * 33);
        let h = Sha256::digest(&all[..n * 4]);
        sx::check(r.is_ok() == (h[0] >> (8 - n) == all[n * 4] >> (8 - n)), "list words are accepted exactly if the checksum is right");
        sx::cover("known word");
    }
}
/// a phrase written differently is the canonical one
fn same_as(ph: &[u8], canon: &[u8], l: Language) {
    match (Mnemonic::from_phrase(text(ph), l), Mnemonic::from_phrase(text(canon), l)) {
        (Ok(a), Ok(b)) => {
            sx::check(sx::same(a.phrase().as_bytes(), canon), "the phrase is normalised: NFKD words joined by single spaces");
            sx::check(sx::same(a.entropy(), b.entropy()), "spelling does not change the entropy");
            sx::check(Mnemonic::validate(a.phrase(), l).is_ok(), "the normalised phrase validates");
            sx::cover("accepted");
        }
        (Err(a), Err(b)) => { sx::check(kind(&a) == kind(&b), "spelling does not change the error"); sx::cover("rejected"); }
        _ => sx::fail("spelling does not change whether a phrase is accepted"),
    }
}
