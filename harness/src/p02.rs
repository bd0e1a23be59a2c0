//! Text strings denote the Unicode text and language marks that were written.
use crate::common::*;
use pdf_writer::*;

fn str_of(out: &[u8]) -> Option<Vec<u8>> {
    match one_indirect(out, 1) {
        Some(Ob::Str(s)) => Some(s),
        _ => None,
    }
}

/// UTF-16BE code units of a scalar value (own implementation).
fn utf16(c: u32, out: &mut Vec<u8>) {
    if c < 0x10000 {
        out.push((c >> 8) as u8);
        out.push(c as u8);
    } else {
        let x = c - 0x10000;
        let h = 0xD800 + (x >> 10);
        let l = 0xDC00 + (x & 0x3ff);
        out.push((h >> 8) as u8);
        out.push(h as u8);
        out.push((l >> 8) as u8);
        out.push(l as u8);
    }
}

/// Does the string object denote exactly these scalar values?
fn denotes(s: &[u8], text: &[char]) -> bool {
    if s.len() >= 2 && s[0] == 0xFE && s[1] == 0xFF {
        let mut e = Vec::with_capacity(32);
        for &c in text {
            utf16(c as u32, &mut e);
        }
        cover("utf-16");
        same(&s[2..], &e)
    } else if s.len() >= 3 && s[0] == 0xEF && s[1] == 0xBB && s[2] == 0xBF {
        let t: String = text.iter().collect();
        same(&s[3..], t.as_bytes())
    } else {
        if s.len() != text.len() {
            return false;
        }
        cover("pdfdoc");
        let mut ok = true;
        for i in 0..s.len() {
            ok &= doc(s[i]) == text[i] as u32;
        }
        ok
    }
}

/// The character with this code in PDFDocEncoding (Annex D.3); `u32::MAX` if
/// there is none.
fn doc(b: u8) -> u32 {
    const SPECIAL: [(u8, u16); 40] = [
        (0x18, 0x2d8), (0x19, 0x2c7), (0x1a, 0x2c6), (0x1b, 0x2d9), (0x1c, 0x2dd), (0x1d, 0x2db), (0x1e, 0x2da), (0x1f, 0x2dc),
        (0x80, 0x2022), (0x81, 0x2020), (0x82, 0x2021), (0x83, 0x2026), (0x84, 0x2014), (0x85, 0x2013), (0x86, 0x192), (0x87, 0x2044),
        (0x88, 0x2039), (0x89, 0x203a), (0x8a, 0x2212), (0x8b, 0x2030), (0x8c, 0x201e), (0x8d, 0x201c), (0x8e, 0x201d), (0x8f, 0x2018),
        (0x90, 0x2019), (0x91, 0x201a), (0x92, 0x2122), (0x93, 0xfb01), (0x94, 0xfb02), (0x95, 0x141), (0x96, 0x152), (0x97, 0x160),
        (0x98, 0x178), (0x99, 0x17d), (0x9a, 0x131), (0x9b, 0x142), (0x9c, 0x153), (0x9d, 0x161), (0x9e, 0x17e), (0xa0, 0x20ac),
    ];
    let direct = (b >= 32) & (b <= 126) | (b == 9) | (b == 10) | (b == 13) | (b >= 0xa1) & (b != 0xad);
    let mut special = u32::MAX;
    if !direct {
        for (k, u) in SPECIAL {
            let hit = ((b == k) as u32).wrapping_neg();
            special = special & !hit | u as u32 & hit;
        }
    }
    let d = (direct as u32).wrapping_neg();
    b as u32 & d | special & !d
}

fn text(cs: &[char]) {
    let mut st = String::with_capacity(4 * cs.len());
    for &c in cs {
        // U+001B introduces a language escape and cannot be expressed
        assume(c != '\u{1b}');
        st.push(c);
    }
    let mut c = Chunk::new();
    c.indirect(Ref::new(1)).primitive(TextStr(&st));
    match str_of(c.as_bytes()) {
        Some(s) => check(denotes(&s, cs), "text string denotes the text that was written"),
        None => check(false, "text string is a well-formed string object"),
    }
}

fn chars(n: usize) -> Vec<char> {
    let mut v = Vec::with_capacity(n);
    for _ in 0..n {
        v.push(any_char());
    }
    v
}

/// An arbitrary ASCII text.
fn ascii(n: usize) -> Vec<char> {
    let mut v = Vec::with_capacity(n);
    for _ in 0..n {
        let b = any_u8();
        assume(b < 0x80);
        v.push(b as char);
    }
    v
}

fn lang(with_region: bool) -> (LanguageIdentifier, Vec<u8>) {
    let a = [any_u8(), any_u8()];
    let mut e = vec![0, 0x1b, 0, a[0], 0, a[1]];
    let id = if with_region {
        let r = [any_u8(), any_u8()];
        e.extend_from_slice(&[0, r[0], 0, r[1]]);
        LanguageIdentifier::new(a, Some(r))
    } else {
        LanguageIdentifier::new(a, None)
    };
    e.extend_from_slice(&[0, 0x1b]);
    (id, e)
}

fn with_lang(regions: &[bool], lens: &[usize]) {
    let mut exp = vec![0xFE, 0xFF];
    let mut texts: Vec<String> = vec![];
    let mut ids = vec![];
    for (i, &r) in regions.iter().enumerate() {
        let (id, e) = lang(r);
        ids.push(id);
        exp.extend_from_slice(&e);
        let mut s = String::with_capacity(16);
        for _ in 0..lens[i] {
            let c = any_char();
            assume(c != '\u{1b}');
            s.push(c);
            utf16(c as u32, &mut exp);
        }
        texts.push(s);
    }
    let mut parts: Vec<(LanguageIdentifier, &str)> = vec![];
    for i in 0..ids.len() {
        parts.push((ids[i], &texts[i]));
    }
    let mut c = Chunk::new();
    c.indirect(Ref::new(1)).primitive(TextStrWithLang(&parts));
    match str_of(c.as_bytes()) {
        Some(s) => {
            cover("language marks");
            check(same(&s, &exp), "text string denotes the marked-up text that was written")
        }
        None => check(false, "text string is a well-formed string object"),
    }
}

/// Many parts, some alike, one of them with an arbitrary character.
fn many_parts() {
    let n = [4, 5, 17, 64, 130][choose(5)];
    let at = [0, n / 2, n - 1][choose(3)];
    let c = any_char();
    assume(c != '\u{1b}');
    let (a, b) = (any_u8(), any_u8());
    assume(a < 0x80 && b < 0x80);
    let mut exp = vec![0xFE, 0xFF];
    let mut texts: Vec<String> = vec![];
    let mut ids = vec![];
    for i in 0..n {
        let l = [*b"de", *b"en", [a, b]][i % 3];
        let r = if i % 2 == 0 { Some(*b"AT") } else { None };
        ids.push(LanguageIdentifier::new(l, r));
        exp.extend_from_slice(&[0, 0x1b, 0, l[0], 0, l[1]]);
        if let Some(r) = r {
            exp.extend_from_slice(&[0, r[0], 0, r[1]]);
        }
        exp.extend_from_slice(&[0, 0x1b]);
        let c = if i == at { c } else { ['x', 'é', '€'][i % 3] };
        let mut s = String::new();
        s.push(c);
        utf16(c as u32, &mut exp);
        texts.push(s);
    }
    let parts: Vec<(LanguageIdentifier, &str)> = (0..n).map(|i| (ids[i], &texts[i][..])).collect();
    let mut k = Chunk::with_settings(Settings { pretty: choose(2) == 0 });
    k.indirect(Ref::new(1)).array().item(TextStrWithLang(&parts));
    let b = k.as_bytes();
    let mut r = Rd { b, i: 0 };
    match top(&mut r) {
        Some(Top { ob: Ob::Arr(v), .. }) if v.len() == 1 => match &v[0] {
            Ob::Str(s) => {
                cover("many parts");
                check(same(s, &exp), "text string denotes the marked-up text that was written")
            }
            _ => check(false, "text string is a string object"),
        },
        _ => check(false, "text string is a well-formed string object"),
    }
}

fn alnum(b: u8) -> bool {
    (b >= b'0' && b <= b'9') | (b >= b'a' && b <= b'z') | (b >= b'A' && b <= b'Z')
}

fn from_lang(n: usize) {
    let s = ascii(n);
    let mut t = String::new();
    let mut ok = n == 2;
    for &c in &s {
        t.push(c);
        ok &= alnum(c as u8);
    }
    let r = LanguageIdentifier::from_lang(&t);
    check(r.is_some() == ok, "language code accepted exactly if two ASCII alphanumerics");
    if let Some(id) = r {
        cover("valid language code");
        check(id == LanguageIdentifier::new([s[0] as u8, s[1] as u8], None), "language code is kept");
    }
    let rr = LanguageIdentifier::from_lang_region("de", &t);
    check(rr.is_some() == ok, "region code accepted exactly if two ASCII alphanumerics");
    if let Some(id) = rr {
        check(id == LanguageIdentifier::new(*b"de", Some([s[0] as u8, s[1] as u8])), "region code is kept");
    }
    let rr = LanguageIdentifier::from_lang_region(&t, "AT");
    check(rr.is_some() == ok, "language code with region accepted exactly if two ASCII alphanumerics");
    if let Some(id) = rr {
        check(id == LanguageIdentifier::new([s[0] as u8, s[1] as u8], Some(*b"AT")), "both codes are kept");
    }
}

/// Long texts with any character at the start, in the middle or at the end.
fn long(ns: &[usize]) {
    let n = ns[choose(ns.len())];
    let f = ['a', 'é', '€', '\u{1f600}'][choose(4)];
    let mut v = vec![f; n];
    v[[0, n / 2, n - 1][choose(3)]] = any_char();
    text(&v);
}

crate::harnesses! {
    fn p02_long() { long(&[10, 63, 64, 127, 128, 255, 256]) }
    fn p02_longer() { long(&[1000]) }
    fn p02_lang_many() { many_parts() }
    fn p02_lang_three() { with_lang(&[true, false, true], &[1, 0, 1]) }
    fn p02_text_0() { text(&[]) }
    fn p02_text_1() { text(&chars(1)) }
    fn p02_text_2() { text(&chars(2)) }
    fn p02_text_3() { text(&chars(3)) }
    fn p02_ascii_4() { text(&ascii(4)) }
    fn p02_mixed() { let mut a = ascii(2); a.push(any_char()); a.extend(ascii(1)); text(&a) }
    fn p02_lang_none() { with_lang(&[], &[]) }
    fn p02_lang_plain() { with_lang(&[false], &[1]) }
    fn p02_lang_region() { with_lang(&[true], &[1]) }
    fn p02_lang_two() { with_lang(&[true, false], &[1, 1]) }
    fn p02_lang_empty() { with_lang(&[false, true], &[0, 1]) }
    fn p02_from_lang() { from_lang(choose(4)) }
    fn p02_from_lang_unicode() {
        let c = any_char();
        assume(c as u32 > 0x7f);
        let mut s = String::new();
        s.push(c);
        check(LanguageIdentifier::from_lang(&s).is_none(), "non-ASCII language code is rejected");
    }
}
