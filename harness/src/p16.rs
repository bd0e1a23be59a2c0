//! The ToUnicode character map.
use crate::common::*;
use pdf_writer::types::*;
use pdf_writer::writers::WMode;
use pdf_writer::*;

/// A PostScript token, comments skipped.
fn token(r: &mut Rd) -> Option<Ob> {
    loop {
        match r.peek()? {
            c if is_ws(c) => r.i += 1,
            b'%' => {
                // a comment ends at a newline or form feed
                while !r.at_end() && !matches!(r.b[r.i], 10 | 12 | 13) {
                    r.i += 1;
                }
            }
            _ => break,
        }
    }
    r.obj()
}

struct Map {
    registry: Vec<u8>,
    ordering: Vec<u8>,
    supplement: i64,
    name: Vec<u8>,
    wmode: i64,
    lo: Vec<u8>,
    hi: Vec<u8>,
    pairs: Vec<(Vec<u8>, Vec<u8>)>,
}

fn kw(o: Option<Ob>, k: &[u8]) -> Option<()> {
    match o? {
        Ob::Op(x) if same(&x, k) => Some(()),
        _ => None,
    }
}
fn nm(o: Option<Ob>, k: &[u8]) -> Option<()> {
    match o? {
        Ob::Name(x) if same(&x, k) => Some(()),
        _ => None,
    }
}
fn st(o: Option<Ob>) -> Option<Vec<u8>> {
    match o? {
        Ob::Str(x) => Some(x),
        _ => None,
    }
}
fn int(o: Option<Ob>) -> Option<i64> {
    match o? {
        Ob::Int(x) => Some(x),
        _ => None,
    }
}

/// Read a character map: the program skeleton of Adobe technical notes 5014 and
/// 5411, definitions in any order, blocks of declared size.
fn read(b: &[u8]) -> Option<Map> {
    let r = &mut Rd::new(b);
    if !r.lit(b"%!PS-Adobe-3.0 Resource-CMap\n") {
        return None;
    }
    nm(token(r), b"CIDInit")?;
    nm(token(r), b"ProcSet")?;
    kw(token(r), b"findresource")?;
    kw(token(r), b"begin")?;
    int(token(r))?;
    kw(token(r), b"dict")?;
    kw(token(r), b"begin")?;
    kw(token(r), b"begincmap")?;
    let mut m = Map {
        registry: vec![],
        ordering: vec![],
        supplement: -1,
        name: vec![],
        wmode: -1,
        lo: vec![],
        hi: vec![],
        pairs: vec![],
    };
    let (mut info, mut name, mut wmode, mut space) = (0, 0, 0, 0);
    loop {
        match token(r)? {
            Ob::Name(k) => {
                if same(&k, b"CIDSystemInfo") {
                    info += 1;
                    let n = int(token(r))?;
                    check(n >= 3, "the dictionary has room for its entries");
                    kw(token(r), b"dict")?;
                    kw(token(r), b"dup")?;
                    kw(token(r), b"begin")?;
                    nm(token(r), b"Registry")?;
                    m.registry = st(token(r))?;
                    kw(token(r), b"def")?;
                    nm(token(r), b"Ordering")?;
                    m.ordering = st(token(r))?;
                    kw(token(r), b"def")?;
                    nm(token(r), b"Supplement")?;
                    m.supplement = int(token(r))?;
                    kw(token(r), b"def")?;
                    kw(token(r), b"end")?;
                } else if same(&k, b"CMapName") {
                    name += 1;
                    match token(r)? {
                        Ob::Name(n) => m.name = n,
                        _ => return None,
                    }
                } else if same(&k, b"WMode") {
                    wmode += 1;
                    m.wmode = int(token(r))?;
                } else if same(&k, b"CMapVersion") || same(&k, b"CMapType") {
                    token(r)?;
                } else {
                    return None;
                }
                kw(token(r), b"def")?;
            }
            Ob::Int(n) => match token(r)? {
                Ob::Op(k) if same(&k, b"begincodespacerange") => {
                    check(n == 1 && m.pairs.len() == 0, "one code space range comes before the mappings");
                    space += 1;
                    m.lo = st(token(r))?;
                    m.hi = st(token(r))?;
                    kw(token(r), b"endcodespacerange")?;
                }
                Ob::Op(k) if same(&k, b"beginbfchar") => {
                    check(n >= 1 && n <= 100, "a block has between one and one hundred entries");
                    for _ in 0..n {
                        let a = st(token(r))?;
                        let b = st(token(r))?;
                        m.pairs.push((a, b));
                    }
                    kw(token(r), b"endbfchar")?;
                }
                _ => return None,
            },
            Ob::Op(k) if same(&k, b"endcmap") => break,
            _ => return None,
        }
    }
    kw(token(r), b"CMapName")?;
    kw(token(r), b"currentdict")?;
    nm(token(r), b"CMap")?;
    kw(token(r), b"defineresource")?;
    kw(token(r), b"pop")?;
    kw(token(r), b"end")?;
    kw(token(r), b"end")?;
    check(token(r).is_none() && r.at_end(), "nothing follows the program");
    check(info == 1 && name == 1 && wmode == 1 && space == 1, "every header field is defined once");
    Some(m)
}

fn utf16(text: &[char]) -> Vec<u8> {
    let mut v = vec![];
    for &c in text {
        let u = c as u32;
        if u < 0x10000 {
            v.push((u >> 8) as u8);
            v.push(u as u8);
        } else {
            let w = u - 0x10000;
            let (h, l) = (0xD800 + (w >> 10), 0xDC00 + (w & 0x3FF));
            v.extend_from_slice(&[(h >> 8) as u8, h as u8, (l >> 8) as u8, l as u8]);
        }
    }
    v
}

fn pairs_ok(m: &Map, want: &[(Vec<u8>, Vec<char>)]) {
    cover("map");
    check(m.pairs.len() == want.len(), "there is one mapping for each pair that was added");
    if m.pairs.len() == want.len() {
        let mut ok = true;
        for (p, w) in m.pairs.iter().zip(want) {
            ok &= same(&p.0, &w.0);
            ok &= same(&p.1, &utf16(&w.1));
        }
        check(ok, "each mapping takes the glyph to its text");
    }
}

const BAD: &str = "the character map is a well-formed program";

fn info() -> SystemInfo<'static> {
    SystemInfo { registry: Str(b"Adobe"), ordering: Str(b"UCS"), supplement: 0 }
}

/// Any glyphs, any characters.
fn two_byte(n: usize, len: usize) {
    let mut c = UnicodeCmap::<u16>::new(Name(b"Custom"), info());
    let mut want = vec![];
    for k in 0..n {
        let g = any_u16();
        let t: Vec<char> = (0..len).map(|_| any_char()).collect();
        if len == 1 && k == 0 {
            c.pair(g, t[0]);
        } else {
            c.pair_with_multiple(g, t.iter().copied());
        }
        want.push((vec![(g >> 8) as u8, g as u8], t));
    }
    match read(&c.finish()) {
        Some(m) => {
            pairs_ok(&m, &want);
            check(same(&m.lo, &[0, 0]) && same(&m.hi, &[255, 255]), "the code space is that of two-byte glyphs");
        }
        None => check(false, BAD),
    }
}

fn one_byte() {
    let mut c = UnicodeCmap::<u8>::new(Name(b"Custom"), info());
    let g = any_u8();
    let t = any_char();
    c.pair(g, 'A');
    c.pair_with_multiple(g, ['x', t]);
    let want = [(vec![g], vec!['A']), (vec![g], vec!['x', t])];
    match read(&c.finish()) {
        Some(m) => {
            pairs_ok(&m, &want);
            check(same(&m.lo, &[0]) && same(&m.hi, &[255]), "the code space is that of one-byte glyphs");
        }
        None => check(false, BAD),
    }
}

/// Block boundaries: any number of pairs around multiples of one hundred.
fn blocks() {
    let n = [0, 1, 2, 98, 99, 100, 101, 102, 150, 199, 200, 201, 202, 299, 300, 301][choose(16)];
    let at = choose(3) * 50 + 3;
    let t = any_char();
    let mut c = UnicodeCmap::<u16>::new(Name(b"Custom"), info());
    let mut want = vec![];
    for k in 0..n {
        let g = 3 * k as u16 + 7;
        let text = if k == at {
            vec![t]
        } else if k % 7 == 3 {
            vec!['\u{1F600}', 'f']
        } else {
            vec!['A']
        };
        if text.len() == 1 {
            c.pair(g, text[0]);
        } else {
            c.pair_with_multiple(g, text.iter().copied());
        }
        want.push((vec![(g >> 8) as u8, g as u8], text));
    }
    match read(&c.finish()) {
        Some(m) => pairs_ok(&m, &want),
        None => check(false, BAD),
    }
}

/// Any header.
fn header(which: usize, n: usize) {
    let b = any_bytes(n);
    let (mut name, mut reg, mut ord) = (b"Custom".to_vec(), b"Adobe".to_vec(), b"UCS".to_vec());
    let sup = if which == 3 { any_i32() } else { 2 };
    match which {
        0 => name = b,
        1 => reg = b,
        2 => ord = b,
        _ => {}
    }
    let vertical = choose(3);
    let i = SystemInfo { registry: Str(&reg), ordering: Str(&ord), supplement: sup };
    let mut c = match vertical {
        0 => UnicodeCmap::<u16>::new(Name(&name), i),
        1 => UnicodeCmap::<u16>::with_writing_mode(Name(&name), i, WMode::Horizontal),
        _ => UnicodeCmap::<u16>::with_writing_mode(Name(&name), i, WMode::Vertical),
    };
    c.pair(7, 'A');
    match read(&c.finish()) {
        Some(m) => {
            check(same(&m.name, &name), "the map has the given name");
            check(same(&m.registry, &reg) & same(&m.ordering, &ord), "the map has the given registry and ordering");
            check(m.supplement == sup as i64, "the map has the given supplement");
            check(m.wmode == (vertical == 2) as i64, "the map has the given writing mode");
            pairs_ok(&m, &[(vec![0, 7], vec!['A'])]);
        }
        None => check(false, BAD),
    }
}

/// In a file.
fn embedded() {
    let mut c = UnicodeCmap::<u8>::new(Name(b"Custom"), info());
    let t = any_char();
    c.pair(3, t);
    let b = c.finish();
    let mut k = Chunk::with_settings(Settings { pretty: choose(2) == 0 });
    if choose(2) == 0 {
        k.stream(Ref::new(4), &b);
    } else {
        k.cmap(Ref::new(4), &b).name(Name(b"Custom")).writing_mode(WMode::Vertical).system_info(info());
    }
    match tops(k.as_bytes()) {
        Some(v) if v.len() == 1 && v[0].data.is_some() => match read(v[0].data.as_ref().unwrap()) {
            Some(m) => pairs_ok(&m, &[(vec![3], vec![t])]),
            None => check(false, BAD),
        },
        _ => check(false, "one stream is written"),
    }
}

/// A glyph with a long text.
fn long() {
    let n = [10, 63, 64, 127, 128, 255, 256, 300][choose(8)];
    let mut t = vec![['a', '\u{e4}', '\u{1f600}'][choose(3)]; n];
    t[[0, n / 2, n - 1][choose(3)]] = any_char();
    let g = any_u16();
    let mut c = UnicodeCmap::<u16>::new(Name(b"Custom"), info());
    c.pair(1, 'x');
    c.pair_with_multiple(g, t.iter().copied());
    let want = [(vec![0, 1], vec!['x']), (vec![(g >> 8) as u8, g as u8], t)];
    match read(&c.finish()) {
        Some(m) => pairs_ok(&m, &want),
        None => check(false, BAD),
    }
}

crate::harnesses! {
    fn p16_long() { long() }
    fn p16_one() { two_byte(1, 1) }
    fn p16_one_text() { two_byte(1, choose(3)) }
    fn p16_one_long() { two_byte(1, 3) }
    fn p16_two() { two_byte(2, 1) }
    fn p16_three() { two_byte(3, 1) }
    fn p16_byte() { one_byte() }
    fn p16_blocks() { blocks() }
    fn p16_name() { header(0, choose(3)) }
    fn p16_registry() { header(1, choose(3)) }
    fn p16_ordering() { header(2, choose(3)) }
    fn p16_supplement() { header(3, 0) }
    fn p16_embedded() { embedded() }
}
