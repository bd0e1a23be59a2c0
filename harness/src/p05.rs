//! Dates: the ISO 32000 date string of the clamped fields.
use crate::common::*;
use pdf_writer::*;

fn clamp(v: i64, lo: i64, hi: i64) -> i64 {
    if v < lo {
        lo
    } else if v > hi {
        hi
    } else {
        v
    }
}

/// `D:YYYY[MM[DD[HH[mm[SS[Z|(+|-)HH'mm[']]]]]]]` → fields; `None` if malformed.
struct Parsed {
    f: [i64; 6],
    n: usize,
    off: Option<(bool, i64, i64)>,
}

fn num(r: &[u8], i: usize, n: usize) -> Option<i64> {
    if i + n > r.len() {
        return None;
    }
    let mut v = 0;
    let mut ok = true;
    for k in i..i + n {
        let d = r[k].wrapping_sub(b'0');
        ok &= d < 10;
        v = v * 10 + d as i64;
    }
    if ok {
        Some(v)
    } else {
        None
    }
}

fn parse(s: &[u8]) -> Option<Parsed> {
    if s.len() < 6 || s[0] != b'D' || s[1] != b':' {
        return None;
    }
    let mut p = Parsed { f: [0, 1, 1, 0, 0, 0], n: 1, off: None };
    p.f[0] = num(s, 2, 4)?;
    let mut i = 6;
    while p.n < 6 && i < s.len() && s[i] >= b'0' && s[i] <= b'9' {
        p.f[p.n] = num(s, i, 2)?;
        p.n += 1;
        i += 2;
    }
    if i == s.len() {
        return Some(p);
    }
    if p.n < 6 {
        return None;
    }
    match s[i] {
        b'Z' if i + 1 == s.len() => {
            p.off = Some((false, 0, 0));
            Some(p)
        }
        c @ (b'+' | b'-' | b'Z') => {
            let h = num(s, i + 1, 2)?;
            if i + 3 >= s.len() || s[i + 3] != b'\'' {
                return None;
            }
            let m = num(s, i + 4, 2)?;
            let e = i + 6;
            if !(e == s.len() || (e + 1 == s.len() && s[e] == b'\'')) {
                return None;
            }
            if c == b'Z' && (h != 0 || m != 0) {
                return None;
            }
            p.off = Some((c == b'-', h, m));
            Some(p)
        }
        _ => None,
    }
}

/// `mask`: which of month, day, hour, minute, second, utc hour, utc minute are set.
fn date(mask: usize) {
    let y = any_u16();
    let mut d = Date::new(y);
    let mut e: [i64; 6] = [clamp(y as i64, 0, 9999), 0, 0, 0, 0, 0];
    let mut depth = 1;
    let mut open = true;
    for k in 0..5 {
        if mask >> k & 1 == 1 {
            let v = any_u8();
            d = match k {
                0 => d.month(v),
                1 => d.day(v),
                2 => d.hour(v),
                3 => d.minute(v),
                _ => d.second(v),
            };
            let (lo, hi) = [(1, 12), (1, 31), (0, 23), (0, 59), (0, 59)][k];
            e[k + 1] = clamp(v as i64, lo, hi);
            if open {
                depth += 1;
            }
        } else {
            open = false;
        }
    }
    let mut off = None;
    if mask >> 5 & 1 == 1 {
        let h = any_u8() as i8;
        d = d.utc_offset_hour(h);
        let h = clamp(h as i64, -23, 23);
        let mut m = 0;
        if mask >> 6 & 1 == 1 {
            let v = any_u8();
            d = d.utc_offset_minute(v);
            m = clamp(v as i64, 0, 59);
        }
        if open {
            off = Some((h < 0, if h < 0 { -h } else { h }, m));
        }
    } else if mask >> 6 & 1 == 1 {
        d = d.utc_offset_minute(any_u8());
    }
    let mut c = Chunk::new();
    c.indirect(Ref::new(1)).primitive(d);
    let s = match one_indirect(c.as_bytes(), 1) {
        Some(Ob::Str(s)) => s,
        _ => return check(false, "date is a well-formed string object"),
    };
    match parse(&s) {
        None => check(false, "date string has the form of a PDF date"),
        Some(p) => {
            check(p.n == depth, "exactly the leading run of supplied fields is written");
            let mut ok = true;
            for i in 0..depth {
                ok &= p.f[i] == e[i];
            }
            check(ok, "every field is the supplied value clamped to its range");
            match (p.off, off) {
                (None, None) => {}
                (Some((n, h, m)), Some((en, eh, em))) => {
                    cover("offset");
                    check((h == eh) & (m == em), "offset is the supplied one, clamped");
                    check((n == en) | ((h == 0) & (m == 0)) , "offset sign is the supplied one");
                }
                _ => check(false, "time zone is written exactly if all superior fields are"),
            }
        }
    }
}

crate::harnesses! {
    fn p05_prefix() {
        let k = choose(8);
        date((1 << k) - 1)
    }
    fn p05_gaps() {
        // any subset of the fields
        date(choose(128))
    }
}
