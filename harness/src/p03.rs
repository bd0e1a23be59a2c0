//! Names round-trip and their token never extends past or ends early.
use crate::common::*;
use pdf_writer::*;

fn round_trip(s: &[u8]) {
    let mut c = Chunk::new();
    c.indirect(Ref::new(1)).primitive(Name(s));
    match one_indirect(c.as_bytes(), 1) {
        Some(o) => {
            cover("value");
            check(o.is_name(s), "name object denotes the bytes that were written")
        }
        None => check(false, "name object is well-formed PDF syntax"),
    }
}

/// As a dictionary key, followed by each kind of value.
fn key(s: &[u8], compact: bool) {
    let mut c = if compact {
        Chunk::with_settings(Settings { pretty: false })
    } else {
        Chunk::new()
    };
    let mut d = c.indirect(Ref::new(1)).dict();
    let k = choose(5);
    match k {
        0 => d.pair(Name(s), 7),
        1 => d.pair(Name(s), Name(b"V")),
        2 => d.pair(Name(s), Str(b"V")),
        3 => d.pair(Name(s), Ref::new(3)),
        _ => d.pair(Name(s), true),
    };
    d.finish();
    let o = match one_indirect(c.as_bytes(), 1) {
        Some(o) => o,
        None => return check(false, "dictionary is well-formed PDF syntax"),
    };
    match o.dict() {
        Some(d) if d.len() == 1 => {
            cover("key");
            check(same(&d[0].0, s), "key denotes the bytes that were written");
            let v = &d[0].1;
            check(
                match k {
                    0 => v.is_int(7),
                    1 => v.is_name(b"V"),
                    2 => v.is_str(b"V"),
                    3 => v.is_ref(3),
                    _ => v.is_bool(true),
                },
                "the value of the key is the one that was written",
            );
        }
        _ => check(false, "dictionary has exactly the pair that was written"),
    }
}

/// Long names, around the limit of Annex C and of 8-bit lengths.
fn long(ns: &[usize]) {
    let n = ns[choose(ns.len())];
    let mut s = vec![b'a'; n];
    s[[0, n / 2, n - 1][choose(3)]] = any_u8();
    if choose(2) == 0 {
        round_trip(&s);
    } else {
        key(&s, choose(2) == 0);
    }
}

crate::harnesses! {
    fn p03_long() { long(&[30, 100, 126, 127, 128, 254, 255, 256, 300]) }
    fn p03_longer() { long(&[1000, 4096, 32768, 65536]) }
    fn p03_any_0() { round_trip(&[]) }
    fn p03_any_1() { round_trip(&any_bytes(1)) }
    fn p03_any_2() { round_trip(&any_bytes(2)) }
    fn p03_any_3() { round_trip(&any_bytes(3)) }
    fn p03_any_4() { round_trip(&any_bytes(4)) }
    fn p03_key_pretty() { let n = choose(3); key(&any_bytes(n), false) }
    fn p03_key_compact() { let n = choose(3); key(&any_bytes(n), true) }
    fn p03_distinct() {
        // two different names never share a spelling
        let a = any_bytes(2);
        let b = any_bytes(choose(3));
        let spell = |s: &[u8]| {
            let mut c = Chunk::new();
            c.indirect(Ref::new(1)).primitive(Name(s));
            c.as_bytes().to_vec()
        };
        let eq = same(&a, &b);
        let (x, y) = (spell(&a), spell(&b));
        if same(&x, &y) {
            cover("same spelling");
            check(eq, "different names have different spellings");
        } else {
            cover("different spelling");
            check(!eq, "a name has one spelling");
        }
    }
}
