//! Byte strings round-trip.
use crate::common::*;
use pdf_writer::*;

fn emit(s: &[u8]) -> Vec<u8> {
    let mut c = Chunk::new();
    c.indirect(Ref::new(1)).primitive(Str(s));
    c.as_bytes().to_vec()
}

fn round_trip(s: &[u8]) {
    let out = emit(s);
    match one_indirect(&out, 1) {
        Some(o) => {
            cover("parsed");
            check(o.is_str(s), "string object denotes the bytes that were written");
        }
        None => check(false, "string object is well-formed PDF syntax"),
    }
}

/// Long strings: any byte at either end or in the middle of a run.
fn long(n: usize) {
    let b = any_u8();
    let run = |c: u8| vec![c; n];
    let s = match choose(6) {
        0 => [run(b'('), vec![b], run(b')')].concat(),
        1 => [run(b')'), vec![b], run(b'(')].concat(),
        2 => [vec![b], run(b'x'), b"\\".to_vec()].concat(),
        3 => [run(b'\r'), vec![b]].concat(),
        4 => [run(b' '), vec![b], run(0xe9)].concat(),
        _ => [run(b'('), vec![b], run(b')'), run(b'('), run(b')')].concat(),
    };
    round_trip(&s);
}

crate::harnesses! {
    fn p01_long() { long([20, 100, 127, 128, 129, 255, 256, 257][choose(8)]) }
    fn p01_huge() {
        // around the limits of Annex C and of 16-bit lengths
        let mut s = vec![b'a'; [32766, 32767, 32768, 65535, 65536][choose(5)]];
        s.push(any_u8());
        round_trip(&s);
    }
    fn p01_any_0() { round_trip(&[]) }
    fn p01_any_1() { round_trip(&any_bytes(1)) }
    fn p01_any_2() { round_trip(&any_bytes(2)) }
    fn p01_any_3() { round_trip(&any_bytes(3)) }
    fn p01_any_4() { round_trip(&any_bytes(4)) }
    fn p01_paren_6() { round_trip(&any_from(b"()\\\nq", 6)) }
}
