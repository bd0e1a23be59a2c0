//! Numbers denote exactly the value that was written.
use crate::common::*;
use pdf_writer::*;

fn prim<T: Primitive>(v: T) -> Vec<u8> {
    let mut c = Chunk::new();
    c.indirect(Ref::new(1)).primitive(v);
    c.as_bytes().to_vec()
}

crate::harnesses! {
    fn p04_float() {
        let v = any_finite();
        let out = prim(v);
        match one_indirect(&out, 1) {
            Some(o) => {
                cover("parsed");
                check(o.is_num(v), "number object denotes the float that was written");
            }
            None => check(false, "number object is well-formed PDF syntax"),
        }
    }
    fn p04_int() {
        let v = any_i32();
        let out = prim(v);
        match one_indirect(&out, 1) {
            Some(o) => {
                cover("parsed");
                check(o.is_int(v as i64), "integer object denotes the integer that was written");
            }
            None => check(false, "integer object is well-formed PDF syntax"),
        }
    }
}
