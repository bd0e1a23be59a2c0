//! Flag sets: exactly the bits of the standard, for every combination.
use crate::typed::kit::*;

/// The integer in the given entry of the object or of its only value.
fn entry(c: &Chunk, k: &str) -> Option<i64> {
    match one_indirect(c.as_bytes(), 1)?.get(k.as_bytes())? {
        Ob::Int(i) => Some(*i),
        _ => None,
    }
}
macro_rules! flags {
    ($t:ident, $w:ident.$m:ident, $k:literal, $($f:ident $p:literal),*) => {{
        let pick = any_u32();
        let flags = [$(($t::$f, $p as u32)),*];
        // Any subset, in the bits of `pick`, and what the standard has for it.
        let n = flags.len();
        let mut bits = 0;
        let mut want = 0u32;
        for i in 0..n {
            let on = pick >> i & 1;
            bits |= flags[i].0.bits() & (0u32.wrapping_sub(on) as u32);
            want |= on << (flags[i].1 - 1);
        }
        assume(n == 32 || pick >> n == 0);
        let set = $t::from_bits_retain(bits);
        let mut c = Chunk::with_settings(Settings { pretty: choose(2) == 0 });
        c.indirect(Ref::new(1)).start::<$w>().$m(set);
        match entry(&c, $k) {
            Some(i) => {
                cover("flags");
                check(i == want as i64, "exactly the bits of the flags in the set");
            }
            None => check(false, "the flags are written as an integer"),
        }
        check($t::from_bits(want).map_or(false, |s| s.bits() == want), "all flags of the standard are known");
        let all = $t::all().bits();
        let mut known = 0;
        for i in 0..n {
            known |= 1 << (flags[i].1 - 1);
        }
        check(all == known, "no other flags are known");
    }};
}
/// Sets put together from two flags, in the ways the types offer.
macro_rules! two {
    ($t:ident, $w:ident.$m:ident, $k:literal, $($f:ident $p:literal),*) => {{
        let flags = [$(($t::$f, $p as u32)),*];
        let (i, j) = (choose(flags.len()), choose(flags.len()));
        let (a, b) = (|| $t::from_bits_retain(flags[i].0.bits()), || $t::from_bits_retain(flags[j].0.bits()));
        let bit = |p: u32| 1u32 << (p - 1);
        let (x, y) = (bit(flags[i].1), bit(flags[j].1));
        let (set, want) = match choose(5) {
            0 => (a() | b(), x | y),
            1 => {
                let mut s = $t::empty();
                s.insert(a());
                s.set(b(), true);
                (s, x | y)
            }
            2 => ($t::all() - a(), {
                let mut all = 0;
                for f in &flags {
                    all |= bit(f.1);
                }
                all & !x
            }),
            3 => ($t::empty(), 0),
            _ => (a() & b(), x & y),
        };
        let mut c = Chunk::new();
        c.indirect(Ref::new(1)).start::<$w>().$m(set);
        match entry(&c, $k) {
            Some(i) => {
                cover("two flags");
                check(i == want as i64, "exactly the bits of the flags in the set");
            }
            None => check(false, "the flags are written as an integer"),
        }
    }};
}
macro_rules! both {
    ($f:ident $g:ident: $($x:tt)*) => {
        fn $f() {
            flags!($($x)*)
        }
        fn $g() {
            two!($($x)*)
        }
    };
}
both!(annotation annotation2: AnnotationFlags, Annotation.flags, "F", INVISIBLE 1, HIDDEN 2, PRINT 3, NO_ZOOM 4, NO_ROTATE 5, NO_VIEW 6,
    READ_ONLY 7, LOCKED 8, TOGGLE_NO_VIEW 9, LOCKED_CONTENTS 10);
both!(action action2: FormActionFlags, Action.form_flags, "Flags", INCLUDE_EXCLUDE 1, INCLUDE_NO_VALUE_FIELDS 2, EXPORT_FORMAT 3, GET_METHOD 4,
    SUBMIT_COORDINATES 5, XFDF 6, INCLUDE_APPEND_SAVES 7, INCLUDE_ANNOTATIONS 8, SUBMIT_PDF 9, CANONICAL_FORMAT 10,
    EXCLUDE_NON_USER_ANNOTS 11, EXCLUDE_F_KEY 12, EMBED_FORM 14);
both!(font font2: FontFlags, FontDescriptor.flags, "Flags", FIXED_PITCH 1, SERIF 2, SYMBOLIC 3, SCRIPT 4, NON_SYMBOLIC 6, ITALIC 7, ALL_CAP 17,
    SMALL_CAP 18, FORCE_BOLD 19);
both!(sig sig2: SigFlags, Form.sig_flags, "SigFlags", SIGNATURES_EXIST 1, APPEND_ONLY 2);
both!(field field2: FieldFlags, Field.field_flags, "Ff", READ_ONLY 1, REQUIRED 2, NO_EXPORT 3, MULTILINE 13, PASSWORD 14, NO_TOGGLE_TO_OFF 15,
    RADIO 16, PUSHBUTTON 17, COMBO 18, EDIT 19, SORT 20, FILE_SELECT 21, MULTI_SELECT 22, DO_NOT_SPELL_CHECK 23,
    DO_NOT_SCROLL 24, COMB 25, RICH_TEXT 26, RADIOS_IN_UNISON 26, COMMIT_ON_SEL_CHANGE 27);
both!(seed seed2: SignatureSeedValueFlags, SignatureSeedValue.constraint_flags, "Ff", FILTER 1, SUB_FILTER 2, VERSION 3, REASONS 4,
    LEGAL_ATTESTATION 5, ADD_REV_INFO 6, DIGEST_METHOD 7, LOCK_DOCUMENT 8, APPEARANCE_FILTER 9);
both!(certificate certificate2: CertificateSeedValueFlags, CertificateSeedValue.constraint_flags, "Ff", SUBJECT 1, ISSUER 2, OID 3, SUBJECT_DN 4,
    KEY_USAGE 6, URL 7);
both!(outline outline2: OutlineItemFlags, OutlineItem.flags, "F", ITALIC 1, BOLD 2);

/// Which key usages a certificate must or must not have: nine positions, in
/// the order of the standard (RFC 3280).
fn key_usage() {
    let k: Vec<usize> = (0..9).map(|_| any_u8() as usize).collect();
    let mut want = vec![];
    let v: Vec<Option<bool>> = k
        .iter()
        .map(|k| {
            let k = *k as u8;
            assume(k < 3);
            want.push([b'X', b'0', b'1'][k as usize]);
            opt(k)
        })
        .collect();
    let mut c = Chunk::new();
    c.indirect(Ref::new(1)).start::<CertificateSeedValue>().key_usage([CertificateKeyUsage {
        digital_signature: v[0],
        non_repudiation: v[1],
        key_encipherment: v[2],
        data_encipherment: v[3],
        key_agreement: v[4],
        key_cert_sign: v[5],
        crl_sign: v[6],
        encipher_only: v[7],
        decipher_only: v[8],
    }]);
    match one_indirect(c.as_bytes(), 1) {
        Some(o) => {
            cover("key usage");
            check(o.get(b"KeyUsage").map_or(false, |o| agrees(o, &V::Arr(vec![V::Str(want)]))), "one character per usage, in the standard order");
        }
        None => check(false, "the object is well-formed"),
    }
}
/// Don't care, must not, must.
fn opt(k: u8) -> Option<bool> {
    [None, Some(false), Some(true)][k as usize]
}
crate::harnesses! {
    fn p20_annotation() { annotation() }
    fn p20_action() { action() }
    fn p20_font() { font() }
    fn p20_sig() { sig() }
    fn p20_field() { field() }
    fn p20_seed() { seed() }
    fn p20_certificate() { certificate() }
    fn p20_outline() { outline() }
    fn p20_pairs() { [annotation2, action2, font2, sig2, field2, seed2, certificate2, outline2][choose(8)]() }
    fn p20_key_usage() { key_usage() }
}
