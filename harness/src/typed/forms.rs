//! forms.rs
use super::kit::*;
use crate::{c, typed};

typed!(form, Form, [];
    c!(fields: RL "Fields");
    |w| { let b = any_u8() as u32 & 3; w.sig_flags(SigFlags::from_bits_truncate(b)); one("SigFlags", V::Int(b as i32)) };
    c!(calculation_order: RL "CO");
    c!(default_resources: D "DR" Resources);
    c!(default_appearance: S "DA");
    c!(quadding: EI "Q" QUADDING);
);
pub const FIELD_FLAGS: &[(FieldFlags, u32)] = &[
    (FieldFlags::READ_ONLY, 1),
    (FieldFlags::REQUIRED, 2),
    (FieldFlags::NO_EXPORT, 3),
    (FieldFlags::MULTILINE, 13),
    (FieldFlags::PASSWORD, 14),
    (FieldFlags::NO_TOGGLE_TO_OFF, 15),
    (FieldFlags::RADIO, 16),
    (FieldFlags::PUSHBUTTON, 17),
    (FieldFlags::COMBO, 18),
    (FieldFlags::EDIT, 19),
    (FieldFlags::SORT, 20),
    (FieldFlags::FILE_SELECT, 21),
    (FieldFlags::MULTI_SELECT, 22),
    (FieldFlags::DO_NOT_SPELL_CHECK, 23),
    (FieldFlags::DO_NOT_SCROLL, 24),
    (FieldFlags::COMB, 25),
    (FieldFlags::RICH_TEXT, 26),
    (FieldFlags::COMMIT_ON_SEL_CHANGE, 27),
];
fn opt() -> (Option<String>, V) {
    if choose(3) == 0 {
        (None, V::Null)
    } else {
        let (s, v) = txt();
        (Some(s), v)
    }
}
typed!(field, Field, [];
    c!(field_type: E "FT" FIELD);
    c!(parent: R "Parent");
    c!(children: RL "Kids");
    c!(partial_name: T "T");
    c!(alternate_name: T "TU");
    c!(mapping_name: T "TM");
    |w| { let i = choose(FIELD_FLAGS.len()); w.field_flags(FieldFlags::from_bits_retain(FIELD_FLAGS[i].0.bits())); one("Ff", V::Int(1 << (FIELD_FLAGS[i].1 - 1))) };
    c!(additional_actions: D "AA" AdditionalActions);
    c!(button_options: TL "Opt");
    c!(checkbox_value: EF "V" CHECK_BOX);
    c!(checkbox_default_value: EF "DV" CHECK_BOX);
    c!(radio_value: N "V");
    c!(radio_default_value: N "DV");
    c!(text_max_len: I "MaxLen");
    c!(text_value: T "V");
    c!(text_default_value: T "DV");
    c!(vartext_default_appearance: S "DA");
    c!(vartext_quadding: EI "Q" QUADDING);
    c!(vartext_default_style: T "DS");
    c!(vartext_rich_value: T "RV");
    |w| {
        let mut n = w.choice_options();
        let mut v = vec![];
        for i in 0..choose(3) {
            match choose(4) {
                0 => {
                    let (s, t) = txt_if(i == 0);
                    n.option(TextStr(&s));
                    v.push(t);
                }
                1 => {
                    n.options([TextStr("a"), TextStr("b")]);
                    v.extend([V::Str(b"a".to_vec()), V::Str(b"b".to_vec())]);
                }
                2 => {
                    let (s, t) = txt_if(i == 0);
                    n.export(TextStr(&s), TextStr("exp"));
                    v.push(V::Arr(vec![V::Str(b"exp".to_vec()), t]));
                }
                _ => {
                    n.exports([(TextStr("a"), TextStr("b")), (TextStr("c"), TextStr("d"))]);
                    for (x, y) in [(b"b", b"a"), (b"d", b"c")] {
                        v.push(V::Arr(vec![V::Str(x.to_vec()), V::Str(y.to_vec())]));
                    }
                }
            }
        }
        drop(n);
        one("Opt", V::Arr(v))
    };
    c!(choice_top_index: I "TI");
    c!(choice_indices: IL "I");
    |w| { let (s, v) = opt(); w.choice_value(s.as_ref().map(|s| TextStr(s))); one("V", v) };
    c!(choice_values: TL "V");
    |w| { let (s, v) = opt(); w.choice_default_value(s.as_ref().map(|s| TextStr(s))); one("DV", v) };
    c!(choice_default_values: TL "DV");
    c!(signature_field_lock: R "Lock");
    c!(signature_seed_value: R "SV");
);
/// A field that is also its own annotation keeps what was written before.
pub fn field_annotation() {
    let mut c = Chunk::with_settings(Settings { pretty: choose(2) == 0 });
    let (s, t) = txt();
    let v = id();
    let mut f = c.form_field(Ref::new(1));
    f.partial_name(TextStr(&s));
    let mut a = f.into_annotation();
    a.page(Ref::new(v));
    drop(a);
    let want = vec![("T", t), ("Type", nm("Annot")), ("Subtype", nm("Widget")), ("P", V::Ref(v))];
    verify(&c, V::Dict(want.into_iter().map(|(k, v)| (k.as_bytes().to_vec(), v)).collect()), "field annotation");
}
typed!(signature_field_lock, SignatureFieldLock, ["Type" nm("SigFieldLock")];
    c!(action: E "Action" LOCK);
    c!(fields: TL "Fields");
    c!(access_permissions: EI "P" PERMISSIONS);
);
typed!(signature_seed_value, SignatureSeedValue, ["Type" nm("SV")];
    |w| { let b = any_u16() as u32 & 0x1ff; w.constraint_flags(SignatureSeedValueFlags::from_bits_truncate(b)); one("Ff", V::Int(b as i32)) };
    c!(filter: N "Filter");
    c!(sub_filter: NL "SubFilter");
    |w| {
        let (i, n) = (choose(5), choose(3));
        let v: Vec<usize> = (0..n).map(|k| (i + 2 * k) % 5).collect();
        w.digest_method(v.iter().map(|k| DIGEST[*k].0));
        one("DigestMethod", V::Arr(v.iter().map(|k| nm(DIGEST[*k].1)).collect()))
    };
    c!(version: EI "V" SEED_VERSION);
    c!(certificate: D "Cert" CertificateSeedValue);
    c!(reasons: TL "Reasons");
    |w| {
        let i = choose(4);
        w.modification_detection_prevention().signature_type(if i == 0 { MdpSignatureType::ApprovalSignature } else { MdpSignatureType::CertificationSignature(PERMISSIONS[i - 1].0) });
        one("MDP", V::Dict(one("P", V::Int(i as i32))))
    };
    |w| { let v = any_bool(); w.timestamp().url(Str(b"u")).required(v); one("TimeStamp", V::Dict(join(one("URL", V::Str(b"u".to_vec())), one("Ff", V::Int(v as i32))))) };
    c!(legal_attestation: TL "LegalAttestation");
    c!(add_rev_info: B "AddRevInfo");
    c!(lock_document: E "LockDocument" INTENT);
    c!(appearance_filter: T "AppearanceFilter");
);
pub const CERT_FLAGS: &[(CertificateSeedValueFlags, u32)] = &[
    (CertificateSeedValueFlags::SUBJECT, 1),
    (CertificateSeedValueFlags::ISSUER, 2),
    (CertificateSeedValueFlags::OID, 3),
    (CertificateSeedValueFlags::SUBJECT_DN, 4),
    (CertificateSeedValueFlags::KEY_USAGE, 6),
    (CertificateSeedValueFlags::URL, 7),
];
fn tri(k: usize) -> (Option<bool>, u8) {
    [(None, b'X'), (Some(false), b'0'), (Some(true), b'1')][k]
}
typed!(certificate_seed_value, CertificateSeedValue, ["Type" nm("SVCert")];
    |w| { let i = choose(CERT_FLAGS.len()); w.constraint_flags(CertificateSeedValueFlags::from_bits_retain(CERT_FLAGS[i].0.bits())); one("Ff", V::Int(1 << (CERT_FLAGS[i].1 - 1))) };
    c!(subject: SL "Subject");
    c!(signature_policy_oid: S "SignaturePolicyOID");
    c!(signature_policy_hash_value: S "SignaturePolicyHashValue");
    c!(signature_policy_hash_algorithm: N "SignaturePolicyHashAlgorithm");
    c!(signature_policy_commitment_type: SL "SignaturePolicyCommitmentType");
    |w| {
        let v = bytes();
        let mut n = w.subject_dn();
        n.push().pair(Name(b"cn"), Str(&v));
        n.push();
        drop(n);
        one("SubjectDN", V::Arr(vec![V::Dict(one("cn", V::Str(v))), V::Dict(vec![])]))
    };
    |w| {
        // one position takes each value, the rest is fixed
        let i = choose(9);
        let mut f = [tri(0); 9];
        for k in 0..9 {
            f[k] = tri((k * 2) % 3);
        }
        f[i] = tri(choose(3));
        let u = CertificateKeyUsage {
            digital_signature: f[0].0,
            non_repudiation: f[1].0,
            key_encipherment: f[2].0,
            data_encipherment: f[3].0,
            key_agreement: f[4].0,
            key_cert_sign: f[5].0,
            crl_sign: f[6].0,
            encipher_only: f[7].0,
            decipher_only: f[8].0,
        };
        let n = choose(3);
        w.key_usage((0..n).map(|_| u));
        let s: Vec<u8> = f.iter().map(|x| x.1).collect();
        one("KeyUsage", V::Arr((0..n).map(|_| V::Str(s.clone())).collect()))
    };
    c!(issuer: SL "Issuer");
    c!(oid: SL "OID");
    c!(url: S "URL");
    c!(url_type: E "URLType" URL);
    |w| { let v = bytes(); w.url_type(CertificateUrlType::Custom(Name(&v))); one("URLType", V::Name(v)) };
);
typed!(signature_time_stamp, SignatureTimeStamp, [];
    c!(url: S "URL");
    |w| { let v = any_bool(); w.required(v); one("Ff", V::Int(v as i32)) };
);
typed!(modification_detection, SignatureModificationDetectionPrevention, [];
    |w| { let i = choose(3); w.signature_type(MdpSignatureType::CertificationSignature(PERMISSIONS[i].0)); one("P", V::Int(PERMISSIONS[i].1)) };
    |w| { w.signature_type(MdpSignatureType::ApprovalSignature); one("P", V::Int(0)) };
);
