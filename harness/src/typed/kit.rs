//! Kit for the typed writers: argument sources, a small language for "this
//! method writes this entry", and the tables of enumeration spellings of the
//! standard (ISO 32000-1/-2).
pub use crate::common::*;
pub use crate::values::*;
pub use pdf_writer::types::*;
pub use pdf_writer::writers::*;
pub use pdf_writer::*;

/// Entries (or items, with empty keys) that a call is expected to add.
pub type E = Vec<(Vec<u8>, V)>;

/// Arguments whose type the library once had wrong: the check has to build
/// against either signature.
pub trait Flag {
    fn flag(b: bool) -> Self;
}
impl Flag for bool {
    fn flag(b: bool) -> bool {
        b
    }
}
impl Flag for f32 {
    fn flag(b: bool) -> f32 {
        b as u8 as f32
    }
}
pub trait Indirect {
    fn to(id: i32) -> Self;
}
impl Indirect for Ref {
    fn to(id: i32) -> Ref {
        Ref::new(id)
    }
}
impl Indirect for Name<'static> {
    fn to(_: i32) -> Name<'static> {
        Name(b"F")
    }
}

pub fn one(k: &str, v: V) -> E {
    vec![(k.as_bytes().to_vec(), v)]
}
pub fn none() -> E {
    vec![]
}
pub fn nm(s: &str) -> V {
    V::Name(s.as_bytes().to_vec())
}
pub fn ints(v: &[i32]) -> V {
    V::Arr(v.iter().map(|i| V::Int(*i)).collect())
}
pub fn reals(v: &[f32]) -> V {
    V::Arr(v.iter().map(|f| V::Real(*f)).collect())
}
pub fn join(mut a: E, b: E) -> E {
    a.extend(b);
    a
}

/// With plain arguments, everything but the sequence of calls is fixed.
static PLAIN: core::sync::atomic::AtomicBool = core::sync::atomic::AtomicBool::new(false);
pub fn set_plain(p: bool) {
    PLAIN.store(p, core::sync::atomic::Ordering::Relaxed);
}
fn plain() -> bool {
    PLAIN.load(core::sync::atomic::Ordering::Relaxed)
}
/// Any of `n` choices, one of the larger ones for plain arguments.
pub fn choose(n: usize) -> usize {
    if plain() {
        (n - 1).min(1)
    } else {
        crate::common::choose(n)
    }
}
pub fn any_u8() -> u8 {
    if plain() {
        77
    } else {
        crate::common::any_u8()
    }
}
pub fn any_u16() -> u16 {
    if plain() {
        1
    } else {
        crate::common::any_u16()
    }
}
pub fn any_bool() -> bool {
    if plain() {
        true
    } else {
        crate::common::any_bool()
    }
}
pub fn any_bytes(n: usize) -> Vec<u8> {
    if plain() {
        vec![b'k'; n]
    } else {
        crate::common::any_bytes(n)
    }
}
/// Any integer.
pub fn int() -> i32 {
    if plain() {
        3
    } else {
        any_i32()
    }
}
pub fn id() -> i32 {
    if plain() {
        12
    } else {
        crate::common::any_u8() as i32 * 300 + 1
    }
}
/// A real: integral and not, of either sign, small, too large for an integer,
/// those that are defaults somewhere, and any finite one.
pub fn num() -> f32 {
    let i = choose(NUMS.len() + 1);
    if i == NUMS.len() {
        return crate::common::any_finite();
    }
    NUMS[i]
}
const NUMS: [f32; 9] = [0.25, -1.5, 7.0, 1e-7, -3e20, 0.0, 1.0, -0.0, 100.0];
/// A real as in `num`, but not an arbitrary one.
pub fn some_num() -> f32 {
    NUMS[choose(NUMS.len())]
}
/// Different reals, chosen so that an exchange is noticed.
pub const F: [f32; 9] = [0.25, -1.5, 7.0, 1e-7, -3e20, 0.0, -2.0, 1000000.0, 0.5];
/// Several reals, also with one of them any finite one.
pub fn fs<const N: usize>() -> [f32; N] {
    let mut v = [0.0; N];
    let kind = choose(5);
    let any = if kind == 4 && N > 0 { choose(N) } else { N };
    for i in 0..N {
        v[i] = match kind {
            4 if i == any => crate::common::any_finite(),
            0 => F[N - 1 - i],
            // all the same
            2 => 1.0,
            // defaults
            3 if N <= 4 => [0.0, 1.0][choose(2)],
            // identity matrices
            3 => [0.0, 1.0][(i % (if N == 9 { 4 } else { 3 }) == 0) as usize],
            _ => F[i],
        };
    }
    v
}
/// How many items a list has.
pub fn count() -> usize {
    [0, 1, 2, 3, 20, 300][choose(6)]
}
/// The items of a list behind the first: descending, or (up to three) all like
/// the first.
pub fn items<T: Clone>(first: impl Fn() -> T, at: impl Fn(usize) -> T) -> Vec<T> {
    let n = count();
    let same = n >= 2 && n <= 3 && choose(2) == 1;
    let mut v: Vec<T> = vec![];
    for i in 0..n {
        v.push(if i == 0 {
            first()
        } else if same {
            v[0].clone()
        } else {
            at(i)
        });
    }
    v
}
/// A short name or string that differs for every position.
pub fn short(i: usize) -> Vec<u8> {
    if i < 26 {
        vec![b'a' + i as u8]
    } else {
        vec![b'a' + (i / 26) as u8, b'a' + (i % 26) as u8]
    }
}
/// A list of up to 3 reals, or a long one.
pub fn flist() -> Vec<f32> {
    match count() {
        n if n > 3 => (0..n).map(|i| i as f32 + 0.5).collect(),
        1 => fs::<1>().to_vec(),
        2 => fs::<2>().to_vec(),
        3 => fs::<3>().to_vec(),
        _ => vec![],
    }
}
/// A string or name: empty, any one byte, or several (all: P01, P02).
pub fn bytes() -> Vec<u8> {
    match choose(3) {
        0 => vec![],
        1 => any_bytes(1),
        _ => b"a/\n)".to_vec(),
    }
}
/// `bytes()` where one of several arguments varies at a time.
pub fn bytes_if(vary: bool) -> Vec<u8> {
    if vary {
        bytes()
    } else {
        b"xy".to_vec()
    }
}
pub fn txt_if(vary: bool) -> (String, V) {
    if vary {
        txt()
    } else {
        ("qr".to_string(), V::Str(b"qr".to_vec()))
    }
}
pub fn u16_if(vary: bool) -> u16 {
    if vary {
        any_u16()
    } else {
        300
    }
}
pub fn u8_if(vary: bool) -> u8 {
    if vary {
        any_u8()
    } else {
        65
    }
}
pub fn int_if(vary: bool) -> i32 {
    if vary {
        int()
    } else {
        -20
    }
}
/// A text with one printable ASCII character of any kind, empty, or beyond ASCII.
pub fn txt() -> (String, V) {
    match choose(3) {
        0 => (String::new(), V::Str(vec![])),
        1 => {
            let b = any_u8();
            assume(b >= 32 && b < 127);
            (text(&[b, b'x']), V::Str(vec![b, b'x']))
        }
        _ => ("\u{20ac}".to_string(), V::Str(vec![0xfe, 0xff, 0x20, 0xac])),
    }
}
pub fn rect() -> (Rect, V) {
    let v = fs::<4>();
    (Rect::new(v[0], v[1], v[2], v[3]), V::Rect(v[0], v[1], v[2], v[3]))
}
pub fn date() -> (Date, V) {
    let m = any_u8();
    assume(m >= 1 && m <= 12);
    let d = [b'0' + m / 10, b'0' + m % 10];
    let mut s = b"D:2023".to_vec();
    s.extend_from_slice(&d);
    (Date::new(2023).month(m), V::Str(s))
}

/// Entries a writer makes on its own when it is started.
pub trait Mand {
    fn mand() -> E;
}

/// `c!(method: Kind "Key")`: a case, i.e. a call with arguments of the given
/// kind and the entry that must result.
#[macro_export]
macro_rules! c {
    ($m:ident: R $k:literal) => { |w| { let v = id(); w.$m(Ref::new(v)); one($k, V::Ref(v)) } };
    ($m:ident: I $k:literal) => { |w| { let v = int(); w.$m(v); one($k, V::Int(v)) } };
    ($m:ident: U8 $k:literal) => { |w| { let v = any_u8(); w.$m(v); one($k, V::Int(v as i32)) } };
    ($m:ident: U16 $k:literal) => { |w| { let v = any_u16(); w.$m(v); one($k, V::Int(v as i32)) } };
    ($m:ident: B $k:literal) => { |w| { let v = any_bool(); w.$m(v); one($k, V::Bool(v)) } };
    ($m:ident: F $k:literal) => { |w| { let v = num(); w.$m(v); one($k, V::Real(v)) } };
    ($m:ident: N $k:literal) => { |w| { let v = bytes(); w.$m(Name(&v)); one($k, V::Name(v)) } };
    ($m:ident: S $k:literal) => { |w| { let v = bytes(); w.$m(Str(&v)); one($k, V::Str(v)) } };
    ($m:ident: T $k:literal) => { |w| { let (s, v) = txt(); w.$m(TextStr(&s)); one($k, v) } };
    ($m:ident: RECT $k:literal) => { |w| { let (r, v) = rect(); w.$m(r); one($k, v) } };
    ($m:ident: DATE $k:literal) => { |w| { let (r, v) = date(); w.$m(r); one($k, v) } };
    // fixed and variable lists
    ($m:ident: FA[$n:literal] $k:literal) => { |w| { let v = fs::<$n>(); w.$m(v); one($k, reals(&v)) } };
    ($m:ident: FL $k:literal) => { |w| { let v = flist(); w.$m(v.iter().copied()); one($k, reals(&v)) } };
    ($m:ident: RL $k:literal) => { |w| {
        let v: Vec<i32> = items(id, |i| 400 - i as i32);
        w.$m(v.iter().map(|i| Ref::new(*i)));
        one($k, V::Arr(v.iter().map(|i| V::Ref(*i)).collect()))
    } };
    ($m:ident: IL $k:literal) => { |w| {
        let v: Vec<i32> = items(int, |i| 7 - 10 * i as i32);
        w.$m(v.iter().copied());
        one($k, ints(&v))
    } };
    ($m:ident: NL $k:literal) => { |w| {
        let v: Vec<Vec<u8>> = items(bytes, short);
        w.$m(v.iter().map(|n| Name(n)));
        one($k, V::Arr(v.into_iter().map(V::Name).collect()))
    } };
    ($m:ident: SL $k:literal) => { |w| {
        let v: Vec<Vec<u8>> = items(bytes, short);
        w.$m(v.iter().map(|n| Str(n)));
        one($k, V::Arr(v.into_iter().map(V::Str).collect()))
    } };
    ($m:ident: TL $k:literal) => { |w| {
        let v: Vec<(String, V)> = items(txt, |i| (text(&short(i)), V::Str(short(i))));
        w.$m(v.iter().map(|n| TextStr(&n.0)));
        one($k, V::Arr(v.into_iter().map(|x| x.1).collect()))
    } };
    // separate reals
    ($m:ident: F0 $k:literal) => { |w| { w.$m(); one($k, V::Arr(vec![])) } };
    ($m:ident: F1 $k:literal) => { |w| { let v = num(); w.$m(v); one($k, reals(&[v])) } };
    ($m:ident: F2 $k:literal) => { |w| { let v = fs::<2>(); w.$m(v[0], v[1]); one($k, reals(&v)) } };
    ($m:ident: F3 $k:literal) => { |w| { let v = fs::<3>(); w.$m(v[0], v[1], v[2]); one($k, reals(&v)) } };
    ($m:ident: F4 $k:literal) => { |w| { let v = fs::<4>(); w.$m(v[0], v[1], v[2], v[3]); one($k, reals(&v)) } };
    // a constant
    ($m:ident: CONST $k:literal $v:expr) => { |w| { w.$m(); one($k, $v) } };
    // enumerations: a table of values and spellings
    ($m:ident: E $k:literal $t:expr) => { |w| {
        let i = choose($t.len());
        w.$m($t[i].0);
        one($k, nm($t[i].1))
    } };
    // the same for enumerations that cannot be copied: a function of the index
    ($m:ident: EF $k:literal $t:expr) => { |w| {
        let (n, f): (usize, fn(usize) -> _) = $t;
        let (v, s) = f(choose(n));
        w.$m(v);
        one($k, nm(s))
    } };
    ($m:ident: EI $k:literal $t:expr) => { |w| {
        let i = choose($t.len());
        w.$m($t[i].0);
        one($k, V::Int($t[i].1))
    } };
    // nested dictionary writer
    ($m:ident: D $k:literal $t:ident) => { |w| {
        let v = id();
        let mut n = w.$m();
        n.pair(Name(b"Qq"), Ref::new(v));
        drop(n);
        one($k, V::Dict(join($t::mand(), one("Qq", V::Ref(v)))))
    } };
    // nested typed array of dictionary writers
    ($m:ident: AD $k:literal $t:ident) => { |w| {
        let k = choose(3);
        let mut n = w.$m();
        let mut e = vec![];
        for i in 0..k {
            let v = if i == 0 { id() } else { 3 };
            let mut d = n.push();
            d.pair(Name(b"Qq"), Ref::new(v));
            e.push(V::Dict(join($t::mand(), one("Qq", V::Ref(v)))));
        }
        drop(n);
        one($k, V::Arr(e))
    } };
    // nested typed array of references
    ($m:ident: AR $k:literal) => { |w| {
        let v: Vec<i32> = items(id, |i| 400 - i as i32);
        let mut n = w.$m();
        for i in &v {
            n.item(Ref::new(*i));
        }
        drop(n);
        one($k, V::Arr(v.iter().map(|i| V::Ref(*i)).collect()))
    } };
    // nested typed dictionary of references
    ($m:ident: DR $k:literal) => { |w| {
        let (a, b) = (id(), id());
        let mut n = w.$m();
        n.pair(Name(b"Q1"), Ref::new(a));
        n.pair(Name(b"Q2"), Ref::new(b));
        drop(n);
        one($k, V::Dict(join(one("Q1", V::Ref(a)), one("Q2", V::Ref(b)))))
    } };
    // name and number trees
    ($m:ident: NT $k:literal) => { |w| {
        let v = id();
        let mut n = w.$m();
        n.kids().item(Ref::new(v));
        drop(n);
        one($k, V::Dict(one("Kids", V::Arr(vec![V::Ref(v)]))))
    } };
}

/// `typed!(function, Type, [mandatory entries]; cases)` for writers that are
/// started on an object and dereference to a dictionary.
#[macro_export]
macro_rules! typed {
    ($f:ident, $t:ident, [$($k:literal $v:expr),*]; $($case:expr;)*) => {
        impl Mand for $t<'_> {
            fn mand() -> E {
                vec![$(($k.as_bytes().to_vec(), $v)),*]
            }
        }
        pub fn $f() {
            let cases: &[fn(&mut $t<'_>) -> E] = &[$($case),*];
            let pretty = choose(2) == 0;
            let k = choose(cases.len() + 1);
            let pair = choose(2) == 1;
            let l = if pair { choose(cases.len() + 1) } else { cases.len() };
            set_plain(pair);
            let mut c = Chunk::with_settings(Settings { pretty });
            let mut want = $t::mand();
            {
                let mut w = c.indirect(Ref::new(1)).start::<$t>();
                w.pair(Name(b"Aa"), 5);
                want.extend(one("Aa", V::Int(5)));
                if k < cases.len() {
                    want.extend(cases[k](&mut w));
                }
                if l < cases.len() {
                    let more = cases[l](&mut w);
                    if clash(&want, &more) {
                        return;
                    }
                    want.extend(more);
                }
                w.pair(Name(b"Zz"), Name(b"end"));
                want.extend(one("Zz", nm("end")));
            }
            verify(&c, V::Dict(want), concat!(stringify!($t), " writer"));
        }
    };
}

/// The same for streams: `typed_stream!(function, Type, start method, [..]; cases)`.
#[macro_export]
macro_rules! typed_stream {
    ($f:ident, $t:ident, $start:ident, [$($k:literal $v:expr),*]; $($case:expr;)*) => {
        pub fn $f() {
            let cases: &[fn(&mut $t<'_>) -> E] = &[$($case),*];
            let pretty = choose(2) == 0;
            let k = choose(cases.len() + 1);
            let pair = choose(2) == 1;
            let l = if pair { choose(cases.len() + 1) } else { cases.len() };
            set_plain(pair);
            let mut c = Chunk::with_settings(Settings { pretty });
            let mut want = one("Length", V::Int(2));
            want.extend(vec![$(($k.as_bytes().to_vec(), $v)),*] as E);
            {
                let mut w = c.$start(Ref::new(1), b"hi");
                w.pair(Name(b"Aa"), 5);
                want.extend(one("Aa", V::Int(5)));
                if k < cases.len() {
                    want.extend(cases[k](&mut w));
                }
                if l < cases.len() {
                    let more = cases[l](&mut w);
                    if clash(&want, &more) {
                        return;
                    }
                    want.extend(more);
                }
                w.pair(Name(b"Zz"), Name(b"end"));
                want.extend(one("Zz", nm("end")));
            }
            verify_stream(&c, V::Dict(want), b"hi");
        }
    };
}

/// Whether two calls set the same entry, which is for the user to avoid.
pub fn clash(a: &E, b: &E) -> bool {
    a.iter().any(|(k, _)| b.iter().any(|(n, _)| n == k))
}

pub fn verify(c: &Chunk, want: V, _what: &str) {
    match one_indirect(c.as_bytes(), 1) {
        Some(o) => {
            cover("read back");
            check(agrees_unordered(&o, &want), "the object has exactly the entries that the calls document");
        }
        None => check(false, "the object is well-formed"),
    }
}

pub fn verify_stream(c: &Chunk, want: V, data: &[u8]) {
    match tops(c.as_bytes()) {
        Some(t) if t.len() == 1 => match &t[0].data {
            Some(d) => {
                cover("read back");
                check(same(d, data), "the stream has its data");
                check(agrees_unordered(&t[0].ob, &want), "the stream dictionary has exactly the entries that the calls document");
            }
            None => check(false, "the object is a stream"),
        },
        _ => check(false, "the object is well-formed"),
    }
}

macro_rules! en {
    ($($id:ident: $t:ident = $($v:ident $(= $s:literal)?),*;)*) => {
        $(pub const $id: &[($t, &str)] = &[$(($t::$v, en!(@ $v $($s)?))),*];)*
    };
    (@ $v:ident) => { stringify!($v) };
    (@ $v:ident $s:literal) => { $s };
}
en! {
    PAGE_LAYOUT: PageLayout = SinglePage, OneColumn, TwoColumnLeft, TwoColumnRight, TwoPageLeft, TwoPageRight;
    PAGE_MODE: PageMode = UseNone, UseOutlines, UseThumbs, FullScreen, UseOC, UseAttachments;
    NFS_PAGE_MODE: PageMode = UseNone, UseOutlines, UseThumbs, UseOC, UseAttachments;
    DIRECTION: Direction = L2R, R2L;
    NUMBERING: NumberingStyle = Arabic = "D", LowerRoman = "r", UpperRoman = "R", LowerAlpha = "a", UpperAlpha = "A";
    TRAPPED: TrappingStatus = Trapped = "True", NotTrapped = "False", Unknown;
    TABS: TabOrder = RowOrder = "R", ColumnOrder = "C", StructureOrder = "S";
    PHONETIC: PhoneticAlphabet = Ipa = "ipa", XSampa = "x-sampa", Pinyin = "zh-Latn-pinyin", WadeGiles = "zh-Latn-wadegile";
    ROLES: StructRole = Document, Part, Art, Sect, Div, BlockQuote, Caption, TOC, TOCI, Index, NonStruct, Private, P,
        StructuredHeading = "H", H1, H2, H3, H4, H5, H6, L, LI, Lbl, LBody, Table, TR, TH, TD, THead, TBody, TFoot, Span, Quote, Note,
        Reference, BibEntry, Code, Link, Annot, Ruby, Warichu, RB, RT, RP, WT, WP, Figure, Formula, Form;
    ROLES2: StructRole2 = Document, DocumentFragment, Part, Sect, Div, Aside, NonStruct, P, StructuredHeading = "H", Title, FENote,
        Sub, Lbl, Span, Em, Strong, Link, Annot, Form, Ruby, RB, RT, RP, Warichu, WT, WP, L, LI, LBody, Table, TR, TH, TD, THead,
        TBody, TFoot, Caption, Figure, Formula, Artifact;
    ANNOTATION: AnnotationType = Text, Link, Line, Square, Circle, Highlight, Underline, Squiggly, StrikeOut, FileAttachment, Widget, Screen;
    ICON: AnnotationIcon = Comment, Key, Note, Help, NewParagraph, Paragraph, Insert, Graph, PushPin, Paperclip, Tag;
    ICON_SCALE: IconScale = Always = "A", Bigger = "B", Smaller = "S", Never = "N";
    ICON_SCALE_TYPE: IconScaleType = Anamorphic = "A", Proportional = "P";
    HIGHLIGHT: HighlightEffect = None = "N", Invert = "I", Outline = "O", Push = "P";
    BORDER: BorderType = Solid = "S", Dashed = "D", Beveled = "B", Inset = "I", Underline = "U";
    ACTION: ActionType = GoTo, RemoteGoTo = "GoToR", Launch, Uri = "URI", SubmitForm, ResetForm, ImportData, JavaScript, Rendition;
    FIELD: FieldType = Button = "Btn", Text = "Tx", Choice = "Ch", Signature = "Sig";
    LOCK: SignatureLockAction = All, Include, Exclude;
    DIGEST: SignatureDigestMethod = SHA1, SHA256, SHA384, SHA512, RIPEMD160;
    INTENT: LockingIntent = Lock = "true", DoNotLock = "false", Auto = "auto";
    URL: CertificateUrlType = Browser;
    ASSOCIATION: AssociationKind = Source, Data, Alternative, Supplement, EncryptedPayload, FormData, Schema, Unspecified;
    RENDERING: RenderingIntent = AbsoluteColorimetric, RelativeColorimetric, Saturation, Perceptual;
    RENDITION: RenditionType = Media = "MR", Selector = "SR";
    CLIP: MediaClipType = Data = "MCD", Section = "MCS";
    TRANSITION: TransitionStyle = Split, Blinds, Box, Wipe, Dissolve, Glitter, R, Fly, Push, Cover, Uncover, Fade;
    PLACEMENT: Placement = Block, Inline, Before, Start, End;
    WRITING: WritingMode = LtrTtb = "LrTb", RtlTtb = "RlTb", TtbRtl = "TbRl";
    LAYOUT_BORDER: LayoutBorderStyle = None, Hidden, Solid, Dashed, Dotted, Double, Groove, Ridge, Inset, Outset;
    TEXT_ALIGN: TextAlign = Start, Center, End, Justify;
    BLOCK_ALIGN: BlockAlign = Before, Middle, After, Justify;
    INLINE_ALIGN: InlineAlign = Start, Center, End;
    LAYOUT_POSITION: LayoutTextPosition = Normal, Superscript = "Sup", Subscript = "Sub";
    DECORATION: TextDecorationType = None, Underline, Overline, LineThrough;
    RUBY_ALIGN: RubyAlign = Start, Center, End, Justify, Distribute;
    RUBY_POSITION: RubyPosition = Before, After, Warichu, Inline;
    LIST: ListNumbering = None, Unordered, Ordered, Description, Disc, Circle, Square, Decimal, LowerRoman, UpperRoman, LowerAlpha, UpperAlpha;
    FIELD_ROLE: FieldRole = Button = "pb", CheckBox = "cb", RadioButton = "rb", TextField = "tv", ListBox = "lb";
    FIELD_STATE: FieldState = Unchecked = "off", Checked = "on", Neutral = "neutral";
    SCOPE: TableHeaderScope = Row, Column, Both;
    NOTE: NoteType = Footnote, Endnote, None;
    OWNER: AttributeOwner = Layout, List, PrintField, Table, Artifact, Xml = "XML-1.00", Html3_2 = "HTML-3.20", Html4 = "HTML-4.01",
        Html5 = "HTML-5.00", Oeb = "OEB-1.00", Rtf1_05 = "RTF-1.05", Css1 = "CSS-1.00", Css2 = "CSS-2.00", Css3 = "CSS-3",
        Rdfa1_1 = "RDFa-1.10", Aria1_1 = "ARIA-1.1", FENote, NSO, User = "UserProperties";
    OWNER_2020: AttributeOwner = Layout, List, PrintField, Table, Artifact, Xml = "XML-1.00", Html3_2 = "HTML-3.20", Html4 = "HTML-4.01",
        Html5 = "HTML-5.00", Oeb = "OEB-1.00", Rtf1_05 = "RTF-1.05", Css1 = "CSS-1", Css2 = "CSS-2", Css3 = "CSS-3",
        Rdfa1_1 = "RDFa-1.10", Aria1_1 = "ARIA-1.1", FENote, NSO, User = "UserProperties";
    ARTIFACT: ArtifactType = Pagination, Layout, Page, Background, Inline;
    CID_FONT: CidFontType = Type0 = "CIDFontType0", Type2 = "CIDFontType2";
    CJK: CjkClass = Alphabetic, AlphaNum, Dingbats, DingbatsRot, Generic, GenericRot, Hangul, Hanja, Hanzi, HRoman, HRomanRot, HKana,
        HKanaRot, HojoKanji, Kana, Kanji, Proportional, ProportionalRot, Ruby;
    STRETCH: FontStretch = UltraCondensed, ExtraCondensed, Condensed, SemiCondensed, Normal, SemiExpanded, Expanded, ExtraExpanded, UltraExpanded;
    PROC_SET: ProcSet = Pdf = "PDF", Text, ImageGrayscale = "ImageB", ImageColor = "ImageC", ImageIndexed = "ImageI";
    BLEND: BlendMode = Normal, Multiply, Screen, Overlay, Darken, Lighten, ColorDodge, ColorBurn, HardLight, SoftLight, Difference,
        Exclusion, Hue, Saturation, Color, Luminosity;
    MASK: MaskType = Alpha, Luminosity;
    OUTPUT_INTENT: OutputIntentSubtype = PDFX = "GTS_PDFX", PDFA = "GTS_PDFA1", PDFE = "ISO_PDFE1";
}
pub const CHECK_BOX: (usize, fn(usize) -> (CheckBoxState, &'static str)) =
    (2, |i| if i == 0 { (CheckBoxState::Yes, "Yes") } else { (CheckBoxState::Off, "Off") });
macro_rules! ei {
    ($($id:ident: $t:ident = $($v:ident = $s:literal),*;)*) => {
        $(pub const $id: &[($t, i32)] = &[$(($t::$v, $s)),*];)*
    };
}
ei! {
    TEXT_POSITION: TextPosition = CaptionOnly = 0, IconOnly = 1, Below = 2, Above = 3, Right = 4, Left = 5, Overlaid = 6;
    OPERATION: RenditionOperation = Play = 0, Stop = 1, Pause = 2, Resume = 3, PlayOrResume = 4;
    QUADDING: Quadding = Left = 0, Center = 1, Right = 2;
    PERMISSIONS: AccessPermissions = NoChanges = 1, FillAndSign = 2, Annotations = 3;
    SEED_VERSION: SeedValueParserVersion = Pdf15 = 1, Pdf17 = 2, Pdf20 = 3;
    WMODE: WMode = Horizontal = 0, Vertical = 1;
    SMASK: SMaskInData = Ignore = 0, Use = 1, Preblended = 2;
    LINE_CAP: LineCapStyle = ButtCap = 0, RoundCap = 1, ProjectingSquareCap = 2;
    LINE_JOIN: LineJoinStyle = MiterJoin = 0, RoundJoin = 1, BevelJoin = 2;
    OVERPRINT: OverprintMode = OverrideAllColorants = 0, IgnoreZeroChannel = 1;
    PAINT: PaintType = Colored = 1, Uncolored = 2;
    TILING: TilingType = ConstantSpacing = 1, NoDistortion = 2, FastConstantSpacing = 3;
    SHADING: FunctionShadingType = Function = 1, Axial = 2, Radial = 3;
    STREAM_SHADING: StreamShadingType = FreeformGouraud = 4, LatticeGouraud = 5, CoonsPatch = 6, TensorProductPatch = 7;
    INTERPOLATION: InterpolationOrder = Linear = 1, Cubic = 3;
}
