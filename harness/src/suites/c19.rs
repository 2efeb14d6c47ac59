//! Serialisation: what is written and what is read back, through JSON and through hand-driven formats.
use crate::core::Ctx;
use crate::gen::{self, Arena};
use crate::{check, check_eq};
use bytedata::{ByteData, SharedBytes, StringData};
use serde::de::value::{BorrowedStrDeserializer, Error as DeError, SeqDeserializer, StrDeserializer, StringDeserializer};
use serde::de::{self, Deserialize, Deserializer, IntoDeserializer, Visitor};
use serde::ser::{Impossible, Serialize, Serializer};

/// What a value asked its format to write.
#[derive(Debug, PartialEq, Clone)]
enum Wrote {
    Bytes(Vec<u8>),
    Str(String),
    None,
}
#[derive(Debug)]
struct SerErr;
impl std::fmt::Display for SerErr {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str("unexpected serialisation request")
    }
}
impl std::error::Error for SerErr {}
impl serde::ser::Error for SerErr {
    fn custom<T: std::fmt::Display>(_: T) -> Self {
        SerErr
    }
}
struct Rec;
macro_rules! no {
    ($($f:ident: $t:ty),*) => { $(fn $f(self, _: $t) -> Result<Wrote, SerErr> { Err(SerErr) })* };
}
impl Serializer for Rec {
    type Ok = Wrote;
    type Error = SerErr;
    type SerializeSeq = Impossible<Wrote, SerErr>;
    type SerializeTuple = Impossible<Wrote, SerErr>;
    type SerializeTupleStruct = Impossible<Wrote, SerErr>;
    type SerializeTupleVariant = Impossible<Wrote, SerErr>;
    type SerializeMap = Impossible<Wrote, SerErr>;
    type SerializeStruct = Impossible<Wrote, SerErr>;
    type SerializeStructVariant = Impossible<Wrote, SerErr>;
    no!(serialize_bool: bool, serialize_i8: i8, serialize_i16: i16, serialize_i32: i32, serialize_i64: i64, serialize_u8: u8, serialize_u16: u16, serialize_u32: u32, serialize_u64: u64, serialize_f32: f32, serialize_f64: f64, serialize_char: char, serialize_unit_struct: &'static str);
    fn serialize_str(self, v: &str) -> Result<Wrote, SerErr> {
        Ok(Wrote::Str(v.to_string()))
    }
    fn serialize_bytes(self, v: &[u8]) -> Result<Wrote, SerErr> {
        Ok(Wrote::Bytes(v.to_vec()))
    }
    fn serialize_none(self) -> Result<Wrote, SerErr> {
        Ok(Wrote::None)
    }
    fn serialize_some<T: ?Sized + Serialize>(self, v: &T) -> Result<Wrote, SerErr> {
        v.serialize(Rec)
    }
    fn serialize_unit(self) -> Result<Wrote, SerErr> {
        Err(SerErr)
    }
    fn serialize_unit_variant(self, _: &'static str, _: u32, _: &'static str) -> Result<Wrote, SerErr> {
        Err(SerErr)
    }
    fn serialize_newtype_struct<T: ?Sized + Serialize>(self, _: &'static str, _: &T) -> Result<Wrote, SerErr> {
        Err(SerErr)
    }
    fn serialize_newtype_variant<T: ?Sized + Serialize>(self, _: &'static str, _: u32, _: &'static str, _: &T) -> Result<Wrote, SerErr> {
        Err(SerErr)
    }
    fn serialize_seq(self, _: Option<usize>) -> Result<Self::SerializeSeq, SerErr> {
        Err(SerErr)
    }
    fn serialize_tuple(self, _: usize) -> Result<Self::SerializeTuple, SerErr> {
        Err(SerErr)
    }
    fn serialize_tuple_struct(self, _: &'static str, _: usize) -> Result<Self::SerializeTupleStruct, SerErr> {
        Err(SerErr)
    }
    fn serialize_tuple_variant(self, _: &'static str, _: u32, _: &'static str, _: usize) -> Result<Self::SerializeTupleVariant, SerErr> {
        Err(SerErr)
    }
    fn serialize_map(self, _: Option<usize>) -> Result<Self::SerializeMap, SerErr> {
        Err(SerErr)
    }
    fn serialize_struct(self, _: &'static str, _: usize) -> Result<Self::SerializeStruct, SerErr> {
        Err(SerErr)
    }
    fn serialize_struct_variant(self, _: &'static str, _: u32, _: &'static str, _: usize) -> Result<Self::SerializeStructVariant, SerErr> {
        Err(SerErr)
    }
}

/// How a binary format presents its content.
#[derive(Clone, Copy, Debug, PartialEq)]
enum How {
    Borrowed,
    Transient,
    Owned,
}
struct Drive<'de> {
    how: How,
    text: bool,
    data: &'de [u8],
    opt: Option<bool>,
    /// a format that does not mark optional values: presents the value itself
    bare: bool,
}
impl<'de> Deserializer<'de> for Drive<'de> {
    type Error = DeError;
    fn deserialize_any<V: Visitor<'de>>(self, v: V) -> Result<V::Value, DeError> {
        match (self.text, self.how) {
            (false, How::Borrowed) => v.visit_borrowed_bytes(self.data),
            (false, How::Owned) => v.visit_byte_buf(self.data.to_vec()),
            (false, How::Transient) => {
                let mut b = self.data.to_vec();
                let r = v.visit_bytes(&b);
                b.fill(0xEE);
                r
            }
            (true, how) => {
                let s = std::str::from_utf8(self.data).expect("driver text");
                match how {
                    How::Borrowed => v.visit_borrowed_str(s),
                    How::Owned => v.visit_string(s.to_string()),
                    How::Transient => {
                        let t = s.to_string();
                        let r = v.visit_str(&t);
                        t.into_bytes().fill(0xEE);
                        r
                    }
                }
            }
        }
    }
    fn deserialize_option<V: Visitor<'de>>(mut self, v: V) -> Result<V::Value, DeError> {
        if self.bare {
            return self.deserialize_any(v);
        }
        match self.opt.take() {
            Some(true) => v.visit_some(self),
            Some(false) => v.visit_none(),
            None => v.visit_unit(),
        }
    }
    serde::forward_to_deserialize_any! { bool i8 i16 i32 i64 u8 u16 u32 u64 f32 f64 char str string bytes byte_buf unit unit_struct newtype_struct seq tuple tuple_struct map struct enum identifier ignored_any }
}
impl<'de> IntoDeserializer<'de, DeError> for Drive<'de> {
    type Deserializer = Self;
    fn into_deserializer(self) -> Self {
        self
    }
}

#[derive(serde::Serialize, serde::Deserialize)]
struct Rw<'a> {
    #[serde(borrow)]
    s: StringData<'a>,
    #[serde(borrow)]
    b: ByteData<'a>,
    h: SharedBytes,
    n: u32,
}
#[derive(serde::Deserialize)]
struct Owned {
    #[serde(deserialize_with = "StringData::deserialize_static")]
    s: StringData<'static>,
    #[serde(deserialize_with = "ByteData::deserialize_static")]
    b: ByteData<'static>,
    h: SharedBytes,
    n: u32,
}
#[derive(serde::Deserialize)]
struct Multi {
    #[serde(deserialize_with = "StringData::deserialize_static_opt")]
    o: Option<StringData<'static>>,
    #[serde(deserialize_with = "StringData::deserialize_static_vec")]
    v: Vec<StringData<'static>>,
    #[serde(deserialize_with = "ByteData::deserialize_static_vec")]
    w: Vec<ByteData<'static>>,
    #[serde(deserialize_with = "ByteData::deserialize_static_opt")]
    p: Option<ByteData<'static>>,
}

fn ok<T, E: std::fmt::Debug>(r: Result<T, E>, what: &str) -> T {
    match r {
        Ok(v) => v,
        Err(e) => crate::core::violation(format!("{what} failed: {e:?}")),
    }
}

fn writes(cx: &mut Ctx, ar: &Arena) {
    let c = gen::bytes(&mut cx.rng);
    let t = gen::text(&mut cx.rng);
    cx.ev("writes", (c.len() * 4096 + t.len()) as u64);
    cx.note(|| format!("writing {} byte(s) and {t:?}", c.len()));
    let d = gen::bd(cx, ar, &c);
    let s = gen::sd(cx, ar, &t);
    check_eq!(ok(d.serialize(Rec), "serialising ByteData"), Wrote::Bytes(c.clone()), "ByteData serialises as");
    check_eq!(ok(SharedBytes::from_slice(&c).serialize(Rec), "serialising SharedBytes"), Wrote::Bytes(c.clone()), "SharedBytes serialises as");
    check_eq!(ok(s.serialize(Rec), "serialising StringData"), Wrote::Str(t.clone()), "StringData serialises as");
    check_eq!(serde_json::to_string(&s).ok(), serde_json::to_string(&t).ok(), "JSON of a text");
    check_eq!(serde_json::to_string(&d).ok(), serde_json::to_string(&c).ok(), "JSON of bytes");
}

fn json(cx: &mut Ctx, ar: &Arena) {
    let c = gen::bytes(&mut cx.rng);
    let t = gen::text(&mut cx.rng);
    let h = gen::bytes(&mut cx.rng);
    cx.ev("json", (c.len() * 4096 + t.len()) as u64);
    cx.mix(h.len() as u64);
    let v = Rw { s: gen::sd(cx, ar, &t), b: gen::bd(cx, ar, &c), h: SharedBytes::from_slice(&h), n: 7 };
    let mut js = ok(serde_json::to_string(&v), "to JSON");
    drop(v);
    let how = cx.rng.below(6);
    cx.mix(how as u64);
    cx.note(|| format!("JSON read back (way {how}): {js}"));
    // strings with escapes can not be handed over borrowed
    macro_rules! same {
        ($x:expr) => {{
            let x = $x;
            check_eq!(x.s.as_str(), t, "text read back");
            check_eq!(x.b.as_slice(), &c[..], "bytes read back");
            check_eq!(x.h.as_slice(), &h[..], "shared bytes read back");
            check_eq!(x.n, 7, "number read back");
            drop(x);
        }};
    }
    match how {
        0 => same!(ok(serde_json::from_str::<Rw<'_>>(&js), "from JSON str")),
        1 => same!(ok(serde_json::from_slice::<Rw<'_>>(js.as_bytes()), "from JSON slice")),
        2 | 3 => {
            let x = if how == 2 { ok(serde_json::from_str::<Owned>(&js), "owned from JSON str") } else { ok(serde_json::from_reader::<_, Owned>(js.as_bytes()), "owned from JSON reader") };
            // the source is gone before the value is looked at
            // SAFETY: zero bytes are valid text
            unsafe { js.as_bytes_mut() }.fill(0);
            drop(js);
            same!(x)
        }
        4 => {
            let val = ok(serde_json::from_str::<serde_json::Value>(&js), "JSON value");
            same!(ok(serde_json::from_value::<Owned>(val), "owned from JSON value"))
        }
        _ => {
            let val = ok(serde_json::from_str::<serde_json::Value>(&js), "JSON value");
            same!(ok(Rw::deserialize(&val), "borrowed from JSON value"))
        }
    }
}

fn multi(cx: &mut Ctx) {
    let k = cx.rng.below(5);
    let v: Vec<String> = (0..k).map(|_| { let n = gen::small_len(&mut cx.rng); gen::text_n(&mut cx.rng, n) }).collect();
    let w: Vec<Vec<u8>> = (0..cx.rng.below(4)).map(|_| { let n = gen::small_len(&mut cx.rng); gen::bytes_n(&mut cx.rng, n) }).collect();
    let o = if cx.rng.chance(1, 2) { Some(gen::text(&mut cx.rng)) } else { None };
    let p = if cx.rng.chance(1, 2) { Some(gen::bytes(&mut cx.rng)) } else { None };
    cx.ev("multi", (k * 8 + usize::from(o.is_some()) * 2 + usize::from(p.is_some())) as u64);
    cx.mix(w.iter().map(Vec::len).sum::<usize>() as u64);
    cx.mix(o.as_ref().map_or(0, String::len) as u64);
    let js = serde_json::json!({"o": o, "v": v, "w": w, "p": p}).to_string();
    cx.note(|| js.clone());
    let m: Multi = if cx.rng.chance(1, 2) { ok(serde_json::from_str(&js), "Multi from str") } else { ok(serde_json::from_reader(js.as_bytes()), "Multi from reader") };
    drop(js);
    check_eq!(m.o.as_ref().map(|x| x.as_str()), o.as_deref(), "optional text");
    check_eq!(m.p.as_ref().map(|x| x.as_slice()), p.as_deref(), "optional bytes");
    check_eq!(m.v.iter().map(|x| x.as_str()).collect::<Vec<_>>(), v.iter().map(|x| x.as_str()).collect::<Vec<_>>(), "texts");
    check_eq!(m.w.iter().map(|x| x.as_slice().to_vec()).collect::<Vec<_>>(), w, "byte strings");
}

fn driven(cx: &mut Ctx) {
    let how = *cx.rng.pick(&[How::Borrowed, How::Transient, How::Owned]);
    let text = cx.rng.chance(1, 2);
    let c = if text { gen::text(&mut cx.rng).into_bytes() } else { gen::bytes(&mut cx.rng) };
    let want = c.clone();
    let opt = match cx.rng.below(3) {
        0 => Some(true),
        1 => Some(false),
        _ => None,
    };
    let kind = cx.rng.below(11);
    cx.ev("driven", (kind * 100 + how as usize * 10 + usize::from(text)) as u64);
    cx.mix(c.len() as u64);
    cx.note(|| format!("driven kind {kind} {how:?} text={text} {} byte(s) opt {opt:?}", c.len()));
    let mut src = c;
    let dr = |src: &[u8], how: How| -> Drive<'static> {
        // SAFETY: only used while `src` is untouched; values meant to outlive it are what is being tested
        let data: &'static [u8] = unsafe { std::slice::from_raw_parts(src.as_ptr(), src.len()) };
        Drive { how, text, data, opt: None, bare: false }
    };
    match kind {
        // borrowed forms, looked at while the input lives
        0 if text => {
            let x = ok(StringData::deserialize(dr(&src, how)), "text from a string");
            check_eq!(x.as_bytes(), &want[..], "text from a {how:?} string");
        }
        0 => {
            let x = ok(ByteData::deserialize(dr(&src, how)), "bytes from a byte string");
            check_eq!(x.as_slice(), &want[..], "bytes from a {how:?} byte string");
        }
        // forms that must not refer to the input afterwards
        1..=3 if text => {
            let x = if how == How::Borrowed { ok(StringData::deserialize_static(dr(&src, how)), "static text") } else { ok(StringData::deserialize(dr(&src, how)), "text") };
            src.fill(0xEE);
            drop(src);
            check_eq!(x.as_bytes(), &want[..], "text from a {how:?} string after the input is gone");
        }
        1..=3 => {
            let x = if how == How::Borrowed || kind == 3 { ok(ByteData::deserialize_static(dr(&src, how)), "static bytes") } else { ok(ByteData::deserialize(dr(&src, how)), "bytes") };
            src.fill(0xEE);
            drop(src);
            check_eq!(x.as_slice(), &want[..], "bytes from a {how:?} byte string after the input is gone");
        }
        4 if !text => {
            let x = ok(SharedBytes::deserialize(dr(&src, how)), "shared bytes");
            src.fill(0xEE);
            drop(src);
            check_eq!(x.as_slice(), &want[..], "shared bytes from a {how:?} byte string");
        }
        5 => {
            let mut d = dr(&src, how);
            d.opt = opt;
            d.bare = cx.rng.chance(1, 3);
            let some = d.bare || opt == Some(true);
            cx.mix(u64::from(d.bare));
            cx.count(if d.bare { "opt_bare" } else { "opt_marked" });
            let got = if text {
                let x = ok(StringData::deserialize_static_opt(d), "optional text");
                src.fill(0xEE);
                x.map(|x| x.as_bytes().to_vec())
            } else {
                let x = ok(ByteData::deserialize_static_opt(d), "optional bytes");
                src.fill(0xEE);
                x.map(|x| x.as_slice().to_vec())
            };
            check_eq!(got, if some { Some(want) } else { None }, "optional value");
        }
        6 => {
            // sequences of values
            let k = cx.rng.below(4);
            let parts: Vec<&[u8]> = (0..k).map(|_| &src[..]).collect();
            let got: Vec<Vec<u8>> = if text {
                let it = parts.iter().map(|p| dr(p, how));
                ok(StringData::deserialize_static_vec(SeqDeserializer::<_, DeError>::new(it)), "texts").iter().map(|x| x.as_bytes().to_vec()).collect()
            } else {
                let it = parts.iter().map(|p| dr(p, how));
                ok(ByteData::deserialize_static_vec(SeqDeserializer::<_, DeError>::new(it)), "byte strings").iter().map(|x| x.as_slice().to_vec()).collect()
            };
            check_eq!(got.len(), k, "number of values");
            check!(got.iter().all(|g| *g == want), "values of a sequence");
        }
        7 => {
            // bytes presented as a sequence, with honest and dishonest hints
            let hint = match cx.rng.below(3) {
                0 => Some(src.len()),
                1 => None,
                _ => Some(usize::MAX),
            };
            let x = match cx.rng.below(3) {
                0 => ok(ByteData::deserialize(SeqHint { it: src.iter(), hint }), "bytes from a sequence").as_slice().to_vec(),
                1 => ok(ByteData::deserialize_static(SeqHint { it: src.iter(), hint }), "static bytes from a sequence").as_slice().to_vec(),
                _ => ok(SharedBytes::deserialize(SeqHint { it: src.iter(), hint }), "shared bytes from a sequence").as_slice().to_vec(),
            };
            check_eq!(x, want, "bytes from a sequence");
        }
        8 => scalars(cx),
        9 => broken(cx, &src, text),
        _ => {
            // standard drivers; and wrong kinds of input are refused, not misread
            if let Ok(s) = std::str::from_utf8(&src) {
                let a = ok(StringData::deserialize(BorrowedStrDeserializer::<DeError>::new(s)), "borrowed str");
                check_eq!(a.as_str(), s, "borrowed str");
                let a = ok(StringData::deserialize(StrDeserializer::<DeError>::new(s)), "str");
                check_eq!(a.as_str(), s, "str");
                let d: StringDeserializer<DeError> = s.to_string().into_deserializer();
                let a = ok(StringData::deserialize(d), "String");
                check_eq!(a.as_str(), s, "String");
                if let Ok(a) = ByteData::deserialize(StrDeserializer::<DeError>::new(s)) {
                    check_eq!(a.as_slice(), s.as_bytes(), "bytes from a str");
                }
            }
            let bad = Drive { how, text: false, data: &src, opt: None, bare: false };
            if let Ok(x) = StringData::deserialize(bad) {
                check_eq!(Some(x.as_str()), std::str::from_utf8(&want).ok(), "text from raw bytes");
            }
            let n: de::value::U64Deserializer<DeError> = 5u64.into_deserializer();
            check!(StringData::deserialize(n).is_err(), "a number is accepted as text");
            let n: de::value::BoolDeserializer<DeError> = true.into_deserializer();
            check!(ByteData::deserialize(n).is_err(), "a bool is accepted as bytes");
            check!(serde_json::from_str::<SharedBytes>("[1,2,256]").is_err(), "256 is accepted as a byte");
            check!(serde_json::from_str::<ByteData<'_>>("[1,-2]").is_err(), "-2 is accepted as a byte");
        }
    }
}

/// Presents one value that is neither text nor bytes, marked as optional or not.
#[derive(Clone)]
enum Odd {
    Bool(bool),
    I8(i8),
    I16(i16),
    I32(i32),
    I64(i64),
    I128(i128),
    U8(u8),
    U16(u16),
    U32(u32),
    U64(u64),
    U128(u128),
    F32(f32),
    F64(f64),
    Char(char),
    Unit,
    Newtype(Vec<u8>),
    Seq(Vec<u8>),
    Map(Vec<(u8, u8)>),
    Enum(u32),
}
#[derive(Clone)]
struct OddDe(Odd);
impl<'de> Deserializer<'de> for OddDe {
    type Error = DeError;
    fn deserialize_any<V: Visitor<'de>>(self, v: V) -> Result<V::Value, DeError> {
        match self.0 {
            Odd::Bool(x) => v.visit_bool(x),
            Odd::I8(x) => v.visit_i8(x),
            Odd::I16(x) => v.visit_i16(x),
            Odd::I32(x) => v.visit_i32(x),
            Odd::I64(x) => v.visit_i64(x),
            Odd::I128(x) => v.visit_i128(x),
            Odd::U8(x) => v.visit_u8(x),
            Odd::U16(x) => v.visit_u16(x),
            Odd::U32(x) => v.visit_u32(x),
            Odd::U64(x) => v.visit_u64(x),
            Odd::U128(x) => v.visit_u128(x),
            Odd::F32(x) => v.visit_f32(x),
            Odd::F64(x) => v.visit_f64(x),
            Odd::Char(x) => v.visit_char(x),
            Odd::Unit => v.visit_unit(),
            Odd::Newtype(x) => v.visit_newtype_struct(SeqDeserializer::new(x.into_iter())),
            Odd::Seq(x) => v.visit_seq(SeqDeserializer::new(x.into_iter())),
            Odd::Map(x) => v.visit_map(de::value::MapDeserializer::new(x.into_iter())),
            Odd::Enum(x) => {
                let d: de::value::U32Deserializer<DeError> = x.into_deserializer();
                v.visit_enum(d)
            }
        }
    }
    serde::forward_to_deserialize_any! { bool i8 i16 i32 i64 i128 u8 u16 u32 u64 u128 f32 f64 char str string bytes byte_buf option unit unit_struct newtype_struct seq tuple tuple_struct map struct enum identifier ignored_any }
}
/// Input of other kinds: what the plain form makes of it, the optional form makes of it as well.
fn scalars(cx: &mut Ctx) {
    let x = cx.rng.u64();
    let k = cx.rng.below(19);
    let v: Vec<u8> = { let n = gen::small_len(&mut cx.rng); gen::bytes_n(&mut cx.rng, n) };
    let odd = OddDe(match k {
        0 => Odd::Bool(x & 1 == 1),
        1 => Odd::I8(x as i8),
        2 => Odd::I16(x as i16),
        3 => Odd::I32(x as i32),
        4 => Odd::I64(x as i64),
        5 => Odd::I128(i128::from(x) << 3),
        6 => Odd::U8(x as u8),
        7 => Odd::U16(x as u16),
        8 => Odd::U32(x as u32),
        9 => Odd::U64(x),
        10 => Odd::U128(u128::from(x) << 3),
        11 => Odd::F32(x as f32),
        12 => Odd::F64(x as f64),
        13 => Odd::Char(gen::ch(&mut cx.rng)),
        14 => Odd::Unit,
        15 => Odd::Newtype(v.clone()),
        16 => Odd::Seq(v.clone()),
        17 => Odd::Map(v.chunks_exact(2).map(|w| (w[0], w[1])).collect()),
        _ => Odd::Enum(x as u32),
    });
    cx.mix(k as u64);
    cx.count("odd_kind");
    let t = StringData::deserialize(odd.clone()).ok().map(|x| x.as_bytes().to_vec());
    let b = ByteData::deserialize(odd.clone()).ok().map(|x| x.as_slice().to_vec());
    let h = SharedBytes::deserialize(odd.clone()).ok().map(|x| x.as_slice().to_vec());
    match k {
        // a character is one of the ways to present a text of one character
        13 => {
            let Odd::Char(c) = odd.0 else { unreachable!() };
            check!(t.as_ref().map_or(true, |t| *t == c.to_string().as_bytes()), "text from the character {c:?}: {t:02x?}");
            check!(b.as_ref().map_or(true, |b| *b == c.to_string().as_bytes()), "bytes from the character {c:?}: {b:02x?}");
        }
        16 => {
            check!(t.is_none(), "text accepted from a sequence");
            check_eq!((b.as_ref(), h.as_ref()), (Some(&v), Some(&v)), "bytes from a sequence");
        }
        15 => {
            check!(b.as_ref().map_or(true, |b| *b == v) && h.as_ref().map_or(true, |h| *h == v), "bytes from a newtype");
        }
        _ => {
            check!(t.is_none() && b.is_none() && h.is_none(), "input of kind {k} accepted: text {t:02x?} bytes {b:02x?} shared {h:02x?}");
        }
    }
    let ot = StringData::deserialize_static_opt(odd.clone());
    let ob = ByteData::deserialize_static_opt(odd.clone());
    if k == 14 {
        check!(matches!(ot, Ok(None)) && matches!(ob, Ok(None)), "a unit is not taken for an absent value");
    } else {
        let st = StringData::deserialize_static(odd.clone()).ok().map(|x| x.as_bytes().to_vec());
        let sb = ByteData::deserialize_static(odd.clone()).ok().map(|x| x.as_slice().to_vec());
        check_eq!((st.as_ref(), sb.as_ref()), (t.as_ref(), b.as_ref()), "static and plain form on input of kind {}", k);
        check_eq!(ot.map(|x| x.map(|x| x.as_bytes().to_vec())).ok(), st.map(Some), "optional text on input of kind {}", k);
        check_eq!(ob.map(|x| x.map(|x| x.as_slice().to_vec())).ok(), sb.map(Some), "optional bytes on input of kind {}", k);
    }
    // messages about refused input are produced without failing
    if let Err(e) = StringData::deserialize(odd.clone()) {
        check!(!e.to_string().is_empty(), "error without message");
    }
    if let Err(e) = ByteData::deserialize_static_vec(odd) {
        check!(!e.to_string().is_empty(), "error without message");
    }
}
/// A sequence that fails part of the way.
struct FailSeq<'x> {
    it: std::slice::Iter<'x, u8>,
    left: usize,
}
impl<'de> de::SeqAccess<'de> for FailSeq<'_> {
    type Error = DeError;
    fn next_element_seed<T: de::DeserializeSeed<'de>>(&mut self, seed: T) -> Result<Option<T::Value>, DeError> {
        if self.left == 0 {
            return Err(de::Error::custom("broken input"));
        }
        self.left -= 1;
        let b = *self.it.next().unwrap_or(&0);
        let d: de::value::U8Deserializer<DeError> = b.into_deserializer();
        seed.deserialize(d).map(Some)
    }
    fn size_hint(&self) -> Option<usize> {
        Some(self.it.len())
    }
}
impl<'de> Deserializer<'de> for FailSeq<'_> {
    type Error = DeError;
    fn deserialize_any<V: Visitor<'de>>(self, v: V) -> Result<V::Value, DeError> {
        v.visit_seq(self)
    }
    serde::forward_to_deserialize_any! { bool i8 i16 i32 i64 u8 u16 u32 u64 f32 f64 char str string bytes byte_buf option unit unit_struct newtype_struct seq tuple tuple_struct map struct enum identifier ignored_any }
}
/// Broken input is reported, whatever was read before it.
fn broken(cx: &mut Ctx, src: &[u8], text: bool) {
    let left = cx.rng.below(src.len() + 1);
    cx.count("broken");
    cx.mix(left as u64);
    let f = || FailSeq { it: src.iter(), left };
    check!(ByteData::deserialize(f()).is_err(), "a sequence failing after {left} bytes is accepted as bytes");
    check!(ByteData::deserialize_static(f()).is_err(), "a sequence failing after {left} bytes is accepted as static bytes");
    check!(SharedBytes::deserialize(f()).is_err(), "a sequence failing after {left} bytes is accepted as shared bytes");
    check!(ByteData::deserialize_static_vec(f()).is_err(), "a sequence of numbers is accepted as byte strings");
    // JSON cut anywhere
    if text {
        let s = std::str::from_utf8(src).expect("driver text");
        let js = serde_json::to_string(&[s, "x", s]).unwrap();
        let mut cut = cx.rng.below(js.len());
        while !js.is_char_boundary(cut) {
            cut -= 1;
        }
        let mut d = serde_json::Deserializer::from_str(&js[..cut]);
        check!(StringData::deserialize_static_vec(&mut d).is_err(), "text sequence cut after {cut} bytes is accepted");
        let mut d = serde_json::Deserializer::from_str(&js);
        let got = ok(StringData::deserialize_static_vec(&mut d), "texts from JSON");
        check_eq!(got.iter().map(|x| x.as_str()).collect::<Vec<_>>(), vec![s, "x", s], "texts from JSON");
    }
}

struct SeqHint<'x> {
    it: std::slice::Iter<'x, u8>,
    hint: Option<usize>,
}
impl<'de> de::SeqAccess<'de> for SeqHint<'_> {
    type Error = DeError;
    fn next_element_seed<T: de::DeserializeSeed<'de>>(&mut self, seed: T) -> Result<Option<T::Value>, DeError> {
        match self.it.next() {
            None => Ok(None),
            Some(b) => {
                let d: de::value::U8Deserializer<DeError> = (*b).into_deserializer();
                seed.deserialize(d).map(Some)
            }
        }
    }
    fn size_hint(&self) -> Option<usize> {
        self.hint
    }
}
impl<'de> Deserializer<'de> for SeqHint<'_> {
    type Error = DeError;
    fn deserialize_any<V: Visitor<'de>>(self, v: V) -> Result<V::Value, DeError> {
        v.visit_seq(self)
    }
    serde::forward_to_deserialize_any! { bool i8 i16 i32 i64 u8 u16 u32 u64 f32 f64 char str string bytes byte_buf option unit unit_struct newtype_struct seq tuple tuple_struct map struct enum identifier ignored_any }
}

pub fn run(cx: &mut Ctx) {
    let ar = Arena::new();
    match cx.rng.below(10) {
        0 | 1 => writes(cx, &ar),
        2..=4 => json(cx, &ar),
        5 => multi(cx),
        _ => driven(cx),
    }
    ar.audit_exts();
}
