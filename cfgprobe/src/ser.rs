//! Serialisation.
use crate::Cx;
use bytedata::*;
use serde::de::value::{BorrowedBytesDeserializer, BorrowedStrDeserializer, BytesDeserializer, Error, SeqDeserializer, StrDeserializer};
use serde::de::IntoDeserializer;
use serde::Deserialize;

pub fn run(cx: &mut Cx) {
    for _ in 0..4 {
        let d = cx.bytes(40);
        let t = cx.text(40);
        let show = |r: Result<ByteData<'static>, Error>| r.map(|b| b.as_slice().to_vec()).map_err(|_| ());
        let shows = |r: Result<StringData<'static>, Error>| r.map(|b| b.as_str().to_string()).map_err(|_| ());
        cx.call("bytes", || show(ByteData::deserialize(BorrowedBytesDeserializer::new(d))));
        cx.call("str", || show(ByteData::deserialize(BorrowedStrDeserializer::new(t))));
        cx.call("text", || shows(StringData::deserialize(BorrowedStrDeserializer::new(t))));
        let short = &d[..d.len().min(14)];
        let mut e = t.len().min(14);
        while !t.is_char_boundary(e) {
            e -= 1;
        }
        // transient content that fits inline
        cx.call("short bytes", || show(ByteData::deserialize(BytesDeserializer::new(short))));
        cx.call("short text", || {
            let x: StrDeserializer<'_, Error> = t[..e].into_deserializer();
            shows(StringData::deserialize(x))
        });
        cx.call("short static bytes", || show(ByteData::deserialize_static(BytesDeserializer::new(short))));
        cx.call("short static borrowed bytes", || show(ByteData::deserialize_static(BorrowedBytesDeserializer::new(short))));
        cx.call("short static text", || {
            let x: StrDeserializer<'_, Error> = t[..e].into_deserializer();
            shows(StringData::deserialize_static(x))
        });
        cx.call("absent", || ByteData::deserialize_static_opt(IntoDeserializer::<Error>::into_deserializer(())).map(|b| b.is_none()).map_err(|_| ()));
        cx.call("absent text", || StringData::deserialize_static_opt(IntoDeserializer::<Error>::into_deserializer(())).map(|b| b.is_none()).map_err(|_| ()));
        // transient content of any length: complete, or refused as a whole where nothing can hold it
        let x: StrDeserializer<'_, Error> = t.into_deserializer();
        for (what, r) in [
            ("bytes", show(ByteData::deserialize(BytesDeserializer::new(d)))),
            ("static bytes", show(ByteData::deserialize_static(BytesDeserializer::new(d)))),
            ("static borrowed bytes", show(ByteData::deserialize_static(BorrowedBytesDeserializer::new(d)))),
        ] {
            if !(r.as_deref() == Ok(d) || r.is_err() && d.len() > 14 && cfg!(not(feature = "alloc"))) {
                cx.fail(format!("transient {what}: {r:?} for {d:?}"));
            }
        }
        for (what, r) in [
            ("text", shows(StringData::deserialize(x))),
            ("static text", shows(StringData::deserialize_static(x))),
            ("static borrowed text", shows(StringData::deserialize_static(BorrowedStrDeserializer::new(t)))),
        ] {
            if !(r.as_deref() == Ok(t) || r.is_err() && t.len() > 14 && cfg!(not(feature = "alloc"))) {
                cx.fail(format!("transient {what}: {r:?} for {t:?}"));
            }
        }
        cx.call("number", || show(ByteData::deserialize(IntoDeserializer::<Error>::into_deserializer(5u32))));
    }
}
#[cfg(feature = "alloc")]
pub fn heap(cx: &mut Cx) {
    let d = cx.bytes(60);
    let t = cx.text(60);
    cx.call("bytes", || ByteData::deserialize(BytesDeserializer::<Error>::new(d)).map(|b| b.as_slice().to_vec()).map_err(|_| ()));
    cx.call("seq", || ByteData::deserialize(SeqDeserializer::<_, Error>::new(d.iter().copied())).map(|b| b.as_slice().to_vec()).map_err(|_| ()));
    cx.call("text", || {
        let x: StrDeserializer<'_, Error> = t.into_deserializer();
        StringData::deserialize(x).map(|b| b.as_str().to_string()).map_err(|_| ())
    });
    cx.call("string", || {
        let x = IntoDeserializer::<Error>::into_deserializer(t.to_string());
        StringData::deserialize(x).map(|b| b.as_str().to_string()).map_err(|_| ())
    });
    cx.call("shared", || SharedBytes::deserialize(BytesDeserializer::<Error>::new(d)).map(|b| b.as_slice().to_vec()).map_err(|_| ()));
}
