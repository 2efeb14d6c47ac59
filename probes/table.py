"""Programs that safe Rust must not accept, because running them would use storage after its owner is
gone, see storage change under a reader, or race. Each has a control form that differs only in the
point and must be accepted. A program that IS accepted is run in the interpreter, which decides.

outlive(name, source, make, look): make borrows from `s`, the result is looked at
   control: s lives as long;  point: s is gone
mutate(name, setup, borrow, change, look): borrow, then change the owner, then look
   control: look before the change
program(name, text): `//good` and `//bad` at the end of a line keep it in one form only
"""
B, S, V, SD, Q, SQ, SB = "v()", "t()", "ByteData::from_owned(v())", "StringData::from_owned(t())", "bq()", "sq()", "SharedBytes::from(v())"
DB, QB, DS, QS, LO, LS = "look(k.as_slice())", "qlook(&k)", "look(k.as_str().as_bytes())", "sqlook(&k)", "look(k)", "look(k.as_bytes())"

OUTLIVE = [
    # values made over borrowed bytes
    ("borrowed", B, "ByteData::from_borrowed(&s)", DB),
    ("from_ref", B, "ByteData::from(&s[..])", DB),
    ("from_cow", B, "ByteData::from_cow(std::borrow::Cow::Borrowed(&s[..]))", DB),
    ("cow_into", B, "ByteData::from(std::borrow::Cow::Borrowed(&s[..]))", DB),
    ("cow_str_into", S, "ByteData::from(std::borrow::Cow::Borrowed(&s[..]))", DB),
    ("concat_one", B, "ByteData::from_concat(&[&s[..]])", DB),
    ("clone", B, "ByteData::from_borrowed(&s).clone()", DB),
    ("sliced", B, "ByteData::from_borrowed(&s).sliced(1..)", DB),
    ("into_sliced", B, "ByteData::from_borrowed(&s).into_sliced(1..)", DB),
    ("take_bytes", B, "ByteData::from_borrowed(&s).take_bytes(30)", DB),
    ("take_while", B, "ByteData::take_while(&mut ByteData::from_borrowed(&s), |_| true)", DB),
    ("split_at", B, "ByteData::from_borrowed(&s).split_at(20).1", DB),
    ("split_on", B, "ByteData::from_borrowed(&s).split_on(b\",\").next().unwrap()", DB),
    ("split_once", B, "ByteData::from_borrowed(&s).split_once_on(b\",\").unwrap().1", DB),
    ("as_borrowed", B, "ByteData::from_borrowed(&s).as_borrowed().unwrap()", LO),
    ("into_cow", B, "std::borrow::Cow::<[u8]>::from(ByteData::from_borrowed(&s))", "look(&k)"),
    ("render", B, "ByteStringRender::from_slice(&s)", DB),
    ("render_ref", B, "ByteStringRender::from_ref(&s)", DB),
    ("decoder", B, "Utf8CharIndices::new(&s)", "look(k.remaining())"),
    # texts
    ("text", S, "StringData::from_borrowed(&s)", DS),
    ("text_from", S, "StringData::from(&s[..])", DS),
    ("text_cow", S, "StringData::from_cow(std::borrow::Cow::Borrowed(&s[..]))", DS),
    ("text_sliced", S, "StringData::from_borrowed(&s).sliced(1..)", DS),
    ("text_split", S, "StringData::from_borrowed(&s).split_on(\",\").next().unwrap()", DS),
    ("text_line", S, "StringData::from_borrowed(&s).take_line()", DS),
    ("text_trim", S, "StringData::from_borrowed(&s).trim()", DS),
    ("text_bytes", S, "StringData::from_borrowed(&s).into_bytedata()", DB),
    ("text_of_bytes", B, "StringData::try_from_bytedata(ByteData::from_borrowed(&s)).unwrap()", DS),
    ("text_as_borrowed", S, "StringData::from_borrowed(&s).as_borrowed().unwrap()", LS),
    ("text_into_cow", S, "std::borrow::Cow::<str>::from(StringData::from_borrowed(&s))", "look(k.as_bytes())"),
    # what is borrowed from an owning value
    ("as_slice", V, "s.as_slice()", LO),
    ("as_ref", V, "AsRef::<[u8]>::as_ref(&s)", LO),
    ("as_str", SD, "s.as_str()", LS),
    ("as_bytedata", SD, "s.as_bytedata()", DB),
    ("shared_as_slice", SB, "s.as_slice()", LO),
    ("shared_index", SB, "&s[1..]", LO),
    ("shared_fill_buf", SB, "s.fill_buf().unwrap()", LO),
    ("buf_chunk", V, "Buf::chunk(&s)", LO),
    ("chunk_as_slice", "ByteChunk::from_slice(b\"0123456789\")", "s.as_slice()", LO),
    ("builder_as_slice", "builder()", "s.as_slice()", LO),
    ("builder_as_slice_mut", "builder()", "s.as_slice_mut()", LO),
    ("builder_chunk_mut", "builder()", "s.chunk_mut()", "{ k[..1].copy_from_slice(b\"x\"); }"),
    ("str_builder", "SharedStrBuilder::from(\"0123456789 0123456789 0123456789\")", "s.as_str()", LS),
    # queues
    ("q_from", B, "ByteQueue::from(&s[..])", QB),
    ("q_item", B, "ByteQueue::with_item(ByteData::from_borrowed(&s))", QB),
    ("q_push", B, "{ let mut q = ByteQueue::new(); q.push_back(&s[..]); q }", QB),
    ("q_push_front", B, "{ let mut q = ByteQueue::new(); q.push_front(&s[..]); q }", QB),
    ("q_collect", B, "[ByteData::from_borrowed(&s)].into_iter().collect::<ByteQueue<'_>>()", QB),
    ("q_extend", B, "{ let mut q = ByteQueue::new(); q.extend([ByteData::from_borrowed(&s)]); q }", QB),
    ("q_append", B, "{ let mut q = bq(); q.append(ByteQueue::from(&s[..])); q }", QB),
    ("q_replace", B, "{ let mut q = bq(); q.replace_range(1..3, ByteData::from_borrowed(&s)); q }", QB),
    ("q_slice", B, "ByteQueue::from(&s[..]).slice(1..)", QB),
    ("q_split_off", B, "ByteQueue::from(&s[..]).split_off(2)", QB),
    ("q_take_while", B, "ByteQueue::from(&s[..]).take_while(|_| true)", QB),
    ("q_pop", B, "ByteQueue::from(&s[..]).pop_front().unwrap()", DB),
    ("q_into_iter", B, "ByteQueue::from(&s[..]).into_iter()", "k.map(|x| look(x.as_slice())).collect::<()>()"),
    ("q_into_bytes", B, "ByteQueue::from(&s[..]).into_bytes()", "look(&k.collect::<Vec<u8>>())"),
    ("q_into_value", B, "ByteData::from(ByteQueue::from(&s[..]))", DB),
    ("q_clone", B, "ByteQueue::from(&s[..]).clone()", QB),
    ("q_front", Q, "s.front().unwrap()", DB),
    ("q_back", Q, "s.back().unwrap()", DB),
    ("q_chunks", Q, "s.chunks()", "k.for_each(|x| look(x.as_slice()))"),
    ("q_iter", Q, "s.iter()", "k.for_each(|x| look(x.as_slice()))"),
    ("q_bytes", Q, "ByteQueue::bytes(&s)", "look(&k.collect::<Vec<u8>>())"),
    ("q_bytes_skip", Q, "ByteQueue::bytes(&s).skip(3).take(30)", "look(&k.collect::<Vec<u8>>())"),
    ("q_drain", Q, "s.drain(1..20)", "look(&k.collect::<Vec<u8>>())"),
    ("q_split_on", Q, "s.split_on(b\",\")", "k.for_each(|x| qlook(&x))"),
    ("q_splitn_on", Q, "s.splitn_on(b\",\", 2)", "k.for_each(|x| qlook(&x))"),
    ("q_buf_chunk", Q, "Buf::chunk(&s)", LO),
    ("q_fill_buf", Q, "s.fill_buf().unwrap()", LO),
    # queues of texts
    ("sq_from", S, "StringQueue::from(&s[..])", QS),
    ("sq_item", S, "StringQueue::with_item(StringData::from_borrowed(&s))", QS),
    ("sq_push", S, "{ let mut q = StringQueue::new(); q.push_back(&s[..]); q }", QS),
    ("sq_replace", S, "{ let mut q = sq(); q.replace_range(1..3, StringData::from_borrowed(&s)); q }", QS),
    ("sq_slice", S, "StringQueue::from(&s[..]).slice(1..)", QS),
    ("sq_split_off", S, "StringQueue::from(&s[..]).split_off(2)", QS),
    ("sq_take_line", S, "StringQueue::from(&s[..]).take_line()", QS),
    ("sq_pop", S, "StringQueue::from(&s[..]).pop_front().unwrap()", DS),
    ("sq_into_iter", S, "StringQueue::from(&s[..]).into_iter()", "k.for_each(|x| look(x.as_str().as_bytes()))"),
    ("sq_into_chars", S, "StringQueue::from(&s[..]).into_chars()", "look(k.collect::<String>().as_bytes())"),
    ("sq_into_queue", S, "StringQueue::from(&s[..]).into_bytequeue()", QB),
    ("sq_into_value", S, "StringData::from(StringQueue::from(&s[..]))", DS),
    ("sq_front", SQ, "s.front().unwrap()", DS),
    ("sq_chars", SQ, "s.chars()", "look(k.collect::<String>().as_bytes())"),
    ("sq_indices", SQ, "s.chars_indecies()", "look(k.map(|x| x.1).collect::<String>().as_bytes())"),
    ("sq_chunks", SQ, "s.chunks()", "k.for_each(|x| look(x.as_str().as_bytes()))"),
    ("sq_byte_chunks", SQ, "s.byte_chunks()", "k.for_each(|x| look(x.as_slice()))"),
    ("sq_bytes", SQ, "s.bytes()", "look(&k.collect::<Vec<u8>>())"),
    ("sq_drain", SQ, "s.drain(1..9)", "look(k.collect::<String>().as_bytes())"),
    ("sq_split_on", SQ, "s.split_on(\",\")", "k.for_each(|x| sqlook(&x))"),
    ("sq_split_on_bytes", SQ, "s.split_on_bytes(b\",\")", "k.for_each(|x| qlook(&x))"),
    ("sq_as_queue", SQ, "s.as_bytequeue()", "qlook(k)"),
    # separators outlive the splitting
    ("needle", "b\", \".to_vec()", "ByteData::from_owned(v()).split_on(&s)", "k.for_each(|x| look(x.as_slice()))"),
    ("text_needle", "String::from(\", \")", "StringData::from_owned(t()).split_on(&s)", "k.for_each(|x| look(x.as_str().as_bytes()))"),
    # other crates
    ("nom_take", B, "nom::bytes::complete::take::<_, _, nom::error::Error<_>>(20usize)(ByteData::from_borrowed(&s)).unwrap().1", DB),
    ("nom_take_q", B, "nom::bytes::complete::take::<_, _, nom::error::Error<_>>(20usize)(ByteQueue::from(&s[..])).unwrap().1", QB),
    ("nom_rest", S, "nom::bytes::complete::tag::<_, _, nom::error::Error<_>>(\"0\")(StringData::from_borrowed(&s)).unwrap().0", DS),
    ("arbitrary_bytes", B, "arbitrary_value::<ByteData<'_>>(&s)", DB),
    ("arbitrary_text", B, "arbitrary_value::<StringData<'_>>(&s)", DS),
    ("arbitrary_queue", B, "arbitrary_value::<ByteQueue<'_>>(&s)", QB),
    ("arbitrary_texts", B, "arbitrary_value::<StringQueue<'_>>(&s)", QS),
    ("body_frame", B, "{ let mut d = ByteData::from_borrowed(&s); body_data(&mut d) }", DB),
    ("body_frame_q", B, "{ let mut d = ByteQueue::from(&s[..]); body_data(&mut d) }", DB),
]

# must not become 'static; the control starts from a &'static
STATIC = [
    ("st_value", "ByteData<'static>", "ByteData::from_borrowed(s)", DB),
    ("st_value_from", "ByteData<'static>", "ByteData::from(s)", DB),
    ("st_static", "ByteData<'static>", "ByteData::from_borrowed(s).statically_borrowed()", DB),
    ("st_sliced", "ByteData<'static>", "ByteData::from_borrowed(s).sliced(2..)", DB),
    ("st_queue", "ByteQueue<'static>", "ByteQueue::from(s)", QB),
    ("st_queue_slice", "ByteQueue<'static>", "ByteQueue::from(s).slice(3..)", QB),
    ("st_borrowed", "&'static [u8]", "ByteData::from_borrowed(s).as_borrowed().unwrap()", LO),
    ("st_render", "&'static [u8]", "ByteStringRender::from_slice(s).as_slice()", LO),
    ("st_decoder", "&'static [u8]", "Utf8CharIndices::new(s).remaining()", LO),
    ("st_foreign", "ByteData<'static>", "ByteData::from_external(WithRef(s))", DB),
    ("st_text", "StringData<'static>", "StringData::try_from_bytedata(ByteData::from_borrowed(s)).unwrap()", DS),
    ("st_cow", "std::borrow::Cow<'static, [u8]>", "ByteData::from_borrowed(s).into()", "look(&k)"),
    ("st_drain", "ByteData<'static>", "{ let mut q = ByteQueue::from(s); q.replace_range(0..2, ByteData::from_static(b\"x\")); q.pop_back().unwrap() }", DB),
    ("st_intern_get", "ByteData<'static>", "{ use bytedata::interning::*; match StaticInterning::new(100).get(ByteData::from_borrowed(s)) { Ok(x) | Err(x) => x } }", DB),
]

MUTATE = [
    ("m_builder_push", "let mut b = builder();", "b.as_slice()", "b.extend_from_slice(&v());", LO),
    ("m_builder_clear", "let mut b = builder();", "b.as_slice()", "b.clear();", LO),
    ("m_builder_twice", "let mut b = builder();", "b.as_slice_mut()", "b.as_slice_mut()[0] = 1;", LO),
    ("m_builder_build", "let mut b = builder();", "b.as_slice_mut()", "let _f = b.build();", LO),
    ("m_builder_fill", "let mut b = builder();", "b.chunk_mut()", "b.reserve(10_000);", "{ k[..1].copy_from_slice(b\"x\"); }"),
    ("m_str_builder", "let mut b = SharedStrBuilder::from(\"0123456789 0123456789 0123456789\");", "b.as_str()", "b.push_str(\"x\");", LS),
    ("m_value_advance", "let mut d = ByteData::from_owned(v());", "d.as_slice()", "Buf::advance(&mut d, 3);", LO),
    ("m_value_assign", "let mut d = ByteData::from_owned(v());", "d.as_slice()", "d = ByteData::empty(); let _ = &d;", LO),
    ("m_value_into", "let d = ByteData::from_owned(v());", "d.as_slice()", "let _e = d.into_shared();", LO),
    ("m_chunk_write", "let mut c = ByteChunk::from_slice(b\"0123\");", "c.as_slice()", "c.write_str(\"x\").unwrap();", LO),
    ("m_q_push_front", "let mut q = bq();", "q.front().unwrap()", "q.push_front(ByteData::empty());", DB),
    ("m_q_pop_front", "let mut q = bq();", "q.front().unwrap()", "q.pop_front();", DB),
    ("m_q_chunks", "let mut q = bq();", "q.chunks()", "q.pop_front();", "k.for_each(|x| look(x.as_slice()))"),
    ("m_q_bytes", "let mut q = bq();", "ByteQueue::bytes(&q)", "q.consume(5);", "look(&k.collect::<Vec<u8>>())"),
    ("m_q_drain", "let mut q = bq();", "q.drain(1..5)", "q.pop_front();", "look(&k.collect::<Vec<u8>>())"),
    ("m_q_drains", "let mut q = bq();", "q.drain(1..5)", "drop(q.drain(0..9));", "look(&k.collect::<Vec<u8>>())"),
    ("m_q_split", "let mut q = bq();", "q.split_on(b\",\")", "q.consume(5);", "k.for_each(|x| qlook(&x))"),
    ("m_q_into", "let q = bq();", "q.chunks()", "let _i = q.into_iter();", "k.for_each(|x| look(x.as_slice()))"),
    ("m_sq_chars", "let mut q = sq();", "q.chars()", "q.pop_front();", "look(k.collect::<String>().as_bytes())"),
    ("m_sq_drain", "let mut q = sq();", "q.drain(1..5)", "q.pop_back();", "look(k.collect::<String>().as_bytes())"),
    ("m_sq_queue", "let mut q = sq();", "q.as_bytequeue()", "q.pop_back();", "qlook(k)"),
]

RACE = """
use std::cell::Cell;
use std::sync::atomic::{AtomicUsize, Ordering};
struct Looks(Vec<u8>, Cell<usize>);      //bad
struct Looks(Vec<u8>, AtomicUsize);      //good
impl ExternalBytes for Looks {
    const OPS: ExternalOps<Self> = ExternalOps::new(|x| {
        x.1.set(x.1.get() + 1);                  //bad
        x.1.fetch_add(1, Ordering::Relaxed);     //good
        &x.0
    });
}
fn main() {
    let a = ByteData::from_external(Looks(v(), Default::default()));
    let b = a.clone();
    let h = std::thread::spawn(move || (0..200).for_each(|_| look(b.as_slice())));
    (0..200).for_each(|_| look(a.as_slice()));
    h.join().unwrap();
}
"""
RC = """
use std::rc::Rc;          //bad
use std::sync::Arc as Rc; //good
struct E(Rc<Vec<u8>>);
impl ExternalBytes for E { const OPS: ExternalOps<Self> = ExternalOps::new(|x| &x.0); }
fn main() {
    let r = Rc::new(v());
    let a = ByteData::from_external(E(r.clone()));
    let h = std::thread::spawn(move || look(a.as_slice()));
    (0..200).for_each(|_| look(&r.clone()));
    h.join().unwrap();
    (0..200).for_each(|_| look(&r.clone()));
}
"""
RCQ = RC.replace("let a = ByteData::from_external(E(r.clone()));", "let mut a = ByteQueue::new(); a.push_back(ByteData::from_external(E(r.clone()))); a.push_back(v());").replace("look(a.as_slice())", "qlook(&a)")
RCI = RC.replace("look(a.as_slice())", "drop(a)")
# shared by threads without harm, as nothing can be done with it through a shared reference; dropped by its own thread only
RCD = """
use std::rc::Rc;          //bad
use std::sync::Arc as Rc; //good
struct OnlyOwner<T>(T);
unsafe impl<T> Sync for OnlyOwner<T> {}
struct E(Vec<u8>, OnlyOwner<Rc<u8>>);
impl ExternalBytes for E { const OPS: ExternalOps<Self> = ExternalOps::new(|x| &x.0); }
fn main() {
    let r = Rc::new(1);
    let a = ByteData::from_external(E(v(), OnlyOwner(r.clone())));
    let b = a.clone();
    drop(a);
    let h = std::thread::spawn(move || drop(b));
    (0..200).for_each(|_| drop(r.clone()));
    h.join().unwrap();
}
"""
RCDQ = RCD.replace("let b = a.clone();", "let mut b = ByteQueue::new(); b.push_back(v()); b.push_back(a.clone());").replace("drop(b)", "qlook(&b)")
SCOPED = """
fn main() {
    %s
    std::thread::scope(|sc| {
        let k = %s;
        let h = sc.spawn(move || { %s; });
        %s    //bad
        h.join().unwrap();
    });
    %s
}
"""
SETUPS = [
    ("t_builder", "let mut b = builder();", "b.as_slice_mut()", "{ k[0] = 1; }", "look(b.as_slice());"),
    ("t_queue_drain", "let mut b = bq();", "b.drain(1..9)", "drop(k)", "qlook(&b);"),
    ("t_queue_mut", "let mut b = bq();", "&mut b", "{ k.pop_front(); }", "qlook(&b);"),
    ("t_value_mut", "let mut b = ByteData::from_owned(v());", "&mut b", "{ Buf::advance(k, 2); }", "look(b.as_slice());"),
    ("t_iter", "let mut b = bq();", "ByteQueue::bytes(&b)", "look(&k.collect::<Vec<u8>>())", "b.consume(4);"),
]
PROGRAMS = {"race_cell": RACE, "race_rc": RC, "race_rc_queue": RCQ, "race_rc_drop": RCI, "race_drop": RCD, "race_drop_queue": RCDQ}
for n, setup, borrow, use, other in SETUPS:
    PROGRAMS[n] = SCOPED % (setup, borrow, use, other, other)

PRELUDE = """#![allow(warnings)]
use bytedata::*;
use bytedata::external::*;
use bytes::{Buf, BufMut};
use std::io::{BufRead, Read};
use std::fmt::Write as _;
static T: &str = "0123456789abcdefghij, ABCDEFGHIJKLMNOPQRST, klmnopqrstuvwxyz01\\n23456789abcdefgh";
fn v() -> Vec<u8> { std::hint::black_box(T.as_bytes().to_vec()) }
fn t() -> String { std::hint::black_box(T.to_string()) }
fn look(b: &[u8]) { let mut s = 0u32; for x in b { s = s.wrapping_mul(31) + if *x > 64 { 1 } else { 2 }; } std::hint::black_box(s); }
fn qlook(q: &ByteQueue<'_>) { for c in q.chunks() { look(c.as_slice()); } }
fn sqlook(q: &StringQueue<'_>) { for c in q.chunks() { look(c.as_str().as_bytes()); } }
fn bq<'a>() -> ByteQueue<'a> { (0..20).map(|_| ByteData::from_owned(v())).collect() }
fn sq<'a>() -> StringQueue<'a> { (0..20).map(|_| StringData::from_owned(t())).collect() }
fn builder() -> SharedBytesBuilder { let mut b = SharedBytesBuilder::new(); b.extend_from_slice(&v()); b }
fn arbitrary_value<'a, X: arbitrary::Arbitrary<'a>>(s: &'a [u8]) -> X { X::arbitrary_take_rest(arbitrary::Unstructured::new(s)).unwrap() }
fn body_data<B: http_body_1::Body<Error = E> + Unpin, E: std::fmt::Debug>(b: &mut B) -> B::Data {
    let mut cx = std::task::Context::from_waker(std::task::Waker::noop());
    match std::pin::Pin::new(b).poll_frame(&mut cx) { std::task::Poll::Ready(Some(x)) => x.unwrap().into_data().ok().unwrap(), _ => panic!() }
}
struct WithRef<'a>(&'a [u8]);
"""


def forms():
    """name -> (group, control program, point program)"""
    out = {}
    for n, src, make, lk in OUTLIVE:
        out["o_" + n] = ("life", f"fn main() {{ let mut s = {src}; let mut k = {make}; {lk}; }}",
                         f"fn main() {{ let mut k = {{ let mut s = {src}; let r = {make}; r }}; {lk}; }}")
    for n, ty, make, lk in STATIC:
        ext = "impl ExternalBytes for WithRef<'%s> { const OPS: ExternalOps<Self> = ExternalOps::new(|x| x.0); }\n"
        pre = (ext % "static") if "WithRef" in make else ""
        pre2 = (ext % "_") if "WithRef" in make else ""
        out["s_" + n] = ("life", pre + f"fn main() {{ let s: &'static [u8] = T.as_bytes(); let mut k: {ty} = {make}; {lk}; }}",
                         pre2 + f"fn main() {{ let mut k: {ty} = {{ let o = v(); let s: &[u8] = &o; let r: {ty} = {make}; r }}; {lk}; }}")
    for n, setup, borrow, change, lk in MUTATE:
        out[n] = ("life", f"fn main() {{ {setup} {{ let mut k = {borrow}; {lk}; }} {change} }}",
                  f"fn main() {{ {setup} let mut k = {borrow}; {change} {lk}; }}")
    for n, text in PROGRAMS.items():
        def keep(drop):
            return "\n".join(l.split(" //")[0] if l.rstrip().endswith(("//good", "//bad")) else l for l in text.split("\n") if not l.rstrip().endswith(drop))
        out[n] = ("race", keep("//bad"), keep("//good"))
    return out
