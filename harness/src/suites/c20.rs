//! Parser input: every trait and a wide set of combinators against nom on `&[u8]` / `&str`.
use crate::core::{may_panic, Ctx, Rng};
use crate::gen::{self, q, Arena};
use crate::{check, check_eq};
use bytedata::{ByteData, ByteQueue, StringData, StringQueue};
use nom::error::{Error, ErrorKind};
use nom::{Err as NErr, FindSubstring, FindToken, IResult, InputIter, InputLength, InputTake, InputTakeAtPosition, Needed, Slice};

/// A result in a form that does not depend on the input type.
trait Norm {
    fn norm(&self) -> String;
}
macro_rules! norm_debug { ($($t:ty),*) => { $(impl Norm for $t { fn norm(&self) -> String { format!("{self:?}") } })* } }
norm_debug!(u8, u16, u32, u64, i8, i16, i32, i64, usize, char, bool, (), f32, f64, u128);
fn hex(b: &[u8]) -> String {
    let mut s = format!("{}:", b.len());
    for x in b {
        s.push_str(&format!("{x:02x}"));
    }
    s
}
impl Norm for &[u8] {
    fn norm(&self) -> String {
        hex(self)
    }
}
impl Norm for &str {
    fn norm(&self) -> String {
        hex(self.as_bytes())
    }
}
impl Norm for ByteData<'_> {
    fn norm(&self) -> String {
        hex(self.as_slice())
    }
}
impl Norm for StringData<'_> {
    fn norm(&self) -> String {
        hex(self.as_bytes())
    }
}
impl Norm for ByteQueue<'_> {
    fn norm(&self) -> String {
        let mut v = Vec::new();
        self.chunks().for_each(|c| v.extend_from_slice(c.as_slice()));
        check_eq!(self.len(), v.len(), "length of a byte queue made by a parser");
        hex(&v)
    }
}
impl Norm for StringQueue<'_> {
    fn norm(&self) -> String {
        let mut v = Vec::new();
        self.chunks().for_each(|c| v.extend_from_slice(c.as_bytes()));
        check_eq!(self.len(), v.len(), "length of a string queue made by a parser");
        check!(std::str::from_utf8(&v).is_ok(), "string queue made by a parser is not valid text");
        hex(&v)
    }
}
impl<T: Norm> Norm for Vec<T> {
    fn norm(&self) -> String {
        format!("[{}]", self.iter().map(Norm::norm).collect::<Vec<_>>().join(","))
    }
}
impl<T: Norm> Norm for Option<T> {
    fn norm(&self) -> String {
        self.as_ref().map_or("none".into(), |x| format!("some {}", x.norm()))
    }
}
impl<A: Norm, B: Norm> Norm for (A, B) {
    fn norm(&self) -> String {
        format!("({},{})", self.0.norm(), self.1.norm())
    }
}
impl<A: Norm, B: Norm, C: Norm> Norm for (A, B, C) {
    fn norm(&self) -> String {
        format!("({},{},{})", self.0.norm(), self.1.norm(), self.2.norm())
    }
}
impl<I: Norm> Norm for Error<I> {
    fn norm(&self) -> String {
        format!("{:?} at {}", self.code, self.input.norm())
    }
}
impl<E: Norm> Norm for NErr<E> {
    fn norm(&self) -> String {
        match self {
            NErr::Incomplete(Needed::Unknown) => "incomplete".into(),
            NErr::Incomplete(Needed::Size(n)) => format!("incomplete {n}"),
            NErr::Error(e) => format!("error {}", e.norm()),
            NErr::Failure(e) => format!("failure {}", e.norm()),
        }
    }
}
impl Norm for Needed {
    fn norm(&self) -> String {
        format!("{self:?}")
    }
}
impl Norm for nom::CompareResult {
    fn norm(&self) -> String {
        format!("{self:?}")
    }
}
impl<T: Norm, E: Norm> Norm for Result<T, E> {
    fn norm(&self) -> String {
        match self {
            Ok(x) => format!("ok {}", x.norm()),
            Err(e) => format!("err {}", e.norm()),
        }
    }
}

/// What one operation is run with.
struct P {
    pat: Vec<u8>,
    tpat: String,
    n: usize,
    m: usize,
    cls: usize,
    tok: u8,
    chr: char,
}

fn in_class(c: char, cls: usize) -> bool {
    match cls {
        0 => c.is_ascii_alphabetic(),
        1 => c.is_ascii_digit(),
        2 => !c.is_ascii_alphanumeric(),
        3 => c == ' ' || c == '\t' || c == '\r' || c == '\n',
        4 => true,
        5 => false,
        6 => c as u32 >= 0x80,
        _ => c.is_ascii(),
    }
}

fn res<I: Norm, O: Norm>(r: IResult<I, O>) -> String {
    r.norm()
}

const COMMON: usize = 62;
/// operations available for bytes and for text
macro_rules! common {
    ($name:ident, $I:ty, $pat:ident: $pt:ty, $inside:expr) => {
        #[allow(clippy::redundant_closure)]
        fn $name<'x>(i: $I, k: usize, p: &P) -> String {
            use nom::bytes::{complete as bc, streaming as bs};
            use nom::character::{complete as cc, streaming as cs};
            use nom::{branch::*, combinator::*, multi::*, sequence::*};
            let cls = p.cls;
            let inside = move |c| $inside(c, cls);
            let set = "ab 1,é\n";
            let pat: $pt = &p.$pat;
            type R<'x, O> = IResult<$I, O>;
            match k {
                0 => { let r: R<$I> = bc::tag(pat)(i); res(r) }
                1 => { let r: R<$I> = bs::tag(pat)(i); res(r) }
                2 => { let r: R<$I> = bc::tag_no_case(pat)(i); res(r) }
                3 => { let r: R<$I> = bs::tag_no_case(pat)(i); res(r) }
                4 => { let r: R<$I> = bc::take(p.n)(i); res(r) }
                5 => { let r: R<$I> = bs::take(p.n)(i); res(r) }
                6 => { let r: R<$I> = bc::take_until(pat)(i); res(r) }
                7 => { let r: R<$I> = bs::take_until(pat)(i); res(r) }
                8 => { let r: R<$I> = bc::take_until1(pat)(i); res(r) }
                9 => { let r: R<$I> = bs::take_until1(pat)(i); res(r) }
                10 => { let r: R<$I> = bc::take_while(inside)(i); res(r) }
                11 => { let r: R<$I> = bs::take_while(inside)(i); res(r) }
                12 => { let r: R<$I> = bc::take_while1(inside)(i); res(r) }
                13 => { let r: R<$I> = bs::take_while1(inside)(i); res(r) }
                14 => { let r: R<$I> = bc::take_till(inside)(i); res(r) }
                15 => { let r: R<$I> = bs::take_till(inside)(i); res(r) }
                16 => { let r: R<$I> = bc::take_till1(inside)(i); res(r) }
                17 => { let r: R<$I> = bs::take_till1(inside)(i); res(r) }
                18 => { let r: R<$I> = bc::take_while_m_n(p.m, p.n, inside)(i); res(r) }
                19 => { let r: R<$I> = bs::take_while_m_n(p.m, p.n, inside)(i); res(r) }
                20 => { let r: R<$I> = bc::is_a(set)(i); res(r) }
                21 => { let r: R<$I> = bs::is_a(set)(i); res(r) }
                22 => { let r: R<$I> = bc::is_not(set)(i); res(r) }
                23 => { let r: R<$I> = bs::is_not(set)(i); res(r) }
                24 => { let r: R<$I> = cc::alpha0(i); res(r) }
                25 => { let r: R<$I> = cc::alpha1(i); res(r) }
                26 => { let r: R<$I> = cs::alpha1(i); res(r) }
                27 => { let r: R<$I> = cc::digit0(i); res(r) }
                28 => { let r: R<$I> = cc::digit1(i); res(r) }
                29 => { let r: R<$I> = cs::hex_digit1(i); res(r) }
                30 => { let r: R<$I> = cc::alphanumeric1(i); res(r) }
                31 => { let r: R<$I> = cc::space0(i); res(r) }
                32 => { let r: R<$I> = cc::multispace1(i); res(r) }
                33 => { let r: R<$I> = cs::multispace0(i); res(r) }
                34 => { let r: R<$I> = cc::crlf(i); res(r) }
                35 => { let r: R<$I> = cs::crlf(i); res(r) }
                36 => { let r: R<$I> = cc::line_ending(i); res(r) }
                37 => { let r: R<$I> = cs::line_ending(i); res(r) }
                38 => { let r: R<$I> = cc::not_line_ending(i); res(r) }
                39 => { let r: R<$I> = cs::not_line_ending(i); res(r) }
                40 => { let r: R<char> = cc::anychar(i); res(r) }
                41 => { let r: R<char> = cs::anychar(i); res(r) }
                42 => { let r: R<char> = cc::char(p.chr)(i); res(r) }
                43 => { let r: R<char> = cs::char(p.chr)(i); res(r) }
                44 => { let r: R<char> = cc::one_of(set)(i); res(r) }
                45 => { let r: R<char> = cs::none_of(set)(i); res(r) }
                46 => { let r: R<char> = cc::satisfy(move |c| in_class(c, cls))(i); res(r) }
                47 => { let r: R<char> = cs::satisfy(move |c| in_class(c, cls))(i); res(r) }
                48 => { let r: R<u32> = cc::u32(i); res(r) }
                49 => { let r: R<i16> = cs::i16(i); res(r) }
                50 => { let r: R<$I> = rest(i); res(r) }
                51 => { let r: R<usize> = rest_len(i); res(r) }
                52 => { let r: R<$I> = eof(i); res(r) }
                53 => { let r: R<Vec<$I>> = many0(bc::take_while_m_n(1, p.n.max(1), inside))(i); res(r) }
                54 => { let r: R<Vec<$I>> = separated_list0(bc::tag(pat), bc::take_until(pat))(i); res(r) }
                55 => { let r: R<(Vec<char>, $I)> = many_till(cc::anychar, bc::tag(pat))(i); res(r) }
                56 => { let r: R<Vec<$I>> = count(bc::take(1usize), p.n)(i); res(r) }
                57 => { let r: R<$I> = alt((bc::tag(pat), cc::digit1, cc::alpha1, bc::take(p.m)))(i); res(r) }
                58 => { let r: R<($I, Option<$I>, $I)> = tuple((cc::multispace0, opt(bc::tag(pat)), bc::take_while(inside)))(i); res(r) }
                59 => { let r: R<$I> = delimited(cc::space0, cut(cc::alphanumeric1), peek(rest))(i); res(r) }
                60 => { let r: R<$I> = all_consuming(bc::take_while(inside))(i); res(r) }
                _ => { let r: R<($I, ())> = pair(verify(bc::take(p.n), |x: &$I| x.input_len() % 2 == 0), not(bc::tag(pat)))(i); res(r) }
            }
        }
    };
}
fn cls_u8(c: u8, cls: usize) -> bool {
    in_class(c as char, cls)
}
common!(common_slice, &'x [u8], pat: &[u8], cls_u8);
common!(common_bd, ByteData<'x>, pat: &[u8], cls_u8);
common!(common_bq, ByteQueue<'x>, pat: &[u8], cls_u8);
common!(common_str, &'x str, tpat: &str, in_class);
common!(common_sd, StringData<'x>, tpat: &str, in_class);
common!(common_sq, StringQueue<'x>, tpat: &str, in_class);

const BIN: usize = 17;
/// operations on binary input
macro_rules! binary {
    ($name:ident, $I:ty) => {
        fn $name<'x>(i: $I, k: usize, p: &P) -> String {
            use nom::bits::{complete as tc, streaming as ts};
            use nom::number::{complete as nc, streaming as ns, Endianness};
            use nom::{multi::*, sequence::*};
            type R<'x, O> = IResult<$I, O>;
            let e = if p.cls % 2 == 0 { Endianness::Big } else { Endianness::Little };
            match k {
                0 => { let r: R<u8> = nc::be_u8(i); res(r) }
                1 => { let r: R<u16> = ns::be_u16(i); res(r) }
                2 => { let r: R<u32> = nc::le_u32(i); res(r) }
                3 => { let r: R<u64> = ns::u64(e)(i); res(r) }
                4 => { let r: R<i16> = nc::i16(e)(i); res(r) }
                5 => { let r: R<u32> = ns::be_u24(i); res(r) }
                6 => { let r: R<u128> = nc::u128(e)(i); res(r) }
                7 => { let r: R<f64> = ns::f64(e)(i); res(r) }
                8 => { let r: R<$I> = length_data(nc::u8)(i); res(r) }
                9 => { let r: R<$I> = length_data(ns::u8)(i); res(r) }
                10 => { let r: R<u16> = length_value(nc::u8, nc::be_u16)(i); res(r) }
                11 => { let r: R<Vec<u8>> = length_count(nc::u8, nc::u8)(i); res(r) }
                12 => { let r: R<Vec<u16>> = many1(nc::le_u16)(i); res(r) }
                13 => {
                    let r: Result<(($I, usize), u32), NErr<Error<($I, usize)>>> = tc::take(p.n % 33)((i, p.m % 8));
                    match r {
                        Ok(((i, b), v)) => format!("ok {} {b} {v}", i.norm()),
                        Err(NErr::Error(e)) => format!("error {:?} {} {}", e.code, e.input.0.norm(), e.input.1),
                        Err(NErr::Incomplete(n)) => format!("incomplete {n:?}"),
                        Err(_) => "failure".into(),
                    }
                }
                14 => {
                    let r: Result<(($I, usize), u16), NErr<Error<($I, usize)>>> = ts::take(p.n % 17)((i, p.m % 8));
                    match r {
                        Ok(((i, b), v)) => format!("ok {} {b} {v}", i.norm()),
                        Err(NErr::Error(e)) => format!("error {:?} {} {}", e.code, e.input.0.norm(), e.input.1),
                        Err(NErr::Incomplete(n)) => format!("incomplete {n:?}"),
                        Err(_) => "failure".into(),
                    }
                }
                15 => {
                    let r: R<(u8, u16)> = nom::bits::bits::<_, _, Error<($I, usize)>, _, _>(pair(tc::take(p.n % 9), tc::take(p.m % 13)))(i);
                    res(r)
                }
                _ => { let r: R<Vec<(u8, $I)>> = many0(pair(nc::u8, nom::bytes::complete::take(p.n % 4 + 1)))(i); res(r) }
            }
        }
    };
}
binary!(bin_slice, &'x [u8]);
binary!(bin_bd, ByteData<'x>);
binary!(bin_bq, ByteQueue<'x>);

const TRAITS: usize = 25;
/// the traits called directly, also with rejected arguments
macro_rules! traits {
    ($name:ident, $I:ty, $pred:expr, $zero:expr) => {
        fn $name<'x>(i: $I, k: usize, p: &P) -> String {
            let cls = p.cls;
            let pred = move |c| $pred(c, cls);
            let (a, b) = (p.m, p.n);
            let bytes: &[u8] = &p.pat;
            let text: &str = &p.tpat;
            type E<'x> = Error<$I>;
            match k {
                0 => i.input_len().norm(),
                1 => InputTake::take(&i, p.n).norm(),
                2 => i.take_split(p.n).norm(),
                3 => InputIter::position(&i, pred).norm(),
                4 => InputIter::slice_index(&i, p.n).norm(),
                5 => i.iter_indices().collect::<Vec<_>>().norm(),
                6 => i.iter_elements().collect::<Vec<_>>().norm(),
                7 => Slice::slice(&i, a..b).norm(),
                8 => Slice::slice(&i, ..b).norm(),
                9 => Slice::slice(&i, a..).norm(),
                10 => Slice::slice(&i, ..).norm(),
                11 => <_ as nom::Compare<&[u8]>>::compare(&i, bytes).norm(),
                12 => <_ as nom::Compare<&[u8]>>::compare_no_case(&i, bytes).norm(),
                13 => nom::Compare::<&str>::compare(&i, text).norm(),
                14 => nom::Compare::<&str>::compare_no_case(&i, text).norm(),
                15 => FindSubstring::<&[u8]>::find_substring(&i, bytes).norm(),
                16 => FindSubstring::<&str>::find_substring(&i, text).norm(),
                17 => FindToken::<u8>::find_token(&i, p.tok).norm(),
                18 => FindToken::<&u8>::find_token(&i, &p.tok).norm(),
                19 => FindToken::<char>::find_token(&i, p.chr).norm(),
                20 => FindToken::<&char>::find_token(&i, &p.chr).norm(),
                21 => i.split_at_position::<_, E>(pred).norm(),
                22 => i.split_at_position1::<_, E>(pred, ErrorKind::Tag).norm(),
                23 => i.split_at_position_complete::<_, E>(pred).norm(),
                _ => i.split_at_position1_complete::<_, E>(pred, ErrorKind::Many1).norm(),
            }
        }
    };
}
/// `&str` lacks the searches for bytes; they are those of its bytes
mod byname {
    use super::*;
    pub fn tr(i: &str, k: usize, p: &P) -> String {
        let cls = p.cls;
        let pred = move |c| in_class(c, cls);
        match k {
            0 => i.input_len().norm(),
            1 => InputTake::take(&i, p.n).norm(),
            2 => i.take_split(p.n).norm(),
            3 => InputIter::position(&i, pred).norm(),
            4 => InputIter::slice_index(&i, p.n).norm(),
            5 => InputIter::iter_indices(&i).collect::<Vec<_>>().norm(),
            6 => InputIter::iter_elements(&i).collect::<Vec<_>>().norm(),
            7 => Slice::slice(&i, p.m..p.n).norm(),
            8 => Slice::slice(&i, ..p.n).norm(),
            9 => Slice::slice(&i, p.m..).norm(),
            10 => Slice::slice(&i, ..).norm(),
            11 => <_ as nom::Compare<&[u8]>>::compare(&i.as_bytes(), &p.pat[..]).norm(),
            12 => <_ as nom::Compare<&[u8]>>::compare_no_case(&i.as_bytes(), &p.pat[..]).norm(),
            13 => nom::Compare::<&str>::compare(&i, &p.tpat[..]).norm(),
            14 => nom::Compare::<&str>::compare_no_case(&i, &p.tpat[..]).norm(),
            15 => FindSubstring::<&[u8]>::find_substring(&i.as_bytes(), &p.pat[..]).norm(),
            16 => FindSubstring::<&str>::find_substring(&i, &p.tpat[..]).norm(),
            17 | 18 => FindToken::<u8>::find_token(&i.as_bytes(), p.tok).norm(),
            19 | 20 => FindToken::<char>::find_token(&i, p.chr).norm(),
            21 => i.split_at_position::<_, Error<&str>>(pred).norm(),
            22 => i.split_at_position1::<_, Error<&str>>(pred, ErrorKind::Tag).norm(),
            23 => i.split_at_position_complete::<_, Error<&str>>(pred).norm(),
            _ => i.split_at_position1_complete::<_, Error<&str>>(pred, ErrorKind::Many1).norm(),
        }
    }
    /// byte input likewise lacks nothing but `&char`
    pub fn by(i: &[u8], k: usize, p: &P) -> String {
        let cls = p.cls;
        let pred = move |c| cls_u8(c, cls);
        match k {
            0 => i.input_len().norm(),
            1 => InputTake::take(&i, p.n).norm(),
            2 => i.take_split(p.n).norm(),
            3 => InputIter::position(&i, pred).norm(),
            4 => InputIter::slice_index(&i, p.n).norm(),
            5 => InputIter::iter_indices(&i).collect::<Vec<_>>().norm(),
            6 => InputIter::iter_elements(&i).collect::<Vec<_>>().norm(),
            7 => Slice::slice(&i, p.m..p.n).norm(),
            8 => Slice::slice(&i, ..p.n).norm(),
            9 => Slice::slice(&i, p.m..).norm(),
            10 => Slice::slice(&i, ..).norm(),
            11 => <_ as nom::Compare<&[u8]>>::compare(&i, &p.pat[..]).norm(),
            12 => <_ as nom::Compare<&[u8]>>::compare_no_case(&i, &p.pat[..]).norm(),
            13 => nom::Compare::<&str>::compare(&i, &p.tpat[..]).norm(),
            14 => nom::Compare::<&str>::compare_no_case(&i, &p.tpat[..]).norm(),
            15 => FindSubstring::<&[u8]>::find_substring(&i, &p.pat[..]).norm(),
            16 => FindSubstring::<&str>::find_substring(&i, &p.tpat[..]).norm(),
            17 | 18 => FindToken::<u8>::find_token(&i, p.tok).norm(),
            19 | 20 => FindToken::<char>::find_token(&i, p.chr).norm(),
            21 => i.split_at_position::<_, Error<&[u8]>>(pred).norm(),
            22 => i.split_at_position1::<_, Error<&[u8]>>(pred, ErrorKind::Tag).norm(),
            23 => i.split_at_position_complete::<_, Error<&[u8]>>(pred).norm(),
            _ => i.split_at_position1_complete::<_, Error<&[u8]>>(pred, ErrorKind::Many1).norm(),
        }
    }
}
traits!(tr_bd, ByteData<'x>, cls_u8, 0u8);
traits!(tr_bq, ByteQueue<'x>, cls_u8, 0u8);
traits!(tr_sd, StringData<'x>, in_class, '\0');
traits!(tr_sq, StringQueue<'x>, in_class, '\0');

/// A random parser built from the same choices for every input type.
macro_rules! program {
    ($name:ident, $I:ident $(<$l:lifetime>)?, $ty:ty, $pt:ty, $pats:ident, $inside:expr) => {
        fn $name<'i: 'p, 'p>(r: &mut Rng, depth: usize, pats: &'p [P]) -> Box<dyn FnMut($ty) -> IResult<$ty, Vec<$ty>> + 'p> {
            use nom::bytes::{complete as bc, streaming as bs};
            use nom::character::complete as cc;
            use nom::{branch::*, combinator::*, multi::*, sequence::*};
            type T<'i> = $ty;
            fn one<'i: 'p, 'p>(mut f: impl FnMut(T<'i>) -> IResult<T<'i>, T<'i>> + 'p) -> Box<dyn FnMut(T<'i>) -> IResult<T<'i>, Vec<T<'i>>> + 'p> {
                Box::new(move |i| f(i).map(|(r, x)| (r, vec![x])))
            }
            let p = &pats[r.below(pats.len())];
            let pat: $pt = &p.$pats;
            let cls = p.cls;
            let n = r.below(4) + 1;
            let inside = move |c| $inside(c, cls);
            if depth == 0 || r.chance(1, 4) {
                return match r.below(14) {
                    0 => one(bc::tag(pat)),
                    1 => one(bs::tag(pat)),
                    2 => one(bc::take(n)),
                    3 => one(bs::take(n)),
                    4 => one(bc::take_while1(inside)),
                    5 => one(bc::take_while(inside)),
                    6 => one(bc::take_until(pat)),
                    7 => one(cc::alpha1),
                    8 => one(cc::digit1),
                    9 => one(cc::multispace0),
                    10 => one(cc::line_ending),
                    11 => one(cc::not_line_ending),
                    12 => one(bc::tag_no_case(pat)),
                    _ => one(bc::is_not("ab ,")),
                };
            }
            let mut a = $name(r, depth - 1, pats);
            match r.below(12) {
                0 | 1 => {
                    let mut b = $name(r, depth - 1, pats);
                    Box::new(move |i| alt((|i| a(i), |i| b(i)))(i))
                }
                2..=4 => {
                    let mut b = $name(r, depth - 1, pats);
                    Box::new(move |i| {
                        let (i, mut x) = a(i)?;
                        let (i, y) = b(i)?;
                        x.extend(y);
                        Ok((i, x))
                    })
                }
                5 | 6 => Box::new(move |i| map(many_m_n(0, 6, |i| a(i)), |v: Vec<Vec<T>>| v.concat())(i)),
                7 => Box::new(move |i| map(opt(|i| a(i)), Option::unwrap_or_default)(i)),
                8 => Box::new(move |i| peek(|i| a(i))(i)),
                9 => {
                    let mut b = $name(r, depth - 1, pats);
                    Box::new(move |i| map(separated_list1(|i| b(i), |i| a(i)), |v: Vec<Vec<T>>| v.concat())(i))
                }
                10 => {
                    let mut b = $name(r, depth - 1, pats);
                    Box::new(move |i| preceded(not(|i| b(i)), |i| a(i))(i))
                }
                _ => Box::new(move |i| complete(|i| a(i))(i)),
            }
        }
    };
}
program!(prog_slice, Slice, &'i [u8], &[u8], pat, cls_u8);
program!(prog_bd, ByteData, ByteData<'i>, &[u8], pat, cls_u8);
program!(prog_bq, ByteQueue, ByteQueue<'i>, &[u8], pat, cls_u8);
program!(prog_str, Str, &'i str, &str, tpat, in_class);
program!(prog_sd, StringData, StringData<'i>, &str, tpat, in_class);
program!(prog_sq, StringQueue, StringQueue<'i>, &str, tpat, in_class);

/// Values are dumped as slices are; the dump of a queue has another layout, but every byte in order as well.
fn hexdump(cx: &mut Ctx, c: &[u8], d: &impl nom::HexDisplay, q: &impl nom::HexDisplay) {
    if c.len() > 400 {
        return;
    }
    let (k, from) = (cx.rng.range(1, 20), cx.rng.below(100));
    check_eq!(nom::HexDisplay::to_hex(d, k), nom::HexDisplay::to_hex(c, k), "hex dump in lines of {k}");
    check_eq!(nom::HexDisplay::to_hex_from(d, k, from), nom::HexDisplay::to_hex_from(c, k, from), "hex dump in lines of {k} from {from}");
    let t: String = nom::HexDisplay::to_hex(q, k).split_whitespace().collect();
    check_eq!(t, c.iter().map(|x| format!("{x:02x}")).collect::<String>(), "hex dump of a queue in lines of {k}");
}

fn content(cx: &mut Ctx) -> String {
    if cx.rng.chance(1, 8) {
        // parsing is quadratic in places, and debug output of the rest long
        let n = gen::len(&mut cx.rng).min(4_097);
        return gen::text_n(&mut cx.rng, n);
    }
    let n = match cx.rng.below(8) {
        0 => 0,
        1 => 1,
        2..=5 => cx.rng.range(2, 12),
        _ => cx.rng.range(8, 60),
    };
    let mut s = String::new();
    for _ in 0..n {
        s.push_str(*cx.rng.pick(&["a", "b", "A", "Z", "1", "9", "0", " ", "\t", "\r\n", "\n", "\r", ",", "-", "é", "É", "日", "ſ", "K", "😀", "ab", "12"]));
    }
    s
}
fn params(cx: &mut Ctx, c: &[u8]) -> P {
    let mut pat = Vec::new();
    match cx.rng.below(10) {
        0 => {}
        1..=3 => pat = c[..cx.rng.below(c.len().min(12) + 1)].to_vec(),
        4 | 5 => {
            let a = cx.rng.below(c.len() + 1);
            let b = (a + cx.rng.below(5)).min(c.len());
            pat = c[a..b].to_vec();
        }
        6 => {
            pat = c[..cx.rng.below(c.len() + 1)].to_vec();
            let k = cx.rng.below(pat.len() + 1);
            if let Some(x) = pat.get_mut(k) {
                *x ^= 0x20;
            }
        }
        7 => {
            pat = c.to_vec();
            pat.push(b'a');
        }
        8 => pat = c.to_vec(),
        _ => pat = cx.rng.pick(&["a", ",", "\r\n", "AB", "é", "ſ", "k", "ss", "1"]).as_bytes().to_vec(),
    }
    let tpat = match String::from_utf8(pat.clone()) {
        Ok(t) => match cx.rng.below(4) {
            0 => t.to_lowercase(),
            1 => t.to_uppercase(),
            _ => t,
        },
        Err(e) => String::from_utf8_lossy(&e.into_bytes()).replace('\u{fffd}', "a"),
    };
    let l = c.len();
    let mut num = || match cx.rng.below(8) {
        0 => 0,
        1 => l,
        2 => l + 1,
        3 => l.saturating_sub(1),
        4 if cx.rng.chance(1, 4) => usize::MAX - cx.rng.below(3),
        _ => cx.rng.below(l + 3),
    };
    let (n, m) = (num(), num());
    let chr = *cx.rng.pick(&['a', '1', ' ', 'é', '日', '😀', '\n', 'z']);
    let tok = if cx.rng.chance(1, 2) && l > 0 { c[cx.rng.below(l)] } else { cx.rng.byte() };
    P { pat, tpat, n, m, cls: cx.rng.below(8), tok, chr }
}

fn same(cx: &mut Ctx, name: &'static str, k: usize, want: Option<String>, got: Option<String>) {
    cx.ev(name, k as u64);
    match &want {
        None => cx.count("rejected"),
        Some(s) if s.starts_with("ok") => cx.count("outcome.ok"),
        Some(s) if s.contains("incomplete") => cx.count("outcome.incomplete"),
        Some(s) if s.contains("error") => cx.count("outcome.error"),
        Some(s) if s.contains("failure") => cx.count("outcome.failure"),
        _ => cx.count("outcome.value"),
    }
    check_eq!(got, want, "{name} operation {k}");
}

fn bytes_case(cx: &mut Ctx, ar: &Arena) {
    let c: Vec<u8> = if cx.rng.chance(1, 3) {
        let n = gen::small_len(&mut cx.rng).min(70);
        let mut v = gen::bytes_n(&mut cx.rng, n);
        if let Some(f) = v.first_mut() {
            if cx.rng.chance(1, 2) {
                *f = (*f as usize % (n + 2)) as u8;
            }
        }
        v
    } else {
        content(cx).into_bytes()
    };
    let d = gen::bd(cx, ar, &c);
    let qu = q::mk_bq(cx, ar, &c);
    for _ in 0..cx.rng.range(2, 8) {
        let p = params(cx, &c);
        cx.note(|| format!("bytes {:?} pattern {:?} text {:?} n {} m {} class {} token {} char {:?}", c, p.pat, p.tpat, p.n, p.m, p.cls, p.tok, p.chr));
        match cx.rng.below(6) {
            0 | 1 => {
                let k = cx.rng.below(COMMON);
                // counts beyond the input make some of nom's own parsers reserve memory
                let p = P { n: p.n.min(200), m: p.m.min(200), ..p };
                let w = may_panic(|| common_slice(&c, k, &p));
                same(cx, "bd.combinator", k, w.clone(), may_panic(|| common_bd(d.clone(), k, &p)));
                same(cx, "bq.combinator", k, w, may_panic(|| common_bq(qu.clone(), k, &p)));
            }
            2 => {
                let k = cx.rng.below(BIN);
                let w = may_panic(|| bin_slice(&c, k, &p));
                same(cx, "bd.binary", k, w.clone(), may_panic(|| bin_bd(d.clone(), k, &p)));
                same(cx, "bq.binary", k, w, may_panic(|| bin_bq(qu.clone(), k, &p)));
            }
            3 | 4 => {
                let k = cx.rng.below(TRAITS);
                if matches!(k, 19 | 20) && !p.chr.is_ascii() {
                    continue;
                }
                let w = may_panic(|| byname::by(&c, k, &p));
                same(cx, "bd.trait", k, w.clone(), may_panic(|| tr_bd(d.clone(), k, &p)));
                same(cx, "bq.trait", k, w, may_panic(|| tr_bq(qu.clone(), k, &p)));
                // comparing with and looking for the crate's own values
                let pd = gen::bd(cx, ar, &p.pat);
                let (w1, w2, w3) = (nom::Compare::compare(&&c[..], &p.pat[..]), nom::Compare::compare_no_case(&&c[..], &p.pat[..]), FindSubstring::find_substring(&&c[..], &p.pat[..]));
                check_eq!(nom::Compare::compare(&d, &pd), w1, "ByteData compared with ByteData");
                check_eq!(nom::Compare::compare_no_case(&d, &pd), w2, "ByteData compared with ByteData without case");
                check_eq!(FindSubstring::find_substring(&d, &pd), w3, "ByteData found in ByteData");
                check_eq!(nom::Compare::compare(&qu, &pd), w1, "ByteQueue compared with ByteData");
                check_eq!(nom::Compare::compare_no_case(&qu, &pd), w2, "ByteQueue compared with ByteData without case");
                check_eq!(FindSubstring::find_substring(&qu, &pd), w3, "ByteData found in ByteQueue");
                check_eq!(nom::Compare::compare_no_case(&d, pd.clone()), w2, "ByteData compared with ByteData without case");
                check_eq!(nom::Compare::compare(&d, pd.clone()), w1, "ByteData compared with ByteData");
                check_eq!(FindSubstring::find_substring(&d, pd.clone()), w3, "ByteData found in ByteData");
                check_eq!(nom::Compare::compare_no_case(&qu, pd.clone()), w2, "ByteQueue compared with ByteData without case");
                check_eq!(nom::Compare::compare(&qu, pd.clone()), w1, "ByteQueue compared with ByteData");
                check_eq!(FindSubstring::find_substring(&qu, pd), w3, "ByteData found in ByteQueue");
                let sd = gen::sd(cx, ar, &p.tpat);
                let (w1, w2) = (nom::Compare::compare(&&c[..], &p.tpat[..]), nom::Compare::compare_no_case(&&c[..], &p.tpat[..]));
                check_eq!(nom::Compare::compare(&qu, &sd), w1, "ByteQueue compared with StringData");
                check_eq!(nom::Compare::compare_no_case(&qu, &sd), w2, "ByteQueue compared with StringData without case");
                check_eq!(nom::Compare::compare(&qu, sd.clone()), w1, "ByteQueue compared with StringData");
                check_eq!(nom::Compare::compare_no_case(&qu, sd), w2, "ByteQueue compared with StringData without case");
                check_eq!(nom::AsBytes::as_bytes(&d), &c[..], "as_bytes");
                hexdump(cx, &c, &d, &qu);
            }
            _ => {
                let pats = vec![params(cx, &c), params(cx, &c), p];
                let seed = cx.rng.u64();
                let w = may_panic(|| res(prog_slice(&mut Rng::new(seed), 3, &pats)(&c)));
                same(cx, "bd.program", 0, w.clone(), may_panic(|| res(prog_bd(&mut Rng::new(seed), 3, &pats)(d.clone()))));
                same(cx, "bq.program", 0, w, may_panic(|| res(prog_bq(&mut Rng::new(seed), 3, &pats)(qu.clone()))));
            }
        }
    }
    check_eq!(d.as_slice(), &c[..], "input after parsing");
    check_eq!(qu.norm(), hex(&c), "queue after parsing");
}

fn text_case(cx: &mut Ctx, ar: &Arena) {
    let c = content(cx);
    let d = gen::sd(cx, ar, &c);
    let qu = q::mk_sq(cx, ar, &c);
    for _ in 0..cx.rng.range(2, 8) {
        let p = params(cx, c.as_bytes());
        cx.note(|| format!("text {:?} pattern {:?} text {:?} n {} m {} class {} token {} char {:?}", c, p.pat, p.tpat, p.n, p.m, p.cls, p.tok, p.chr));
        match cx.rng.below(5) {
            0 | 1 => {
                let k = cx.rng.below(COMMON);
                let p = P { n: p.n.min(200), m: p.m.min(200), ..p };
                let w = may_panic(|| common_str(&c, k, &p));
                same(cx, "sd.combinator", k, w.clone(), may_panic(|| common_sd(d.clone(), k, &p)));
                same(cx, "sq.combinator", k, w, may_panic(|| common_sq(qu.clone(), k, &p)));
            }
            2 | 3 => {
                let k = cx.rng.below(TRAITS);
                let w = may_panic(|| byname::tr(&c, k, &p));
                same(cx, "sd.trait", k, w.clone(), may_panic(|| tr_sd(d.clone(), k, &p)));
                same(cx, "sq.trait", k, w, may_panic(|| tr_sq(qu.clone(), k, &p)));
                let b = c.as_bytes();
                let pd = gen::bd(cx, ar, &p.pat);
                let (w1, w2, w3) = (nom::Compare::compare(&b, &p.pat[..]), nom::Compare::compare_no_case(&b, &p.pat[..]), FindSubstring::find_substring(&b, &p.pat[..]));
                check_eq!(nom::Compare::compare(&d, &pd), w1, "StringData compared with ByteData");
                check_eq!(nom::Compare::compare_no_case(&d, &pd), w2, "StringData compared with ByteData without case");
                check_eq!(FindSubstring::find_substring(&d, &pd), w3, "ByteData found in StringData");
                check_eq!(nom::Compare::compare(&qu, &pd), w1, "StringQueue compared with ByteData");
                check_eq!(nom::Compare::compare_no_case(&qu, &pd), w2, "StringQueue compared with ByteData without case");
                check_eq!(FindSubstring::find_substring(&qu, &pd), w3, "ByteData found in StringQueue");
                check_eq!(nom::Compare::compare(&d, pd.clone()), w1, "StringData compared with ByteData");
                check_eq!(nom::Compare::compare_no_case(&d, pd.clone()), w2, "StringData compared with ByteData without case");
                check_eq!(FindSubstring::find_substring(&d, pd.clone()), w3, "ByteData found in StringData");
                check_eq!(nom::Compare::compare(&qu, pd.clone()), w1, "StringQueue compared with ByteData");
                check_eq!(nom::Compare::compare_no_case(&qu, pd.clone()), w2, "StringQueue compared with ByteData without case");
                check_eq!(FindSubstring::find_substring(&qu, pd), w3, "ByteData found in StringQueue");
                let sd = gen::sd(cx, ar, &p.tpat);
                let s = &c[..];
                let (w1, w2, w3) = (nom::Compare::compare(&s, &p.tpat[..]), nom::Compare::compare_no_case(&s, &p.tpat[..]), FindSubstring::find_substring(&s, &p.tpat[..]));
                check_eq!(nom::Compare::compare(&d, &sd), w1, "StringData compared with StringData");
                check_eq!(nom::Compare::compare_no_case(&d, &sd), w2, "StringData compared with StringData without case");
                check_eq!(FindSubstring::find_substring(&d, &sd), w3, "StringData found in StringData");
                check_eq!(nom::Compare::compare(&qu, &sd), w1, "StringQueue compared with StringData");
                check_eq!(nom::Compare::compare_no_case(&qu, &sd), w2, "StringQueue compared with StringData without case");
                check_eq!(nom::Compare::compare(&d, sd.clone()), w1, "StringData compared with StringData");
                check_eq!(nom::Compare::compare_no_case(&d, sd.clone()), w2, "StringData compared with StringData without case");
                check_eq!(FindSubstring::find_substring(&d, sd.clone()), w3, "StringData found in StringData");
                check_eq!(nom::Compare::compare(&qu, sd.clone()), w1, "StringQueue compared with StringData");
                check_eq!(nom::Compare::compare_no_case(&qu, sd), w2, "StringQueue compared with StringData without case");
                check_eq!(nom::AsBytes::as_bytes(&d), b, "as_bytes");
                hexdump(cx, b, &d, &qu);
            }
            _ => {
                let pats = vec![params(cx, c.as_bytes()), params(cx, c.as_bytes()), p];
                let seed = cx.rng.u64();
                let w = may_panic(|| res(prog_str(&mut Rng::new(seed), 3, &pats)(&c)));
                same(cx, "sd.program", 0, w.clone(), may_panic(|| res(prog_sd(&mut Rng::new(seed), 3, &pats)(d.clone()))));
                same(cx, "sq.program", 0, w, may_panic(|| res(prog_sq(&mut Rng::new(seed), 3, &pats)(qu.clone()))));
            }
        }
    }
    check_eq!(d.as_str(), &c[..], "input after parsing");
    check_eq!(qu.norm(), hex(c.as_bytes()), "queue after parsing");
}

pub fn run(cx: &mut Ctx) {
    let ar = Arena::new();
    if cx.rng.chance(1, 2) {
        bytes_case(cx, &ar);
    } else {
        text_case(cx, &ar);
    }
    ar.audit_exts();
}
