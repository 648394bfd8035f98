//! Running one decode or encode through any entry point.

use crate::cat::*;
use fourleaf::de;
use fourleaf::stream::Stream;
use mc::env::{EnvRd, EnvWr};
use mc::model::*;
use mc::sut::*;

pub struct Got {
    pub res: DR,
    /// logical position of the stream
    pub pos: Option<u64>,
    /// bytes taken from the source
    pub phys: Option<u64>,
    pub eof: bool,
}

pub const SLICE_COPY: usize = 0;
pub const SLICE_BORROW: usize = 1;
pub const STREAM_COPY: usize = 2;
pub const STREAM_COPY_GRACEFUL: usize = 3;
pub const STREAM_BORROW: usize = 4;
pub const STREAM_BORROW_GRACEFUL: usize = 5;
pub const READER: usize = 6;
pub const ENV: usize = 7;
pub const ENV_SEEK: usize = 8;
pub const ENV_GRACEFUL: usize = 9;
pub const ENV_SEEK_GRACEFUL: usize = 10;
pub const NMODES: usize = 11;
pub const MODE_NAMES: [&str; NMODES] = ["from_slice_copy", "from_slice_borrow", "stream(slice) copy", "stream(slice) copy graceful",
    "stream(slice) borrow", "stream(slice) borrow graceful", "from_reader", "Stream::new", "Stream::new_seek", "Stream::new graceful",
    "Stream::new_seek graceful"];

pub fn graceful(mode: usize) -> bool { matches!(mode, 3 | 5 | 9 | 10) }
pub fn style(mode: usize) -> Style { if matches!(mode, 1 | 4 | 5) { Style::Borrow } else { Style::Copy } }

/// The documented defaults are always taken from `Config::default()` itself.
pub fn conf(l: &Lim) -> de::Config { if *l == Lim::default() { de::Config::default() } else { cfg(l.rec, l.ignore, l.blob, l.coll) } }

pub fn supports(t: &TyD, mode: usize) -> bool {
    match mode {
        SLICE_COPY | STREAM_COPY | STREAM_COPY_GRACEFUL => true,
        SLICE_BORROW | STREAM_BORROW | STREAM_BORROW_GRACEFUL => t.slice_borrow.is_some(),
        _ => t.env.is_some(),
    }
}

pub fn decode(t: &TyD, mode: usize, b: &[u8], l: &Lim) -> Got { decode_env(t, mode, b, l, EnvRd::plain) }

pub fn decode_env(t: &TyD, mode: usize, b: &[u8], l: &Lim, mk: impl FnOnce(&[u8]) -> EnvRd) -> Got {
    let c = conf(l);
    match mode {
        SLICE_COPY => Got { res: (t.slice_copy)(b, &c), pos: None, phys: None, eof: false },
        SLICE_BORROW => Got { res: (t.slice_borrow.unwrap())(b, &c), pos: None, phys: None, eof: false },
        STREAM_COPY | STREAM_COPY_GRACEFUL | STREAM_BORROW | STREAM_BORROW_GRACEFUL => {
            let mut s = Stream::from_slice(b);
            s.set_graceful_eof(graceful(mode));
            let res = if mode == STREAM_COPY || mode == STREAM_COPY_GRACEFUL { (t.stream_copy)(&mut s, &c) }
                else { (t.stream_borrow.unwrap())(&mut s, &c) };
            let pos = s.pos();
            let eof = s.eof();
            let phys = s.into_inner().0.position();
            Got { res, pos: Some(pos), phys: Some(phys), eof }
        },
        READER => {
            let e = mk(b);
            let res = (t.reader.unwrap())(e.clone(), &c);
            Got { res, pos: None, phys: Some(e.pos()), eof: false }
        },
        _ => {
            let e = mk(b);
            let mut s = if mode == ENV_SEEK || mode == ENV_SEEK_GRACEFUL { Stream::new_seek(e.clone()) } else { Stream::new(e.clone()) };
            s.set_graceful_eof(graceful(mode));
            let res = (t.env.unwrap())(&mut s, &c);
            Got { res, pos: Some(s.pos()), phys: Some(e.pos()), eof: s.eof() }
        },
    }
}

/// From a stream that was told it starts at position `by`.
pub fn decode_at(t: &TyD, b: &[u8], l: &Lim, by: u64, env: bool) -> Got {
    let c = conf(l);
    if env {
        let e = EnvRd::plain(b);
        let mut s = Stream::new(e.clone());
        s.set_pos(by);
        let res = (t.env.unwrap())(&mut s, &c);
        return Got { res, pos: Some(s.pos()), phys: Some(e.pos()), eof: s.eof() };
    }
    let mut s = Stream::from_slice(b);
    s.set_pos(by);
    let res = (t.stream_copy)(&mut s, &c);
    Got { res, pos: Some(s.pos()), phys: None, eof: s.eof() }
}

/// Every encoding entry point.
pub const NENC: usize = 4;
pub fn encode_via(t: &TyD, l: u8, i: usize, how: usize) -> Option<Result<Vec<u8>, String>> {
    let e = |x: fourleaf::stream::Error| format!("{:?}", x);
    Some(match how {
        0 => (t.to_vec)(l, i).map_err(e),
        1 => (t.to_vec_own)(l, i).map_err(e),
        2 => { let w = EnvWr::plain(); (t.to_writer?)(l, i, w.clone()).map(|_| w.data()).map_err(e) },
        _ => {
            let w = EnvWr::plain();
            let mut s = Stream::new(w.clone());
            let r = (t.to_stream?)(l, i, &mut s);
            match r {
                Err(x) => Err(e(x)),
                Ok(()) if s.pos() != w.data().len() as u64 => Err(format!("stream position {} but {} bytes", s.pos(), w.data().len())),
                Ok(()) => Ok(w.data()),
            }
        },
    })
}

#[derive(Clone, Debug, PartialEq)]
pub enum RK {
    Stream(EC), Recursion, UnknownField(u8, u64), UnknownVariant(u64), TooFew(u64), TooMany(u64), Missing, Invalid, InvalidMsg,
    MaxCollect, MaxBlob, Other,
}
/// Kind and location of a real error.
pub fn rk(e: &de::Error) -> (RK, &str) {
    use de::Error::*;
    match *e {
        Stream(ref w, ref e) => (RK::Stream(ec(e)), w),
        RecursionLimitExceeded(ref w) => (RK::Recursion, w),
        UnknownField(ref w, t, p) => (RK::UnknownField(t, p), w),
        UnknownVariant(ref w, d) => (RK::UnknownVariant(d), w),
        FieldOccursTooFewTimes(ref w, n) => (RK::TooFew(n), w),
        FieldOccursTooManyTimes(ref w, n) => (RK::TooMany(n), w),
        RequiredFieldMissing(ref w) => (RK::Missing, w),
        InvalidValue(ref w, _) => (RK::Invalid, w),
        InvalidValueMsg(ref w, _) => (RK::InvalidMsg, w),
        MaxCollectExceeded(ref w) => (RK::MaxCollect, w),
        MaxBlobExceeded(ref w) => (RK::MaxBlob, w),
        _ => (RK::Other, ""),
    }
}
pub fn same_kind(m: &EK, r: &RK) -> bool {
    match (m, r) {
        (EK::Parse(p), RK::Stream(e)) => agrees(p, e),
        (EK::Exception(m), RK::Stream(EC::Exc(s))) => String::from_utf8_lossy(m) == &s[..],
        (EK::Type(a, b), RK::Stream(EC::Type(c, d))) => a == c && b == d,
        (EK::Range, RK::Stream(EC::Range)) => true,
        (EK::Recursion, RK::Recursion) => true,
        (EK::UnknownField(a, b), RK::UnknownField(c, d)) => a == c && b == d,
        (EK::UnknownVariant(a), RK::UnknownVariant(b)) => a == b,
        (EK::TooFew(a), RK::TooFew(b)) => a == b,
        (EK::TooMany(a), RK::TooMany(b)) => a == b,
        (EK::Missing, RK::Missing) | (EK::Invalid, RK::Invalid) | (EK::InvalidMsg, RK::InvalidMsg) => true,
        (EK::MaxCollect, RK::MaxCollect) | (EK::MaxBlob, RK::MaxBlob) => true,
        _ => false,
    }
}

/// Short rendering of a value.
pub fn sv(v: &Val) -> String {
    let s = format!("{:?}", v);
    if s.len() > 160 { format!("{}..", s.chars().take(160).collect::<String>()) } else { s }
}
