//! Small helpers around the library under test.

use crate::env::EnvRd;
use crate::wire::PErr;
use fourleaf::io::TransparentCursor;
use fourleaf::{de, stream};
use std::io;

/// Error of the stream layer, comparable.
#[derive(Clone, Debug, PartialEq, Eq)]
pub enum EC {
    Eof, Io(io::ErrorKind, String), Overflow, Overwide, Exc(String), Trunc(u64), Overlong, Incomplete(u64),
    BeforeDyn, OverlongDyn, Large(usize, u64), Type(&'static str, &'static str), Range, Unknown,
}

pub fn ec(e: &stream::Error) -> EC {
    use stream::Error::*;
    match *e {
        Io(ref e) if e.kind() == io::ErrorKind::UnexpectedEof => EC::Eof,
        Io(ref e) => EC::Io(e.kind(), e.to_string()),
        IntegerOverflow => EC::Overflow,
        OverwideInteger => EC::Overwide,
        Exception(ref m) => EC::Exc(m.clone()),
        TruncatedBlob(n) => EC::Trunc(n),
        OverlongBlob => EC::Overlong,
        IncompleteBlob(n) => EC::Incomplete(n),
        PositionBeforeStartOfDynamicBlob => EC::BeforeDyn,
        OverlongDynamicBlob => EC::OverlongDyn,
        LargeBlob(a, b) => EC::Large(a, b),
        UnexpectedType(a, b) => EC::Type(a, b),
        IntegerOutOfRange(_) => EC::Range,
        _ => EC::Unknown,
    }
}

/// Does the real error `e` stand for the reference error `p`?
pub fn agrees(p: &PErr, e: &EC) -> bool {
    match (p, e) {
        (PErr::Eof, EC::Eof) | (PErr::Overflow, EC::Overflow) | (PErr::Overwide, EC::Overwide) => true,
        (PErr::Trunc(a), EC::Trunc(b)) => a == b,
        (PErr::Overlong, EC::Overlong) | (PErr::Overlong, EC::Io(..)) => true,
        _ => false,
    }
}

pub fn is_unexpected_eof(e: &io::Error) -> bool { e.kind() == io::ErrorKind::UnexpectedEof }

/// Sources whose physical position can be observed.
pub trait Phys { fn phys(&self) -> u64; fn hard_faults(&self) -> u32 { 0 } fn seek_faults(&self) -> u32 { 0 } }
impl Phys for EnvRd { fn phys(&self) -> u64 { self.pos() } fn hard_faults(&self) -> u32 { self.0.borrow().hard } fn seek_faults(&self) -> u32 { self.0.borrow().seek_fails } }
impl<T> Phys for TransparentCursor<T> { fn phys(&self) -> u64 { self.0.position() } }
impl<T> Phys for io::Cursor<T> { fn phys(&self) -> u64 { self.position() } }

pub fn cfg(rec: usize, ignore: bool, blob: usize, coll: usize) -> de::Config {
    let mut c = de::Config::default();
    c.recursion_limit = rec;
    c.ignore_unknown_fields = ignore;
    c.max_blob = blob;
    c.max_collect = coll;
    c
}
