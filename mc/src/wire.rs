//! Reference for the physical format, written from the documentation.

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum PErr {
    /// Input ended inside an element (or where one was required).
    Eof,
    /// Integer value does not fit 64 bits.
    Overflow,
    /// More than 257 bytes of integer.
    Overwide,
    /// A blob is cut short; this many bytes are missing.
    Trunc(u64),
    /// Blob would end beyond the last representable position.
    Overlong,
}

pub const MAX_INT_BYTES: usize = 257;

/// Decode a varint at the start of `b`: value and length.
pub fn get_int(b: &[u8]) -> Result<(u64, usize), PErr> {
    let mut v: u128 = 0;
    for i in 0.. {
        if i >= b.len() { return Err(PErr::Eof); }
        let d = (b[i] & 0x7f) as u128;
        if d != 0 {
            if 7 * i >= 64 || (d << (7 * i)) > u64::MAX as u128 { return Err(PErr::Overflow); }
            v |= d << (7 * i);
        }
        if b[i] & 0x80 == 0 { return Ok((v as u64, i + 1)); }
        if i + 1 >= MAX_INT_BYTES { return Err(PErr::Overwide); }
    }
    unreachable!()
}

pub fn put_int(o: &mut Vec<u8>, mut v: u64) {
    while v >= 128 { o.push(v as u8 | 0x80); v /= 128; }
    o.push(v as u8);
}

pub fn put_fixed(o: &mut Vec<u8>, v: u64) {
    for i in 0..10 {
        let d = if i == 9 { (v >> 63) as u8 } else { (v >> (7 * i)) as u8 & 0x7f };
        o.push(if i < 9 { d | 0x80 } else { d });
    }
}

pub fn zig(v: i64) -> u64 { if v >= 0 { (v as u64) * 2 } else { (-(v as i128) * 2 - 1) as u64 } }
pub fn unzig(v: u64) -> i64 { if v % 2 == 0 { (v / 2) as i64 } else { (-((v / 2) as i128) - 1) as i64 } }

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Ev {
    Int(u8, u64),
    /// tag, offset of content, declared length
    Blob(u8, u64, u64),
    Struct(u8),
    Enum(u8, u64),
    EndS,
    EndD,
    Exc(u64, u64),
    Pad,
}

/// Reference pull parser over a byte slice.
#[derive(Clone, Debug)]
pub struct Lp<'a> {
    pub b: &'a [u8],
    pub pos: u64,
    pub depth: u64,
    pub eof: bool,
    pub graceful: bool,
    pub blob_end: Option<u64>,
}

impl<'a> Lp<'a> {
    pub fn new(b: &'a [u8], graceful: bool) -> Self {
        Lp { b, pos: 0, depth: 0, eof: false, graceful, blob_end: None }
    }
    fn rest(&self) -> &'a [u8] { &self.b[(self.pos as usize).min(self.b.len())..] }
    fn int(&mut self) -> Result<u64, PErr> {
        let (v, n) = get_int(self.rest())?;
        self.pos += n as u64;
        Ok(v)
    }
    pub fn commit(&mut self) -> Result<(), PErr> {
        if let Some(e) = self.blob_end {
            if e > self.b.len() as u64 { return Err(PErr::Trunc(e - self.b.len() as u64)); }
            self.pos = e;
            self.blob_end = None;
        }
        Ok(())
    }
    fn blob(&mut self) -> Result<(u64, u64), PErr> {
        let n = self.int()?;
        let e = self.pos.checked_add(n).ok_or(PErr::Overlong)?;
        self.blob_end = Some(e);
        Ok((self.pos, n))
    }
    /// Next element: event, its offset, and the nesting depth of the field.
    pub fn next(&mut self) -> Result<(Ev, u64, u64), PErr> {
        if self.eof { self.depth = 0; return Ok((Ev::EndD, self.pos, 0)); }
        self.commit()?;
        let at = self.pos;
        let d = match self.rest().first() {
            Some(&d) => { self.pos += 1; d },
            None if self.graceful => 0x40,
            None => return Err(PErr::Eof),
        };
        let tag = d % 64;
        if tag == 0 {
            return Ok((match d / 64 {
                0 => { self.depth = self.depth.saturating_sub(1); Ev::EndS },
                1 => { self.depth = 0; self.eof = true; Ev::EndD },
                2 => { let (s, n) = self.blob()?; Ev::Exc(s, n) },
                _ => Ev::Pad,
            }, at, self.depth));
        }
        if self.depth == 0 { self.depth = 1; }
        let depth = self.depth;
        let ev = match d / 64 {
            0 => { let v = self.int()?; self.depth += 1; Ev::Enum(tag, v) },
            1 => Ev::Int(tag, self.int()?),
            2 => { let (s, n) = self.blob()?; Ev::Blob(tag, s, n) },
            _ => { self.depth += 1; Ev::Struct(tag) },
        };
        Ok((ev, at, depth))
    }
}

pub fn desc(ty: u8, tag: u8) -> u8 { ty * 64 + tag }
pub fn t_int(o: &mut Vec<u8>, tag: u8, v: u64) { o.push(desc(1, tag)); put_int(o, v); }
pub fn t_blob(o: &mut Vec<u8>, tag: u8, d: &[u8]) {
    o.push(desc(2, tag)); put_int(o, d.len() as u64); o.extend_from_slice(d);
}
pub fn t_struct(o: &mut Vec<u8>, tag: u8) { o.push(desc(3, tag)); }
pub fn t_enum(o: &mut Vec<u8>, tag: u8, d: u64) { o.push(tag); put_int(o, d); }
