//! Scripted byte sources and sinks: every answer of the environment is a
//! choice of the explorer.

use crate::eng::ChRef;
use std::cell::RefCell;
use std::io::{self, Read, Seek, SeekFrom, Write};
use std::rc::Rc;

pub const SHORT: u8 = 1;
pub const INTR: u8 = 2;
pub const HARD: u8 = 4;
pub const SEEKERR: u8 = 8;
pub const ZERO: u8 = 16;
/// uniform modes, no choices
pub const ALWAYS_SHORT: u8 = 32;
pub const ALWAYS_INTR: u8 = 64;
pub const NOSEEK: u8 = 128;

pub const HARD_MSG: &str = "environment says no";

pub struct RdState {
    pub data: Vec<u8>,
    pub pos: u64,
    pub mask: u8,
    pub ch: Option<ChRef>,
    /// one past the furthest byte delivered by `read`
    pub max_off: u64,
    /// one past the furthest position seeked to
    pub max_seek: u64,
    pub reads: u64,
    pub zero_reads: u64,
    pub hard: u32,
    pub seek_fails: u32,
    pub intr_next: bool,
    pub want_max: usize,
}

#[derive(Clone)]
pub struct EnvRd(pub Rc<RefCell<RdState>>);

impl EnvRd {
    pub fn new(data: &[u8], mask: u8, ch: Option<ChRef>) -> EnvRd {
        EnvRd(Rc::new(RefCell::new(RdState {
            data: data.to_vec(), pos: 0, mask, ch, max_off: 0, max_seek: 0, reads: 0, zero_reads: 0,
            hard: 0, seek_fails: 0, intr_next: true, want_max: 0,
        })))
    }
    pub fn plain(data: &[u8]) -> EnvRd { EnvRd::new(data, 0, None) }
    pub fn pos(&self) -> u64 { self.0.borrow().pos }
}

impl Read for EnvRd {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        let mut s = self.0.borrow_mut();
        s.reads += 1;
        s.want_max = s.want_max.max(buf.len());
        // A source which is asked again and again after EOF would loop forever
        // in reality.
        let start = (s.pos as usize).min(s.data.len());
        let avail = s.data.len() - start;
        let mut n = buf.len().min(avail);
        if buf.len() > 0 && avail == 0 {
            s.zero_reads += 1;
            if s.zero_reads > 100_000 { panic!("endless reading at end of input"); }
        }
        if s.mask & ALWAYS_INTR != 0 {
            if s.intr_next { s.intr_next = false; return Err(io::ErrorKind::Interrupted.into()); }
            s.intr_next = true;
        }
        if s.mask & ALWAYS_SHORT != 0 { n = n.min(1); }
        if let Some(ch) = s.ch.clone() {
            let mut alts: [u8; 4] = [0; 4];
            let mut k = 1;
            if s.mask & SHORT != 0 && n > 1 { alts[k] = SHORT; k += 1; }
            if s.mask & INTR != 0 { alts[k] = INTR; k += 1; }
            if s.mask & HARD != 0 { alts[k] = HARD; k += 1; }
            let c = if k > 1 { ch.borrow_mut().dev(k) } else { 0 };
            match alts[c] {
                SHORT => n = 1,
                INTR => return Err(io::ErrorKind::Interrupted.into()),
                HARD => { s.hard += 1; return Err(io::Error::new(io::ErrorKind::Other, HARD_MSG)); },
                _ => (),
            }
        }
        buf[..n].copy_from_slice(&s.data[start..start + n]);
        s.pos += n as u64;
        s.max_off = s.max_off.max(s.pos);
        Ok(n)
    }
}

impl Seek for EnvRd {
    fn seek(&mut self, w: SeekFrom) -> io::Result<u64> {
        let mut s = self.0.borrow_mut();
        if s.mask & NOSEEK != 0 {
            s.seek_fails += 1;
            return Err(io::Error::new(io::ErrorKind::Other, "not seekable"));
        }
        if s.mask & SEEKERR != 0 {
            if let Some(ch) = s.ch.clone() {
                if ch.borrow_mut().dev(2) == 1 {
                    s.seek_fails += 1;
                    return Err(io::Error::new(io::ErrorKind::Other, "not seekable"));
                }
            }
        }
        let np = match w {
            SeekFrom::Start(n) => n as i128,
            SeekFrom::Current(n) => s.pos as i128 + n as i128,
            SeekFrom::End(n) => s.data.len() as i128 + n as i128,
        };
        if np < 0 || np > u64::MAX as i128 {
            return Err(io::Error::new(io::ErrorKind::InvalidInput, "bad seek"));
        }
        s.pos = np as u64;
        s.max_seek = s.max_seek.max(s.pos);
        Ok(s.pos)
    }
}

pub struct WrState {
    pub data: Vec<u8>,
    pub pos: usize,
    pub mask: u8,
    pub ch: Option<ChRef>,
    pub hard: u32,
    pub zero: u32,
    pub seek_fails: u32,
    pub intr_next: bool,
    pub calls: u64,
    pub max_write: usize,
}

#[derive(Clone)]
pub struct EnvWr(pub Rc<RefCell<WrState>>);

impl EnvWr {
    pub fn new(mask: u8, ch: Option<ChRef>) -> EnvWr {
        EnvWr(Rc::new(RefCell::new(WrState {
            data: vec![], pos: 0, mask, ch, hard: 0, zero: 0, seek_fails: 0, intr_next: true, calls: 0,
            max_write: 0,
        })))
    }
    pub fn plain() -> EnvWr { EnvWr::new(0, None) }
    pub fn data(&self) -> Vec<u8> { self.0.borrow().data.clone() }
}

impl Write for EnvWr {
    fn write(&mut self, buf: &[u8]) -> io::Result<usize> {
        let mut s = self.0.borrow_mut();
        s.calls += 1;
        s.max_write = s.max_write.max(buf.len());
        if s.calls > 5_000_000 { panic!("endless writing"); }
        let mut n = buf.len();
        if s.mask & ALWAYS_INTR != 0 {
            if s.intr_next { s.intr_next = false; return Err(io::ErrorKind::Interrupted.into()); }
            s.intr_next = true;
        }
        if s.mask & ALWAYS_SHORT != 0 { n = n.min(1); }
        if let Some(ch) = s.ch.clone() {
            let mut alts: [u8; 5] = [0; 5];
            let mut k = 1;
            if s.mask & SHORT != 0 && n > 1 { alts[k] = SHORT; k += 1; }
            if s.mask & INTR != 0 { alts[k] = INTR; k += 1; }
            if s.mask & HARD != 0 { alts[k] = HARD; k += 1; }
            if s.mask & ZERO != 0 && n > 0 { alts[k] = ZERO; k += 1; }
            let c = if k > 1 { ch.borrow_mut().dev(k) } else { 0 };
            match alts[c] {
                SHORT => n = 1,
                INTR => return Err(io::ErrorKind::Interrupted.into()),
                HARD => { s.hard += 1; return Err(io::Error::new(io::ErrorKind::Other, HARD_MSG)); },
                ZERO => { s.zero += 1; return Ok(0); },
                _ => (),
            }
        }
        let p = s.pos;
        if s.data.len() < p { s.data.resize(p, 0xEE); }
        for i in 0..n {
            if p + i < s.data.len() { s.data[p + i] = buf[i]; } else { s.data.push(buf[i]); }
        }
        s.pos += n;
        Ok(n)
    }
    fn flush(&mut self) -> io::Result<()> { Ok(()) }
}

impl Seek for EnvWr {
    fn seek(&mut self, w: SeekFrom) -> io::Result<u64> {
        let mut s = self.0.borrow_mut();
        if s.mask & SEEKERR != 0 {
            if let Some(ch) = s.ch.clone() {
                if ch.borrow_mut().dev(2) == 1 {
                    s.seek_fails += 1;
                    return Err(io::Error::new(io::ErrorKind::Other, HARD_MSG));
                }
            }
        }
        let np = match w {
            SeekFrom::Start(n) => n as i128,
            SeekFrom::Current(n) => s.pos as i128 + n as i128,
            SeekFrom::End(n) => s.data.len() as i128 + n as i128,
        };
        if np < 0 { return Err(io::Error::new(io::ErrorKind::InvalidInput, "bad seek")); }
        s.pos = np as usize;
        Ok(np as u64)
    }
}
