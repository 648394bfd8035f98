//! C15: one stream which is both read and written.

use fourleaf::io::TransparentCursor;
use fourleaf::stream::{self, Element, Stream, Value};
use mc::ensure;
use mc::eng::*;
use mc::sut::*;
use mc::wire::*;
use std::io::{Cursor, Read, Seek, SeekFrom, Write};

pub trait File: Read + Write + Seek + Phys { fn content(&self) -> &[u8]; }
impl File for Cursor<Vec<u8>> { fn content(&self) -> &[u8] { self.get_ref() } }
impl File for TransparentCursor<Vec<u8>> { fn content(&self) -> &[u8] { self.0.get_ref() } }

#[derive(Clone, Copy, Debug)]
enum Pend { None, Skip(u64), Alloc(u64), Dyn(usize) }

struct M { out: Vec<u8>, pos: u64, base: u64, depth: u64, eof: bool, graceful: bool, pend: Pend }

impl M {
    fn commit(&mut self) -> Result<(), EC> {
        match self.pend {
            Pend::None => (),
            Pend::Skip(e) => {
                if e > self.out.len() as u64 { return Err(EC::Trunc(e - self.out.len() as u64)); }
                self.pos = e;
            },
            Pend::Alloc(e) => if self.pos != e { return Err(EC::Incomplete(e - self.pos)); },
            Pend::Dyn(at) => {
                let mut h = vec![];
                put_fixed(&mut h, self.pos - at as u64);
                self.out[at - 10..at].copy_from_slice(&h);
            },
        }
        self.pend = Pend::None;
        Ok(())
    }
    fn put(&mut self, b: &[u8]) {
        for &x in b {
            let p = self.pos as usize;
            if p < self.out.len() { self.out[p] = x } else { self.out.push(x) }
            self.pos += 1;
        }
    }
    /// The next element, its offset and depth; what is pending is done already.
    fn next(&mut self) -> Result<(Ev, u64, u64), PErr> {
        let out = std::mem::take(&mut self.out);
        let mut lp = Lp { b: &out, pos: self.pos, depth: self.depth, eof: self.eof, graceful: self.graceful, blob_end: None };
        let r = lp.next();
        let (p, d, e, b) = (lp.pos, lp.depth, lp.eof, lp.blob_end);
        self.out = out;
        self.pos = p; self.depth = d; self.eof = e;
        if let Some(b) = b { self.pend = Pend::Skip(b); }
        r
    }
}

pub fn docs() -> Vec<(&'static str, Vec<u8>)> {
    let mut v: Vec<(&'static str, Vec<u8>)> = vec![];
    let mut p = |n, f: &dyn Fn(&mut Vec<u8>)| { let mut o = vec![]; f(&mut o); v.push((n, o)); };
    p("empty", &|_| ());
    p("blobs", &|o| { t_blob(o, 2, b"\x00\x41\x02"); t_int(o, 3, 5); t_blob(o, 1, b"\x00"); o.push(0); });
    p("nested", &|o| { t_struct(o, 1); t_blob(o, 2, b"\x40\x40"); t_enum(o, 3, 1); o.push(0); o.push(0); t_int(o, 1, 1); o.push(0x40); t_int(o, 2, 2); });
    p("exception", &|o| { o.push(0x80); put_int(o, 2); o.extend_from_slice(b"\x00\x80"); o.push(0xC0); t_int(o, 1, 300); });
    p("cut", &|o| { t_int(o, 1, 1); o.push(desc(2, 2)); put_int(o, 6); o.extend_from_slice(b"\x00\x00\x00"); });
    v
}

const OPS: [&str; 22] = ["next_element", "next_element+read1", "next_field", "skip_up(0)", "commit", "clear_eof", "graceful",
    "u64", "struct", "end_struct", "data", "alloc", "alloc short", "dynamic", "dynamic empty", "exception dynamic", "padding", "align(4)",
    "seek(start)", "seek(end)", "reset_pos(1000)", "reset_pos(pos())"];

pub struct Mixed;
impl Mixed {
    fn go<R: File>(&self, mut s: Stream<R>, doc: &[u8], n: usize, base: u64, ch: &ChRef, st: &mut Stats) -> Res {
        if base > 0 { s.set_pos(base); }
        let mut m = M { out: doc.to_vec(), pos: 0, base, depth: 0, eof: false, graceful: false, pend: Pend::None };
        for step in 0..=n {
            // what was written last is settled before the final comparison
            let op = if step == n { 4 } else { ch.borrow_mut().pick(OPS.len()) };
            st.step(1);
            let before = m.out.clone();
            let uncommitted = match m.pend { Pend::Dyn(_) => true, _ => false };
            let (c, got): (Result<(), EC>, Result<(), stream::Error>) = match op {
                0 | 1 | 2 if m.eof => {
                    let end = s.next_element().map(|e| match e { Element::EndOfDoc => true, _ => false });
                    ensure!(end.as_ref().ok() == Some(&true), "eof-sticky", "step {}: {:?} after the end of the document", step, end);
                    m.depth = 0;
                    (Ok(()), Ok(()))
                },
                0 | 1 | 2 => match m.commit() {
                    Err(e) => (Err(e), s.next_element().map(|_| ())),
                    Ok(()) => self.read(&mut s, &mut m, op, step)?,
                },
                3 => {
                    let mut want = Ok(());
                    while m.depth > 0 && want.is_ok() {
                        want = if m.eof { Ok(()) } else { m.commit() };
                        if want.is_ok() { want = m.next().map(|_| ()).map_err(|e| perr(&e)); }
                    }
                    (want, s.skip_up(0))
                },
                4 => (m.commit(), s.commit()),
                5 => { s.clear_eof(); m.eof = false; (Ok(()), Ok(())) },
                6 => { m.graceful = !m.graceful; s.set_graceful_eof(m.graceful); (Ok(()), Ok(())) },
                7..=17 => {
                    let c = m.commit();
                    if let Err(e) = c { (Err(e), write(&mut s, op)) } else {
                        let r = write(&mut s, op);
                        if r.is_ok() { expect(&mut m, op); }
                        (Ok(()), r)
                    }
                },
                18 | 19 => {
                    let c = m.commit();
                    let (w, to) = if op == 18 { (SeekFrom::Start(0), 0) } else { (SeekFrom::End(0), m.out.len() as u64) };
                    let r = s.seek(w);
                    if let (&Ok(()), &Ok(x)) = (&c, &r) {
                        ensure!(x == to, "seek", "step {}: seek returned {} instead of {}", step, x, to);
                        m.pos = to; m.base = 0; m.depth = 0;
                    }
                    (c, r.map(|_| ()))
                },
                _ => {
                    let c = m.commit();
                    let to = if op == 20 { 1000 } else { s.pos() };
                    let r = s.reset_pos(to);
                    if c.is_ok() { m.base = to.wrapping_sub(m.pos); }
                    (c, r)
                },
            };
            let name = OPS[op];
            let phys = s.get_ref().phys();
            match (c, got) {
                (Ok(()), Ok(())) => (),
                (Err(want), Err(e)) => {
                    let g = ec(&e);
                    ensure!(want == g || want == EC::Overlong, "wrong-error", "step {} {}: expected {:?}, got {:?}", step, name, want, g);
                    if !uncommitted { ensure!(s.get_ref().content() == &before[..], "failed-op-wrote", "step {} {}: the file changed", step, name); }
                    st.out("error"); st.trace();
                    return Ok(());
                },
                (Ok(()), Err(e)) => return fail("op-failed", format!("step {} {}: {:?}", step, name, e)),
                (Err(w), Ok(())) => return fail("op-succeeded", format!("step {} {}: expected {:?}", step, name, w)),
            }
            ensure!(s.pos() == phys.wrapping_add(m.base), "pos", "step {} {}: position {} with the file at {} (base {})", step, name, s.pos(), phys, m.base);
            ensure!(s.eof() == m.eof && s.struct_depth() == m.depth, "state", "step {} {}: eof {} depth {}, expected {} {}", step, name, s.eof(), s.struct_depth(), m.eof, m.depth);
            match m.pend {
                Pend::Skip(_) => (),
                _ => ensure!(phys == m.pos, "place", "step {} {}: file at {}, expected {}", step, name, phys, m.pos),
            }
            let now = s.get_ref().content();
            if let Pend::Dyn(at) = m.pend {
                ensure!(now.len() == m.out.len() && now[..at - 10] == m.out[..at - 10] && now[at..] == m.out[at..], "bytes", "step {} {}: {} expected {}", step, name, hx(now), hx(&m.out));
            } else {
                ensure!(now == &m.out[..], "bytes", "step {} {}: {} expected {}", step, name, hx(now), hx(&m.out));
            }
            st.state(hash(&(&m.out, m.pos, m.depth, m.eof, m.graceful, m.base)));
            st.out(name);
        }
        st.trace();
        Ok(())
    }

    fn read<R: File>(&self, s: &mut Stream<R>, m: &mut M, op: usize, step: usize) -> Result<(Result<(), EC>, Result<(), stream::Error>), Fail> {
        let mut want = m.next();
        if op == 2 { while let Ok((Ev::Pad, ..)) = want { want = m.next(); } }
        let base = m.base;
        if op == 2 {
            let r = s.next_field();
            return Ok(match (want, r) {
                (Ok((Ev::Exc(start, n), ..)), r) => {
                    // the rest of it, if any, is skipped (or found missing) later
                    let k = (m.out.len() as u64 - start).min(n).min(256);
                    let got = r.map(|_| ());
                    match got {
                        Err(e) => {
                            let t = String::from_utf8_lossy(&m.out[start as usize..(start + k) as usize]).into_owned();
                            ensure!(ec(&e) == EC::Exc(t), "exception", "step {}: {:?}", step, e);
                            (Ok(()), Ok(()))
                        },
                        Ok(()) => return fail("exception", format!("step {}: exception not reported", step)),
                    }
                },
                (Err(p), r) => (Err(perr(&p)), r.map(|_| ())),
                (Ok(_), Err(e)) => (Ok(()), Err(e)),
                (Ok((Ev::EndS, ..)), Ok(None)) | (Ok((Ev::EndD, ..)), Ok(None)) => (Ok(()), Ok(())),
                (Ok((ev, at, d)), Ok(Some(f))) => {
                    let g = match f.value { Value::Integer(v) => Ev::Int(f.tag, v), Value::Struct(_) => Ev::Struct(f.tag), Value::Enum(x, _) => Ev::Enum(f.tag, x),
                                            Value::Blob(ref b) => Ev::Blob(f.tag, b.start_pos().wrapping_sub(base), b.len()) };
                    ensure!(g == ev && f.pos == at.wrapping_add(base) && f.depth == d, "field", "step {}: {:?} at {} depth {}, expected {:?} at {} depth {}", step, g, f.pos, f.depth, ev, at.wrapping_add(base), d);
                    (Ok(()), Ok(()))
                },
                (Ok(w), Ok(None)) => return fail("field", format!("step {}: nothing instead of {:?}", step, w)),
            });
        }
        let r = s.next_element();
        Ok(match (want, r) {
            (Err(p), r) => (Err(perr(&p)), r.map(|_| ())),
            (Ok(_), Err(e)) => (Ok(()), Err(e)),
            (Ok((ev, at, d)), Ok(e)) => {
                let mut one = None;
                let mut take = |b: &mut fourleaf::stream::Blob<R>| if op == 1 { let mut x = [0u8]; if let Ok(1) = b.read(&mut x) { one = Some(x[0]); } };
                let g = match e {
                    Element::Padding => Ev::Pad,
                    Element::EndOfStruct => Ev::EndS,
                    Element::EndOfDoc => Ev::EndD,
                    Element::Exception(mut b) => { let r = Ev::Exc(b.start_pos().wrapping_sub(base), b.len()); take(&mut b); r },
                    Element::Field(f) => {
                        ensure!(f.pos == at.wrapping_add(base) && f.depth == d, "field", "step {}: field at {} depth {}, expected {} {}", step, f.pos, f.depth, at.wrapping_add(base), d);
                        match f.value { Value::Integer(v) => Ev::Int(f.tag, v), Value::Struct(_) => Ev::Struct(f.tag), Value::Enum(x, _) => Ev::Enum(f.tag, x),
                                        Value::Blob(mut b) => { let r = Ev::Blob(f.tag, b.start_pos().wrapping_sub(base), b.len()); take(&mut b); r } }
                    },
                };
                ensure!(g == ev, "element", "step {}: {:?} instead of {:?}", step, g, ev);
                if let (1, Ev::Blob(_, a, n)) | (1, Ev::Exc(a, n)) = (op, ev) {
                    let w = if n > 0 { m.out.get(a as usize).cloned() } else { None };
                    ensure!(one == w, "blob-content", "step {}: {:?} instead of {:?}", step, one, w);
                }
                (Ok(()), Ok(()))
            },
        })
    }
}

fn perr(p: &PErr) -> EC { match *p { PErr::Eof => EC::Eof, PErr::Overflow => EC::Overflow, PErr::Overwide => EC::Overwide, PErr::Trunc(n) => EC::Trunc(n), PErr::Overlong => EC::Overlong } }

const D: &[u8] = b"\x00\x40xyz";

fn write<R: File>(s: &mut Stream<R>, op: usize) -> Result<(), stream::Error> {
    match op {
        7 => s.write_u64(9, 200),
        8 => s.write_struct(5),
        9 => s.write_end_struct(),
        10 => s.write_blob_data(6, D).map(|_| ()),
        11 => { let mut b = s.write_blob_alloc(7, 3)?; b.write_all(&D[..3])?; Ok(()) },
        12 => { let mut b = s.write_blob_alloc(7, 3)?; b.write_all(&D[..2])?; Ok(()) },
        13 => { let mut b = s.write_blob_dynamic(8)?; b.write_all(&D[..4])?; Ok(()) },
        14 => s.write_blob_dynamic(8).map(|_| ()),
        15 => { let mut b = s.write_exception_dynamic()?; b.write_all(&D[..1])?; Ok(()) },
        16 => s.write_padding(),
        _ => s.pad_to_align(4),
    }
}
fn expect(m: &mut M, op: usize) {
    let mut o = vec![];
    let mut pend = Pend::None;
    match op {
        7 => t_int(&mut o, 9, 200),
        8 => t_struct(&mut o, 5),
        9 => o.push(0),
        10 => t_blob(&mut o, 6, D),
        11 => t_blob(&mut o, 7, &D[..3]),
        12 => { o.push(desc(2, 7)); o.push(3); o.extend_from_slice(&D[..2]); pend = Pend::Alloc(m.pos + 5); },
        13 | 14 | 15 => {
            o.push(if op == 15 { 0x80 } else { desc(2, 8) });
            o.extend_from_slice(&[0; 10]);
            o.extend_from_slice(&D[..[4, 0, 1][op - 13]]);
            pend = Pend::Dyn(m.pos as usize + 11);
        },
        16 => o.push(0xC0),
        _ => while m.pos.wrapping_add(m.base).wrapping_add(o.len() as u64) % 4 != 0 { o.push(0xC0) },
    }
    m.put(&o);
    m.pend = pend;
}

impl Suite for Mixed {
    fn name(&self) -> &'static str { "read-and-write" }
    fn bounds(&self, t: Tier) -> String {
        format!("all sequences of {} operations out of {} (reading, writing, repositioning) on one stream over {} existing files x 3 streams (with and without seeking over blobs, start position 0 and 61)", t.q(5, 6), OPS.len(), docs().len())
    }
    fn units(&self, _: Tier) -> usize { docs().len() * 3 * OPS.len() }
    fn unit(&self, u: usize, t: Tier, cx: &mut Cx) {
        let nd = docs().len();
        let mut c = Case::new(self.name(), &[(u % nd) as u64, (u / nd % 3) as u64, t.q(5, 6)]);
        c.ch = vec![(u / nd / 3) as u32];
        cx.explore(self, c, 0);
    }
    fn exec(&self, c: &Case, ch: &ChRef, st: &mut Stats) -> Res {
        let d = &docs()[c.ints[0] as usize].1;
        let n = c.ints[2] as usize;
        match c.ints[1] {
            0 => self.go(Stream::new(Cursor::new(d.clone())), d, n, 0, ch, st),
            1 => self.go(Stream::new_seek(Cursor::new(d.clone())), d, n, 61, ch, st),
            _ => self.go(Stream::new_seek(TransparentCursor(Cursor::new(d.clone()))), d, n, 0, ch, st),
        }
    }
    fn show(&self, c: &Case) -> String {
        let d = docs();
        format!("file={} ({}) stream={} ops={:?}", d[c.ints[0] as usize].0, hx(&d[c.ints[0] as usize].1), c.ints[1], c.ch.iter().map(|x| OPS[*x as usize % OPS.len()]).collect::<Vec<_>>())
    }
}
