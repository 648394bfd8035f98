//! C14: navigation operation sequences.

use fourleaf::io::TransparentCursor;
use fourleaf::stream::{Element, Stream, Value};
use mc::ensure;
use mc::env::{self, EnvRd};
use mc::eng::*;
use mc::sut::*;
use mc::wire::*;
use std::io::{Read, Seek, SeekFrom};

pub fn docs() -> Vec<(&'static str, Vec<u8>)> {
    let mut v: Vec<(&'static str, Vec<u8>)> = vec![];
    let mut p = |n, f: &dyn Fn(&mut Vec<u8>)| { let mut o = vec![]; f(&mut o); v.push((n, o)); };
    p("flat", &|o| { t_int(o, 1, 7); t_blob(o, 2, b"\x00\x41\xc3"); t_int(o, 3, 300); o.push(0); t_int(o, 4, 1); o.push(0); });
    p("nested", &|o| { t_struct(o, 1); t_int(o, 1, 1); t_struct(o, 2); t_blob(o, 1, b"\x00\x00"); o.push(0); o.push(0);
                       t_enum(o, 2, 9); t_int(o, 1, 2); o.push(0); o.push(0); t_int(o, 1, 5); o.push(0); });
    p("blobs", &|o| { t_blob(o, 1, b"\x00"); t_blob(o, 1, b""); t_struct(o, 3); t_blob(o, 4, b"\x40\x40\x40\x40"); o.push(0); o.push(0); });
    p("eod", &|o| { t_struct(o, 1); t_int(o, 1, 1); o.push(0x40); t_int(o, 9, 9); o.push(0); o.push(0x40); t_struct(o, 2); o.push(0); });
    p("padded", &|o| { o.push(0xC0); t_struct(o, 1); o.push(0xC0); o.push(0xC0); o.push(0); o.push(0xC0); o.push(0); o.push(0xC0); });
    p("exceptions", &|o| { t_int(o, 1, 1); o.push(0x80); put_int(o, 3); o.extend_from_slice(b"\x00er"); t_struct(o, 2); o.push(0x80); put_int(o, 0);
                           t_int(o, 3, 3); o.push(0); o.push(0); });
    p("excess-ends", &|o| { o.push(0); o.push(0); t_int(o, 1, 1); o.push(0); o.push(0); t_struct(o, 1); o.push(0); o.push(0); });
    p("deep", &|o| { for _ in 0..3 { t_struct(o, 1); t_enum(o, 2, 1); } t_int(o, 3, 3); for _ in 0..7 { o.push(0); } });
    p("cut-blob", &|o| { t_int(o, 1, 1); o.push(desc(2, 2)); put_int(o, 6); o.extend_from_slice(b"\x00\x00\x00"); });
    p("cut-struct", &|o| { t_struct(o, 1); t_int(o, 2, 2); t_struct(o, 1); });
    p("big-blob", &|o| { t_struct(o, 1); t_blob(o, 2, &[0x40; 9000]); o.push(0); o.push(0); t_int(o, 1, 1); o.push(0); });
    p("empty", &|_| ());
    p("very-deep", &|o| { for i in 0..70 { if i % 2 == 0 { t_struct(o, 1) } else { t_enum(o, 2, 1) } } t_blob(o, 3, b"\x00\x00"); o.push(0xC0); for _ in 0..70 { o.push(0); } t_int(o, 4, 4); o.push(0); });
    v
}

/// Element boundaries of a document, for seeking.
fn boundary(b: &[u8]) -> u64 {
    let mut lp = Lp::new(b, true);
    let mut v = vec![0];
    while let Ok((ev, at, _)) = lp.next() { v.push(at); if ev == Ev::EndD && at >= b.len() as u64 { break; } lp.eof = false; if v.len() > 40 { break; } }
    v[v.len() / 2]
}

struct M<'a> { lp: Lp<'a>, base: u64 }

pub struct Nav;
/// The first of these make up the basic suite.
const BASIC: usize = 15;
const OPS: [&str; 21] = ["next_element", "next_field", "next_field+skip", "skip_up(0)", "skip_up(1)", "commit", "clear_eof",
    "next_element+read1", "next_element+read_all+rewind", "seek(0)", "seek(mid)", "reset_pos(1000)", "toggle graceful",
    "skip_up(depth-1)", "next_element+seek_to_end",
    "set_struct_depth(2)", "seek(current)", "seek(end)", "reposition the source + set_pos", "seek(end-1)+set_pos(500)", "reset_pos(pos())"];

const NEED_SEEK: [usize; 8] = [8, 9, 10, 14, 16, 17, 18, 19];

impl Nav {
    fn go<R: Read + Seek + Phys>(&self, mut s: Stream<R>, b: &[u8], n: usize, nops: usize, start: u64, seekable: bool, ch: &ChRef, st: &mut Stats) -> Res {
        let mut m = M { lp: Lp::new(b, false), base: 0 };
        if start > 0 { s.set_pos(start); m.base = start; }
        let mid = boundary(b);
        for step in 0..n {
            let mut op = ch.borrow_mut().pick(nops);
            if !seekable && NEED_SEEK.contains(&op) { op = 0; }
            st.step(1);
            let phys0 = s.get_ref().phys();
            let was_eof = m.lp.eof;
            let (hard0, seek0, pending, base0) = (s.get_ref().hard_faults(), s.get_ref().seek_faults(), m.lp.blob_end, m.base);
            // Ok(stop) means go on; a pair of errors ends the run.
            let mut body = || -> Result<Option<(PErr, fourleaf::stream::Error)>, Fail> { Ok(match op {
                0 | 7 | 8 | 14 => self.element(&mut s, &mut m, op, step)?,
                1 | 2 => self.field(&mut s, &mut m, op == 2, step)?,
                3 | 4 | 13 => {
                    let d = match op { 3 => 0, 4 => 1, _ => m.lp.depth.saturating_sub(1) };
                    let mut want = Ok(());
                    while m.lp.depth > d { if let Err(e) = m.lp.next() { want = Err(e); break; } }
                    pair(want, s.skip_up(d), step, OPS[op])?
                },
                5 => pair(m.lp.commit(), s.commit(), step, OPS[op])?,
                6 => { s.clear_eof(); m.lp.eof = false; None },
                9 | 10 => {
                    let to = if op == 9 { 0 } else { mid };
                    let want = m.lp.commit();
                    let got = s.seek(SeekFrom::Start(to));
                    if let Ok(x) = got { ensure!(x == to, "seek-result", "seek({}) returned {}", to, x); }
                    let r = pair(want, got.map(|_| ()), step, OPS[op])?;
                    m.lp.pos = to; m.base = 0; m.lp.depth = 0; m.lp.blob_end = None;
                    r
                },
                11 | 20 => {
                    let to = if op == 11 { 1000 } else { s.pos() };
                    let want = m.lp.commit();
                    let got = s.reset_pos(to);
                    let r = pair(want, got, step, OPS[op])?;
                    if op == 11 || r.is_none() { m.base = to.wrapping_sub(m.lp.pos); }
                    r
                },
                15 => { s.set_struct_depth(2); m.lp.depth = 2; None },
                16 | 17 | 19 => {
                    let want = m.lp.commit();
                    let len = b.len() as u64;
                    let (wh, to) = match op {
                        16 => (SeekFrom::Current(0), m.lp.pos),
                        17 => (SeekFrom::End(0), len),
                        _ => (SeekFrom::End(-(len.min(1) as i64)), len - len.min(1)),
                    };
                    let got = s.seek(wh);
                    if let Ok(x) = got { ensure!(want.is_err() || x == to, "seek-result", "{:?} returned {} instead of {}", wh, x, to); }
                    let r = pair(want, got.map(|_| ()), step, OPS[op])?;
                    if r.is_none() {
                        m.lp.pos = to; m.base = 0; m.lp.depth = 0; m.lp.blob_end = None;
                        if op == 19 { s.set_pos(500); m.base = 500u64.wrapping_sub(to); }
                    }
                    r
                },
                18 => {
                    // what get_mut() documents: settle the stream, move the source, and tell the stream
                    let want = m.lp.commit();
                    let r = pair(want, s.commit(), step, OPS[op])?;
                    if r.is_none() {
                        match s.get_mut().seek(SeekFrom::Start(mid)) {
                            Ok(x) => ensure!(x == mid, "source-seek", "source moved to {} instead of {}", x, mid),
                            Err(e) => return Ok(Some((PErr::Eof, e.into()))),
                        }
                        s.set_pos(mid.wrapping_add(m.base));
                        m.lp.pos = mid;
                    }
                    r
                },
                _ => { let g = !m.lp.graceful; s.set_graceful_eof(g); m.lp.graceful = g; None },
            }) };
            let res = body();
            if s.get_ref().hard_faults() > hard0 {
                if let Ok(None) = res { return fail("fault-swallowed", format!("step {} {}: the source failed but the operation succeeded", step, OPS[op])); }
                return resume(&mut s, base0, pending, b.len() as u64, step, op, st);
            }
            if seekable && s.get_ref().seek_faults() > seek0 {
                // Where a seek is asked for, or needed to find out where the
                // data ends, it may surface; elsewhere nothing may change.
                let told = match res {
                    Ok(Some((_, fourleaf::stream::Error::Io(ref e)))) => e.to_string() == "not seekable",
                    Err(ref f) => NEED_SEEK.contains(&op) && f.msg.contains("not seekable"),
                    _ => false,
                };
                if told { return resume(&mut s, base0, pending, b.len() as u64, step, op, st); }
            }
            let err = res?;
            if let Some((p, e)) = err {
                ensure!(agrees(&p, &ec(&e)), "wrong-error", "step {} {}: expected {:?}, got {:?}", step, OPS[op], p, e);
                ensure!(s.pos().wrapping_sub(base0) == s.get_ref().phys(), "pos-after-error", "step {} {}: pos {} but byte stream at {} after {:?}",
                        step, OPS[op], s.pos().wrapping_sub(base0), s.get_ref().phys(), e);
                st.out("error");
                if nops > BASIC { self.wild(s, b, base0, seekable, n - 1 - step, nops, ch, st)?; }
                st.trace();
                return Ok(());
            }
            if was_eof && op < 3 {
                ensure!(s.get_ref().phys() == phys0, "touched-source-at-eof", "step {}: source read after the end of the document", step);
            }
            ensure!(s.eof() == m.lp.eof, "eof-flag", "step {} {}: eof {} expected {}", step, OPS[op], s.eof(), m.lp.eof);
            ensure!(s.struct_depth() == m.lp.depth, "depth", "step {} {}: depth {} expected {}", step, OPS[op], s.struct_depth(), m.lp.depth);
            ensure!(s.graceful_eof() == m.lp.graceful, "graceful-flag", "step {}", step);
            if m.lp.blob_end.is_none() {
                ensure!(s.pos() == m.lp.pos.wrapping_add(m.base), "pos", "step {} {}: pos {} expected {}", step, OPS[op], s.pos(), m.lp.pos.wrapping_add(m.base));
                ensure!(s.get_ref().phys() == m.lp.pos, "phys", "step {} {}: byte stream at {} expected {}", step, OPS[op], s.get_ref().phys(), m.lp.pos);
            } else {
                ensure!(s.pos().wrapping_sub(m.base) == s.get_ref().phys(), "pos-phys", "step {} {}: pos {} but byte stream at {}", step, OPS[op], s.pos(), s.get_ref().phys());
            }
            st.state(hash(&(b.len(), b.get(3), m.lp.pos, m.lp.depth, m.lp.eof, m.lp.graceful, m.base, s.pos(), m.lp.blob_end)));
            st.out(OPS[op]);
        }
        st.trace();
        Ok(())
    }

    /// After an error the place in the document is lost, but the stream
    /// goes on working and knows its position.
    fn wild<R: Read + Seek + Phys>(&self, mut s: Stream<R>, b: &[u8], mut base: u64, seekable: bool, n: usize, nops: usize, ch: &ChRef, st: &mut Stats) -> Res {
        for step in 0..n {
            let mut op = ch.borrow_mut().pick(nops);
            if !seekable && NEED_SEEK.contains(&op) { op = 0; }
            st.step(1);
            let (eof0, phys0) = (s.eof(), s.get_ref().phys());
            match op {
                0 | 7 | 8 | 14 => {
                    let end = s.next_element().map(|e| match e { Element::EndOfDoc => true, _ => false });
                    ensure!(!eof0 || (end.as_ref().ok() == Some(&true) && s.get_ref().phys() == phys0), "eof-sticky", "step {} after an error: {:?} at the end of the document", step, end);
                    ensure!(end.as_ref().ok() != Some(&true) || s.eof(), "eof-flag", "step {} after an error: end without flag", step);
                },
                1 => { let _ = s.next_field().map(|_| ()); },
                2 => { if let Ok(Some(f)) = s.next_field() { let _ = f.skip(); } },
                3 | 4 | 13 => {
                    let d = match op { 3 => 0, 4 => 1, _ => s.struct_depth().saturating_sub(1) };
                    let r = s.skip_up(d);
                    ensure!(r.is_err() || s.struct_depth() <= d, "skip-up", "step {} after an error: skip_up({}) ended at depth {}", step, d, s.struct_depth());
                },
                5 => { let _ = s.commit(); },
                6 => { s.clear_eof(); ensure!(!s.eof(), "eof-flag", "step {}", step); },
                9 | 10 | 16 | 17 | 18 | 19 => {
                    let wh = match op { 9 => SeekFrom::Start(0), 10 | 18 => SeekFrom::Start(boundary(b)), 16 => SeekFrom::Current(0), _ => SeekFrom::End(0) };
                    if let Ok(x) = s.seek(wh) {
                        ensure!(s.pos() == x && s.struct_depth() == 0, "seek-result", "step {} after an error: {:?} returned {} but pos {} depth {}", step, wh, x, s.pos(), s.struct_depth());
                        base = 0;
                    }
                },
                11 | 20 => {
                    let to = if op == 11 { 1000 } else { s.pos() };
                    if s.reset_pos(to).is_ok() { base = to.wrapping_sub(s.get_ref().phys()); }
                },
                12 => { let g = !s.graceful_eof(); s.set_graceful_eof(g); },
                _ => s.set_struct_depth(2),
            }
            ensure!(s.pos().wrapping_sub(base) == s.get_ref().phys(), "pos-after-error", "step {} {} after an error: pos {} but byte stream at {}",
                    step, OPS[op], s.pos().wrapping_sub(base), s.get_ref().phys());
        }
        Ok(())
    }

    fn element<R: Read + Seek>(&self, s: &mut Stream<R>, m: &mut M, op: usize, step: usize) -> Result<Option<(PErr, fourleaf::stream::Error)>, Fail> {
        let want = m.lp.next();
        let base = m.base;
        match (want, s.next_element()) {
            (Err(p), Err(e)) => Ok(Some((p, e))),
            (Err(p), Ok(_)) => fail("accepted", format!("step {}: expected {:?}, got an element", step, p)),
            (Ok(w), Err(e)) => fail("rejected", format!("step {}: expected {:?}, got {:?}", step, w, e)),
            (Ok((ev, at, depth)), Ok(e)) => {
                let (start, n) = match ev { Ev::Blob(_, a, n) | Ev::Exc(a, n) => (a, n), _ => (0, 0) };
                let b = m.lp.b;
                let have = (b.len() as u64).saturating_sub(start).min(n);
                match (ev, e) {
                    (Ev::Pad, Element::Padding) | (Ev::EndS, Element::EndOfStruct) | (Ev::EndD, Element::EndOfDoc) => (),
                    (Ev::Exc(..), Element::Exception(mut bl)) => {
                        ensure!(bl.len() == n && bl.start_pos() == start.wrapping_add(base), "exception-place", "step {}", step);
                        blob_op(op, &mut bl, &b[start as usize..(start + have) as usize], n)?;
                    },
                    (_, Element::Field(mut f)) => {
                        ensure!(f.pos == at.wrapping_add(base) && f.depth == depth, "field-place",
                                "step {}: field at {} depth {}, expected {} {}", step, f.pos, f.depth, at.wrapping_add(base), depth);
                        match (ev, &mut f.value) {
                            (Ev::Int(t, v), Value::Integer(x)) => ensure!(f.tag == t && v == *x, "int", "step {}", step),
                            (Ev::Struct(t), Value::Struct(_)) => ensure!(f.tag == t, "struct", "step {}", step),
                            (Ev::Enum(t, d), Value::Enum(x, _)) => ensure!(f.tag == t && d == *x, "enum", "step {}", step),
                            (Ev::Blob(t, ..), Value::Blob(bl)) => {
                                ensure!(f.tag == t && bl.len() == n && bl.start_pos() == start.wrapping_add(base), "blob-place",
                                        "step {}: blob at {}+{}, expected {}+{}", step, bl.start_pos(), bl.len(), start.wrapping_add(base), n);
                                blob_op(op, bl, &b[start as usize..(start + have) as usize], n)?;
                            },
                            (w, _) => return fail("wrong-element", format!("step {}: expected {:?}", step, w)),
                        }
                    },
                    (w, _) => return fail("wrong-element", format!("step {}: expected {:?}", step, w)),
                }
                Ok(None)
            },
        }
    }

    fn field<R: Read + Seek>(&self, s: &mut Stream<R>, m: &mut M, skip: bool, step: usize) -> Result<Option<(PErr, fourleaf::stream::Error)>, Fail> {
        let mut want = m.lp.next();
        while let Ok((Ev::Pad, ..)) = want { want = m.lp.next(); }
        let base = m.base;
        match (want, s.next_field()) {
            (Ok((Ev::Exc(start, n), ..)), Err(e)) => {
                let b = m.lp.b;
                if start + n > b.len() as u64 { return Ok(Some((PErr::Trunc(start + n - b.len() as u64), e))); }
                let t = String::from_utf8_lossy(&b[start as usize..(start + n.min(256)) as usize]).into_owned();
                ensure!(ec(&e) == EC::Exc(t.clone()), "exception", "step {}: expected exception {:?}, got {:?}", step, t, e);
                if n <= 256 { m.lp.pos = start + n; m.lp.blob_end = None; }
                Ok(None)
            },
            (Err(p), Err(e)) => Ok(Some((p, e))),
            (Err(p), Ok(_)) => fail("accepted", format!("step {}: expected {:?}, got a field or end", step, p)),
            (Ok(w), Err(e)) => fail("rejected", format!("step {}: expected {:?}, got {:?}", step, w, e)),
            (Ok((Ev::EndS, ..)), Ok(None)) | (Ok((Ev::EndD, ..)), Ok(None)) => Ok(None),
            (Ok((ev, at, depth)), Ok(Some(f))) => {
                ensure!(f.pos == at.wrapping_add(base) && f.depth == depth, "field-place",
                        "step {}: field at {} depth {}, expected {} {}", step, f.pos, f.depth, at.wrapping_add(base), depth);
                match (ev, &f.value) {
                    (Ev::Int(t, v), Value::Integer(x)) => ensure!(f.tag == t && v == *x, "int", "step {}", step),
                    (Ev::Struct(t), Value::Struct(_)) => ensure!(f.tag == t, "struct", "step {}", step),
                    (Ev::Enum(t, d), Value::Enum(x, _)) => ensure!(f.tag == t && d == *x, "enum", "step {}", step),
                    (Ev::Blob(t, _, n), Value::Blob(bl)) => ensure!(f.tag == t && bl.len() == n, "blob", "step {}", step),
                    (w, _) => return fail("wrong-element", format!("step {}: expected {:?}", step, w)),
                }
                if skip {
                    let mut want = Ok(());
                    if let Ev::Struct(_) | Ev::Enum(..) = ev {
                        while m.lp.depth > depth { if let Err(e) = m.lp.next() { want = Err(e); break; } }
                    }
                    return pair(want, f.skip(), step, "skip");
                }
                Ok(None)
            },
            (Ok(w), Ok(None)) => fail("wrong-element", format!("step {}: expected {:?}, got end", step, w)),
        }
    }
}

/// The source failed once inside an operation and works again: the position
/// is still exact, and an unfinished skip over a blob can be completed.
fn resume<R: Read + Seek + Phys>(s: &mut Stream<R>, base: u64, pending: Option<u64>, len: u64, step: usize, op: usize, st: &mut Stats) -> Res {
    ensure!(s.pos().wrapping_sub(base) == s.get_ref().phys(), "pos-after-fault", "step {} {}: pos {} but byte stream at {} after a source failure",
            step, OPS[op], s.pos().wrapping_sub(base), s.get_ref().phys());
    let at = s.get_ref().phys();
    if let Some(end) = pending {
        if end <= len && at < end && ![9, 10, 11, 20].contains(&op) {
            let r = s.commit();
            ensure!(r.is_ok(), "resume", "step {} {}: completing the skip failed: {:?}", step, OPS[op], r);
            ensure!(s.get_ref().phys() == end && s.pos().wrapping_sub(base) == end, "resume",
                    "step {} {}: resumed skip ended at {} (position {}) instead of {}", step, OPS[op], s.get_ref().phys(), s.pos().wrapping_sub(base), end);
            st.out("skip resumed");
        }
    }
    st.out("source failed"); st.trace();
    Ok(())
}

fn pair(want: Result<(), PErr>, got: Result<(), fourleaf::stream::Error>, step: usize, op: &str)
        -> Result<Option<(PErr, fourleaf::stream::Error)>, Fail> {
    match (want, got) {
        (Ok(()), Ok(())) => Ok(None),
        (Err(p), Err(e)) => Ok(Some((p, e))),
        (Ok(()), Err(e)) => fail("op-failed", format!("step {} {}: {:?}", step, op, e)),
        (Err(p), Ok(())) => fail("op-succeeded", format!("step {} {}: expected {:?}", step, op, p)),
    }
}

fn blob_op<R: Read + Seek>(op: usize, bl: &mut fourleaf::stream::Blob<R>, data: &[u8], n: u64) -> Res {
    match op {
        7 => {
            let mut x = [0u8; 1];
            let k = loop {
                match bl.read(&mut x) {
                    Ok(k) => break k,
                    Err(ref e) if e.kind() == std::io::ErrorKind::Interrupted => (),
                    Err(e) => return fail("blob-io", e.to_string()),
                }
            };
            ensure!(k == data.len().min(1) && x[..k] == data[..k], "blob-content", "read1");
        },
        8 => {
            let mut v = vec![];
            let r = bl.read_to_end(&mut v);
            ensure!(r.is_ok() && v == data, "blob-content", "read_to_end {:?}", r);
            let r = bl.seek(SeekFrom::Start(0));
            ensure!(r.as_ref().ok() == Some(&0), "blob-seek", "rewind {:?}", r);
        },
        // Moving to the end of a blob whose data is missing would leave the
        // document.
        14 if data.len() as u64 == n => {
            let r = bl.seek(SeekFrom::End(0));
            ensure!(r.as_ref().ok() == Some(&n), "blob-seek", "seek to end {:?}", r);
        },
        _ => (),
    }
    Ok(())
}

impl Suite for Nav {
    fn name(&self) -> &'static str { "navigation" }
    fn bounds(&self, t: Tier) -> String {
        format!("all sequences of {} operations out of {} on {} documents x 4 sources/start positions", t.q(5, 6), BASIC, docs().len())
    }
    fn units(&self, _: Tier) -> usize { docs().len() * 4 * BASIC }
    fn unit(&self, u: usize, t: Tier, cx: &mut Cx) {
        let nd = docs().len();
        let first = u / (nd * 4);
        let mut c = Case::new(self.name(), &[(u % nd) as u64, ((u / nd) % 4) as u64, t.q(5, 6)]);
        c.ch = vec![first as u32];
        cx.explore(self, c, 0);
    }
    fn exec(&self, c: &Case, ch: &ChRef, st: &mut Stats) -> Res {
        run4(c, BASIC, ch, st)
    }
    fn show(&self, c: &Case) -> String {
        let d = docs();
        format!("doc={} ({}) source={} ops={:?}", d[c.ints[0] as usize].0, hx(&d[c.ints[0] as usize].1), c.ints[1],
                c.ch.iter().map(|x| OPS[*x as usize % OPS.len()]).collect::<Vec<_>>())
    }
}

fn run4(c: &Case, k: usize, ch: &ChRef, st: &mut Stats) -> Res {
    let b = &docs()[c.ints[0] as usize].1;
    let n = c.ints[2] as usize;
    match c.ints[1] {
        0 => Nav.go::<TransparentCursor<&[u8]>>(Stream::from_slice(&b[..]), b, n, k, 0, true, ch, st),
        1 => Nav.go(Stream::new(EnvRd::plain(b)), b, n, k, 0, true, ch, st),
        2 => Nav.go(Stream::new_seek(EnvRd::new(b, env::ALWAYS_SHORT | env::ALWAYS_INTR, None)), b, n, k, 77, true, ch, st),
        _ => Nav.go(Stream::new_seek(EnvRd::new(b, env::NOSEEK, None)), b, n, k, 0, false, ch, st),
    }
}

/// With the caller moving the source or correcting the bookkeeping, and
/// going on after errors.
pub struct Repos;
impl Suite for Repos {
    fn name(&self) -> &'static str { "repositioning" }
    fn bounds(&self, t: Tier) -> String {
        format!("all sequences of {} operations out of {} (also correcting the depth, relative seeks, moving the source itself), continuing after errors, on {} documents x 4 sources/start positions", t.q(4, 5), OPS.len(), docs().len())
    }
    fn units(&self, _: Tier) -> usize { docs().len() * 4 * OPS.len() }
    fn unit(&self, u: usize, t: Tier, cx: &mut Cx) {
        let nd = docs().len();
        let mut c = Case::new(self.name(), &[(u % nd) as u64, ((u / nd) % 4) as u64, t.q(4, 5)]);
        c.ch = vec![(u / (nd * 4)) as u32];
        cx.explore(self, c, 0);
    }
    fn exec(&self, c: &Case, ch: &ChRef, st: &mut Stats) -> Res { run4(c, OPS.len(), ch, st) }
    fn show(&self, c: &Case) -> String { Nav.show(c) }
}

/// The same with a source which fails once, at every possible call.
pub struct Faulty;
impl Suite for Faulty {
    fn name(&self) -> &'static str { "failing-source" }
    fn bounds(&self, t: Tier) -> String {
        format!("all sequences of {} operations out of {} on {} documents x 3 kinds of source, with one failing read or seek at every possible call", t.q(4, 5), BASIC, docs().len())
    }
    fn units(&self, _: Tier) -> usize { docs().len() * 3 * BASIC }
    fn unit(&self, u: usize, t: Tier, cx: &mut Cx) {
        let nd = docs().len();
        let first = u / (nd * 3);
        // Failing at each of 9000 one-byte reads adds nothing to the few
        // places in the small blobs.
        if docs()[u % nd].0 == "big-blob" && (u / nd) % 3 == 1 { return; }
        let mut c = Case::new(self.name(), &[(u % nd) as u64, ((u / nd) % 3) as u64, t.q(4, 5)]);
        c.ch = vec![first as u32];
        cx.explore(self, c, 1);
    }
    fn exec(&self, c: &Case, ch: &ChRef, st: &mut Stats) -> Res {
        let b = &docs()[c.ints[0] as usize].1;
        let n = c.ints[2] as usize;
        let m = env::HARD;
        match c.ints[1] {
            0 => Nav.go(Stream::new(EnvRd::new(b, m, Some(ch.clone()))), b, n, BASIC, 0, true, ch, st),
            1 => Nav.go(Stream::new(EnvRd::new(b, m | env::ALWAYS_SHORT, Some(ch.clone()))), b, n, BASIC, 0, true, ch, st),
            _ => Nav.go(Stream::new_seek(EnvRd::new(b, m | env::SEEKERR, Some(ch.clone()))), b, n, BASIC, 77, true, ch, st),
        }
    }
    fn show(&self, c: &Case) -> String {
        let d = docs();
        format!("doc={} ({}) source={} choices={:?}", d[c.ints[0] as usize].0, hx(&d[c.ints[0] as usize].1), c.ints[1], c.ch)
    }
}

pub fn check() -> Check {
    Check { id: "C14", level: "model_checking",
        rule: "Every operation sequence is run on a real Stream in lockstep with an explicit model of (position, depth, end flag, pending blob).",
        suites: vec![Box::new(Nav), Box::new(Repos), Box::new(Faulty)] }
}
