//! C17: copying a stream into another one.

use crate::c15::Sink;
use fourleaf::io::TransparentCursor;
use fourleaf::stream::{Element, Stream, Value};
use mc::ensure;
use mc::env::{self, EnvRd, EnvWr};
use mc::eng::*;
use mc::sut::*;
use mc::wire::*;
use std::io::{Cursor, Read, Seek, SeekFrom};

fn tokens() -> Vec<Vec<u8>> {
    let mut v = vec![];
    let mut p = |f: &dyn Fn(&mut Vec<u8>)| { let mut o = vec![]; f(&mut o); v.push(o); };
    p(&|o| t_int(o, 1, 300));
    p(&|o| o.push(0));
    p(&|o| t_struct(o, 63));
    p(&|o| t_enum(o, 2, 200));
    p(&|o| t_blob(o, 5, b"\x00\x40\xC0x"));
    p(&|o| t_blob(o, 1, b""));
    p(&|o| o.push(0xC0));
    p(&|o| o.push(0x40));
    p(&|o| { o.push(0x80); put_int(o, 3); o.extend_from_slice(b"err"); });
    p(&|o| { o.push(0x80); put_int(o, 0); });
    p(&|o| { o.push(desc(1, 7)); put_fixed(o, 5); });
    p(&|o| { o.push(desc(2, 8)); put_fixed(o, 2); o.extend_from_slice(b"hi"); });
    p(&|o| { o.push(4); put_fixed(o, 1); });
    p(&|o| t_int(o, 33, u64::MAX));
    // cut short, when last
    p(&|o| { o.push(desc(2, 9)); put_int(o, 9); o.extend_from_slice(b"\x00\x00"); });
    p(&|o| { o.push(0x80); put_int(o, 400); });
    v
}
fn big_tokens() -> Vec<Vec<u8>> {
    let mut v = vec![];
    for n in [127usize, 128, 255, 257, 8191, 8192, 8193, 16384, 70000] {
        let d: Vec<u8> = (0..n).map(|x| (x * 7) as u8).collect();
        let mut o = vec![];
        t_blob(&mut o, 3, &d);
        v.push(o);
        let mut o = vec![0x80];
        put_int(&mut o, n as u64);
        o.extend_from_slice(&d);
        v.push(o);
    }
    v
}

fn huge_tokens() -> Vec<Vec<u8>> {
    let mut v = vec![];
    for n in [1usize << 17, (1 << 20) - 1, 1 << 20, (1 << 20) + 1, (1 << 21) + 5] {
        let d: Vec<u8> = (0..n).map(|x| (x * 7 + x / 65536) as u8).collect();
        let mut o = vec![];
        t_blob(&mut o, 3, &d);
        v.push(o);
        let mut o = vec![0x80];
        put_int(&mut o, n as u64);
        o.extend_from_slice(&d);
        v.push(o);
    }
    v
}

/// Every kind of element with every boundary value, tag and small length.
fn single_tokens() -> Vec<Vec<u8>> {
    let mut ns = vec![0u64, u64::MAX];
    for k in 0..64 { let p = 1u64 << k; ns.extend([p - 1, p, p.wrapping_add(1)]); }
    ns.sort();
    ns.dedup();
    let mut v = vec![];
    for tag in 1..64u8 {
        for &n in if tag == 1 || tag == 63 { &ns[..] } else { &ns[..4] } {
            let mut o = vec![]; t_int(&mut o, tag, n); v.push(o);
            let mut o = vec![]; t_enum(&mut o, tag, n); o.push(0); v.push(o);
        }
        let mut o = vec![]; t_struct(&mut o, tag); o.push(0); v.push(o);
        let mut o = vec![]; t_blob(&mut o, tag, b"ab"); v.push(o);
    }
    for n in 0..=300usize {
        let d: Vec<u8> = (0..n).map(|x| (x * 5 + x / 256) as u8).collect();
        let mut o = vec![]; t_blob(&mut o, 7, &d); v.push(o);
        let mut o = vec![0x80]; put_int(&mut o, n as u64); o.extend_from_slice(&d); v.push(o);
    }
    v
}

/// Do something to a blob before copying it; the number of bytes that remain
/// to be copied, or None if the policy does not apply.
fn prepare<R: Read + Seek>(bl: &mut fourleaf::stream::Blob<R>, pol: usize, have: u64) -> Result<u64, Fail> {
    let n = bl.len();
    let io = |e: std::io::Error| Fail { key: "blob-io".into(), msg: format!("{:?}", e) };
    Ok(match pol {
        0 => n,
        1 => { let mut x = [0u8; 1]; let k = loop { match bl.read(&mut x) { Err(ref e) if e.kind() == std::io::ErrorKind::Interrupted => (), r => break r } }; n - k.map_err(io)? as u64 },
        2 => { let mut v = vec![]; bl.read_to_end(&mut v).map_err(io)?; n - v.len() as u64 },
        _ => {
            let mut v = vec![]; bl.read_to_end(&mut v).map_err(io)?;
            if v.len() as u64 != have { return fail("blob-io", "short"); }
            bl.seek(SeekFrom::Start(0)).map_err(io)?;
            n
        },
    })
}

struct Copy { kind: u8 }
impl Copy {
    fn go<R: Read + Seek, W: Sink>(&self, mut s: Stream<R>, mut w: Stream<W>, b: &[u8], fields: bool, ch: &ChRef, st: &mut Stats) -> Res {
        s.set_graceful_eof(true);
        let mut lp = Lp::new(b, true);
        let mut want = vec![];
        let mut canonical = true;
        // bytes missing from the last blob written
        let mut short = 0u64;
        for step in 0.. {
            st.step(1);
            if step > 200 { return fail("endless", "copy does not end"); }
            let mut r = lp.next();
            let mut pads = 0;
            if fields { while let Ok((Ev::Pad, ..)) = r { r = lp.next(); canonical = false; pads += 1; } }
            if let Ok((Ev::Exc(..), ..)) = r { for _ in 0..pads { ensure!(matches!(s.next_element(), Ok(Element::Padding)), "padding", "step {}", step); } }
            let (ev, _, _) = match r {
                Err(p) => {
                    let e = if fields { s.next_field().err() } else { s.next_element().err() };
                    ensure!(e.as_ref().map_or(false, |e| agrees(&p, &ec(e))), "source-error", "step {}: expected {:?}, got {:?}", step, p, e);
                    canonical = false;
                    break;
                },
                Ok(x) => x,
            };
            let blob = match ev { Ev::Blob(_, a, n) | Ev::Exc(a, n) => Some((a, n)), _ => None };
            let have = blob.map_or(0, |(a, n)| (b.len() as u64).saturating_sub(a).min(n));
            let mut left = 0;
            // real copy of one element
            let res = if fields && !matches!(ev, Ev::Exc(..)) {
                match s.next_field() {
                    Err(e) => return fail("rejected", format!("step {}: {:?}", step, e)),
                    Ok(None) => if s.eof() { w.write_end_doc() } else { w.write_end_struct() },
                    Ok(Some(mut f)) => {
                        if let Value::Blob(ref mut bl) = f.value { left = prepare(bl, ch.borrow_mut().pick(4), have)?; }
                        w.write_field(&mut f)
                    },
                }
            } else {
                match s.next_element() {
                    Err(e) => return fail("rejected", format!("step {}: {:?}", step, e)),
                    Ok(mut el) => {
                        match el {
                            Element::Exception(ref mut bl) => left = prepare(bl, ch.borrow_mut().pick(4), have)?,
                            Element::Field(ref mut f) => if let Value::Blob(ref mut bl) = f.value { left = prepare(bl, ch.borrow_mut().pick(4), have)?; },
                            _ => (),
                        }
                        w.write_element(&mut el)
                    },
                }
            };
            if short > 0 {
                let e = res.as_ref().err().map(ec);
                ensure!(e == Some(EC::Incomplete(short)), "silently-complete", "step {}: {} bytes of the copied blob are missing, but continuing gave {:?}", step, short, res);
                st.out("incomplete detected"); st.trace();
                return Ok(());
            }
            if let Err(e) = res { return fail("copy-failed", format!("step {}: {:?} for {:?}", step, e, ev)); }
            match ev {
                Ev::Int(t, v) => t_int(&mut want, t, v),
                Ev::Struct(t) => t_struct(&mut want, t),
                Ev::Enum(t, d) => t_enum(&mut want, t, d),
                Ev::EndS => want.push(0),
                Ev::EndD => want.push(0x40),
                Ev::Pad => want.push(0xC0),
                Ev::Blob(t, a, n) => { want.push(desc(2, t)); put_int(&mut want, n); want.extend_from_slice(&b[(a + n - left) as usize..(a + have) as usize]); short = n - (left - (n - have)); },
                Ev::Exc(a, n) => { want.push(0x80); put_int(&mut want, n); want.extend_from_slice(&b[(a + n - left) as usize..(a + have) as usize]); short = n - (left - (n - have)); },
            }
            ensure!(w.pos() == want.len() as u64, "sink-pos", "step {}: sink at {}, expected {}", step, w.pos(), want.len());
            if ev == Ev::EndD { break; }
        }
        match w.commit() {
            Ok(()) => ensure!(short == 0, "silently-complete", "commit succeeded with {} bytes missing", short),
            Err(e) => { ensure!(ec(&e) == EC::Incomplete(short) && short > 0, "commit", "{:?}, {} missing", e, short); st.out("incomplete detected"); },
        }
        let got = w.get_ref().content();
        ensure!(got == want, "copy", "copy is {}, expected {}", hx(&got), hx(&want));
        if canonical && short == 0 && ref_canonical(b) {
            let n = lp.pos as usize;
            let mut src = b[..n].to_vec();
            if got.len() == n + 1 { src.push(0x40); }
            ensure!(got == src, "copy-identical", "copy {} of canonical {}", hx(&got), hx(&src));
            st.out("identical");
        }
        st.state(hash(&got));
        st.out("copied"); st.trace();
        Ok(())
    }
    fn toks(&self) -> Vec<Vec<u8>> { match self.kind { 0 => tokens(), 1 => big_tokens(), 3 => huge_tokens(), _ => single_tokens() } }
}
/// No denormalised integers: re-encoding the elements gives the same bytes.
fn ref_canonical(b: &[u8]) -> bool {
    let mut lp = Lp::new(b, true);
    let mut o = vec![];
    while let Ok((ev, _, _)) = lp.next() {
        match ev {
            Ev::Int(t, v) => t_int(&mut o, t, v),
            Ev::Struct(t) => t_struct(&mut o, t),
            Ev::Enum(t, d) => t_enum(&mut o, t, d),
            Ev::EndS => o.push(0),
            Ev::EndD => { if lp.pos as usize > o.len() { o.push(0x40); } break },
            Ev::Pad => o.push(0xC0),
            Ev::Blob(t, a, n) => { if a + n > b.len() as u64 { return false; } t_blob(&mut o, t, &b[a as usize..(a + n) as usize]) },
            Ev::Exc(a, n) => { if a + n > b.len() as u64 { return false; } o.push(0x80); put_int(&mut o, n); o.extend_from_slice(&b[a as usize..(a + n) as usize]) },
        }
    }
    o[..] == b[..(lp.pos as usize)]
}

const MODES: u64 = 12;
impl Suite for Copy {
    fn name(&self) -> &'static str { match self.kind { 0 => "documents", 1 => "large-blobs", 3 => "huge-blobs", _ => "single-elements" } }
    fn bounds(&self, t: Tier) -> String {
        if self.kind == 2 {
            format!("every element alone and followed by an integer: tags 1..=63, integers and discriminants 0, 2^k-1, 2^k, 2^k+1, 2^64-1, blobs and exceptions of length 0..=300 ({} in all) x blob treatments x 12 modes", single_tokens().len())
        } else if self.kind == 3 {
            format!("each of {} blobs and exceptions of 2^17 to 2^21+5 bytes alone and followed by an integer x blob treatments x the 4 modes without chopped streams", huge_tokens().len())
        } else if self.kind == 1 { format!("all sequences of <= 2 of {} large blobs and exceptions x blob policies x 12 modes", big_tokens().len()) } else {
            format!("all sequences of <= {} of {} tokens (some denormalised or cut short) x 4 treatments of each blob before copying x 12 modes (element/field \
                     API x 3 sources x 2 sinks)", t.q(4, 5), tokens().len())
        }
    }
    fn units(&self, _: Tier) -> usize { self.toks().len() * MODES as usize }
    fn unit(&self, u: usize, t: Tier, cx: &mut Cx) {
        let tk = self.toks();
        let m = u as u64 % MODES;
        if self.kind == 3 && ![0, 1, 4, 5].contains(&m) { return; }
        let max = if self.kind > 1 { 1 } else if self.kind == 1 { 2 } else { t.q(4, 5) };
        if u < MODES as usize { cx.run(self, Case::b(self.name(), &[m], &[])); }
        let mut stack = vec![(tk[u / MODES as usize].clone(), 1)];
        if self.kind >= 2 { let mut c = stack[0].0.clone(); t_int(&mut c, 9, 128); stack.push((c, 1)); }
        while let Some((b, n)) = stack.pop() {
            if cx.stopped() || cx.past_deadline() { return; }
            cx.explore(self, Case::b(self.name(), &[m], &b), 0);
            if n < max { for a in &tk { let mut c = b.clone(); c.extend_from_slice(a); stack.push((c, n + 1)); } }
        }
    }
    fn exec(&self, c: &Case, ch: &ChRef, st: &mut Stats) -> Res {
        let b = &c.bytes[..];
        let m = c.ints[0];
        let f = m % 2 == 1;
        let chop = env::ALWAYS_SHORT | env::ALWAYS_INTR;
        match (m / 2 % 3, m / 6) {
            (0, 0) => self.go::<TransparentCursor<&[u8]>, _>(Stream::from_slice(b), Stream::new(Cursor::new(vec![])), b, f, ch, st),
            (0, _) => self.go::<TransparentCursor<&[u8]>, _>(Stream::from_slice(b), Stream::new(EnvWr::new(chop, None)), b, f, ch, st),
            (1, 0) => self.go(Stream::new(EnvRd::new(b, chop, None)), Stream::new(Cursor::new(vec![])), b, f, ch, st),
            (1, _) => self.go(Stream::new(EnvRd::new(b, chop, None)), Stream::new_seek(EnvWr::new(chop, None)), b, f, ch, st),
            (_, 0) => self.go(Stream::new_seek(EnvRd::plain(b)), Stream::new(Cursor::new(vec![])), b, f, ch, st),
            (_, _) => self.go(Stream::new_seek(EnvRd::plain(b)), Stream::new(EnvWr::new(env::ALWAYS_SHORT, None)), b, f, ch, st),
        }
    }
    fn show(&self, c: &Case) -> String { format!("document={} mode={} blob treatments={:?}", hx(&c.bytes), c.ints[0], c.ch) }
}

pub fn check() -> Check {
    Check { id: "C17", level: "model_checking",
        rule: "Every document is copied between two real Streams and the result compared with the reference re-encoding of the reference parse.",
        suites: vec![Box::new(Copy { kind: 0 }), Box::new(Copy { kind: 1 }), Box::new(Copy { kind: 2 }), Box::new(Copy { kind: 3 })] }
}
