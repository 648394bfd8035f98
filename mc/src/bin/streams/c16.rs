//! C16: a blob as a bounded file.

use fourleaf::io::TransparentCursor;
use fourleaf::stream::{self, Blob, Element, Stream, Value};
use mc::ensure;
use mc::env::{self, EnvRd};
use mc::eng::*;
use mc::sut::*;
use mc::wire::*;
use std::sync::OnceLock;
use std::io::{self, BufRead, BufReader, Cursor, Read, Seek, SeekFrom, Write};

type SRes<T> = Result<T, stream::Error>;

/// A source together with what it supports.
pub trait Src: Read + Seek + Sized {
    fn content(&self) -> Vec<u8>;
    fn b_write(_: &mut Blob<Self>, _: &[u8]) -> Option<io::Result<usize>> { None }
    fn b_slice(_: &Blob<Self>) -> Option<SRes<Vec<u8>>> { None }
    fn b_flip(_: &mut Blob<Self>) -> Option<SRes<usize>> { None }
    /// the slice and the address it has
    fn b_ext(_: &mut Blob<Self>) -> Option<SRes<(Vec<u8>, usize)>> { None }
    /// what fill_buf shows; consumes `k` (or everything) of it
    fn b_fill(_: &mut Blob<Self>, _k: usize) -> Option<io::Result<Vec<u8>>> { None }
    fn base(&self) -> usize { 0 }
}
fn fill<R: BufRead>(b: &mut Blob<R>, k: usize) -> Option<io::Result<Vec<u8>>> {
    let v = loop {
        match b.fill_buf() {
            Ok(s) => break s.to_vec(),
            Err(ref e) if e.kind() == io::ErrorKind::Interrupted => (),
            Err(e) => return Some(Err(e)),
        }
    };
    let n = v.len().min(k);
    b.consume(n);
    Some(Ok(v))
}
fn flip<R: AsMut<[u8]>>(b: &mut Blob<R>) -> Option<SRes<usize>> {
    Some(b.slice_mut().map(|s| { for x in s.iter_mut() { *x ^= 0x55; } s.len() }))
}
impl Src for TransparentCursor<Vec<u8>> {
    fn content(&self) -> Vec<u8> { self.0.get_ref().clone() }
    fn b_write(b: &mut Blob<Self>, d: &[u8]) -> Option<io::Result<usize>> { Some(b.write(d)) }
    fn b_slice(b: &Blob<Self>) -> Option<SRes<Vec<u8>>> { Some(b.slice().map(|x| x.to_vec())) }
    fn b_flip(b: &mut Blob<Self>) -> Option<SRes<usize>> { flip(b) }
    fn b_fill(b: &mut Blob<Self>, k: usize) -> Option<io::Result<Vec<u8>>> { fill(b, k) }
}
impl<'a> Src for TransparentCursor<&'a [u8]> {
    fn content(&self) -> Vec<u8> { self.0.get_ref().to_vec() }
    fn b_slice(b: &Blob<Self>) -> Option<SRes<Vec<u8>>> { Some(b.slice().map(|x| x.to_vec())) }
    fn b_ext(b: &mut Blob<Self>) -> Option<SRes<(Vec<u8>, usize)>> { Some(b.ext_slice().map(|x| (x.to_vec(), x.as_ptr() as usize))) }
    fn b_fill(b: &mut Blob<Self>, k: usize) -> Option<io::Result<Vec<u8>>> { fill(b, k) }
    fn base(&self) -> usize { self.0.get_ref().as_ptr() as usize }
}
impl<'a> Src for TransparentCursor<&'a mut [u8]> {
    fn content(&self) -> Vec<u8> { self.0.get_ref().to_vec() }
    fn b_write(b: &mut Blob<Self>, d: &[u8]) -> Option<io::Result<usize>> { Some(b.write(d)) }
    fn b_slice(b: &Blob<Self>) -> Option<SRes<Vec<u8>>> { Some(b.slice().map(|x| x.to_vec())) }
    fn b_flip(b: &mut Blob<Self>) -> Option<SRes<usize>> { flip(b) }
    fn b_fill(b: &mut Blob<Self>, k: usize) -> Option<io::Result<Vec<u8>>> { fill(b, k) }
}
impl Src for Cursor<Vec<u8>> {
    fn content(&self) -> Vec<u8> { self.get_ref().clone() }
    fn b_write(b: &mut Blob<Self>, d: &[u8]) -> Option<io::Result<usize>> { Some(b.write(d)) }
    fn b_fill(b: &mut Blob<Self>, k: usize) -> Option<io::Result<Vec<u8>>> { fill(b, k) }
}
impl<'a> Src for Cursor<&'a [u8]> {
    fn content(&self) -> Vec<u8> { self.get_ref().to_vec() }
    fn b_ext(b: &mut Blob<Self>) -> Option<SRes<(Vec<u8>, usize)>> { Some(b.ext_slice().map(|x| (x.to_vec(), x.as_ptr() as usize))) }
    fn base(&self) -> usize { self.get_ref().as_ptr() as usize }
}
impl Src for EnvRd { fn content(&self) -> Vec<u8> { self.0.borrow().data.clone() } }
impl Src for BufReader<EnvRd> {
    fn content(&self) -> Vec<u8> { self.get_ref().0.borrow().data.clone() }
    fn b_fill(b: &mut Blob<Self>, k: usize) -> Option<io::Result<Vec<u8>>> { fill(b, k) }
}

#[derive(Clone, Copy, Debug, PartialEq)]
enum Op {
    Read(usize), Fully(i64), Trunc(usize), Start(i64, bool), End(i64, bool), Cur(i64, u8), Write(usize), Slice, SliceMut, Ext, Fill(usize),
}
/// Arguments of seeks may be relative to the length or the position.
fn ops() -> Vec<Op> {
    use self::Op::*;
    vec![Read(1), Read(3), Read(0), Read(100), Write(1), Write(3), Write(100), Write(0), Start(0, false), Start(1, false), Start(0, true), Start(1, true),
         Start(-1, false), End(0, false), End(-1, false), End(1, false), End(0, true), End(-1, true), End(i64::MIN, false), End(i64::MAX, false),
         Cur(0, 0), Cur(-1, 0), Cur(1, 0), Cur(0, 1), Cur(-1, 1), Cur(0, 2), Cur(1, 2), Cur(i64::MIN, 0), Cur(i64::MAX, 0),
         Fully(-1), Fully(0), Fully(i64::MAX), Trunc(0), Trunc(2), Trunc(1000), Slice, SliceMut, Ext, Fill(0), Fill(1), Fill(100)]
}

/// Amounts at which buffers, narrow integers and caps could turn over.
fn large_ops() -> Vec<Op> {
    use self::Op::*;
    let mut v = vec![Fully(0), Fully(-1), Fully(1 << 32), Fully(i64::MAX), Slice, SliceMut, Ext, Fill(1 << 30), Start(0, true), End(0, false), Cur(0, 1), Cur(-1, 2), End(i64::MIN, false)];
    for k in [255usize, 4097, 65535, 65536, 65537, 1 << 20, (1 << 20) + 1] {
        v.push(Trunc(k)); v.push(Read(k)); v.push(Start(k as i64, false));
        if k > 4097 { v.push(End(-(k as i64), false)); v.push(Cur(k as i64, 0)); v.push(Write(k)); v.push(Fill(k)); }
    }
    for k in [1usize << 31, 1 << 32, (1 << 32) + 1, 1 << 63, usize::MAX] { v.push(Trunc(k)); }
    v
}
fn set(large: bool) -> &'static [Op] {
    static O: OnceLock<[Vec<Op>; 2]> = OnceLock::new();
    &O.get_or_init(|| [ops(), large_ops()])[large as usize]
}

struct Doc { b: Vec<u8>, start: usize, end: usize, exc: bool }
fn mk(len: usize, have: usize, exc: bool) -> Doc {
    let mut b = vec![];
    t_int(&mut b, 1, 77);
    b.push(if exc { 0x80 } else { desc(2, 2) });
    put_int(&mut b, len as u64);
    let start = b.len();
    b.extend((0..have).map(|x| if x % 2 == 0 { (x + x / 256) as u8 } else { (0x40 + x + x / 65536) as u8 }));
    if have == len { t_int(&mut b, 3, 99); b.push(0); }
    Doc { b, start, end: start + len, exc }
}
fn docs() -> Vec<Doc> {
    vec![mk(3, 3, false), mk(0, 0, false), mk(1, 1, false), mk(6, 6, true), mk(5, 3, false), mk(2, 0, false), mk(300, 300, false), mk(0, 0, true),
         mk(65536, 65536, false), mk(65537, 65530, false), mk((1 << 20) + 2, (1 << 20) + 2, false), mk(70000, 70000, true), mk(2_100_000, 1 << 20, false)]
}
fn doc_name(i: usize) -> &'static str {
    ["blob of 3", "blob of 0", "blob of 1", "exception of 6", "blob of 5 with 3 bytes present", "blob of 2 with none present", "blob of 300", "exception of 0", "blob of 65536",
     "blob of 65537 with 65530 bytes present", "blob of 2^20+2", "exception of 70000", "blob of 2100000 with 2^20 bytes present"][i]
}

struct Ops;
impl Ops {
    fn go<R: Src>(&self, mut s: Stream<R>, d: &Doc, base: u64, (n, large): (usize, bool), ch: &ChRef, st: &mut Stats) -> Res {
        if base > 0 { s.set_pos(base); }
        let addr = s.get_ref().base();
        let (start, end) = (d.start as i128, d.end as i128);
        let len = end - start;
        let mut data = d.b.clone();
        let mut pos = start;
        match s.next_element() { Ok(Element::Field(_)) => (), r => return fail("setup", format!("{:?}", r.is_ok())) }
        {
            let mut bl = match s.next_element() {
                Ok(Element::Field(f)) => match f.value { Value::Blob(b) if !d.exc => b, _ => return fail("setup", "blob") },
                Ok(Element::Exception(b)) if d.exc => b,
                _ => return fail("setup", "blob expected"),
            };
            let all = set(large);
            for step in 0..n {
                let op = all[ch.borrow_mut().pick(all.len())];
                st.step(1);
                let have = data.len() as i128;
                let missing = (end - have.max(pos)).max(0);
                // bytes readable from here
                let avail = (end.min(have) - pos).max(0) as usize;
                let here: Vec<u8> = if avail > 0 { data[pos as usize..pos as usize + avail].to_vec() } else { vec![] };
                let whole = missing == 0 || pos == end;
                let trunc_err = |e: &stream::Error| ec(e) == EC::Trunc(missing as u64);
                match op {
                    Op::Read(k) => {
                        let mut x = vec![0xAA; k];
                        let r = loop { match bl.read(&mut x) { Err(ref e) if e.kind() == io::ErrorKind::Interrupted => (), r => break r } };
                        match r {
                            Ok(g) => {
                                ensure!(g <= k.min(avail) && (g > 0) == (k.min(avail) > 0), "read", "step {}: read({}) gave {} of {}", step, k, g, avail);
                                ensure!(x[..g] == here[..g] && x[g..].iter().all(|b| *b == 0xAA), "read", "step {}: wrong bytes", step);
                                pos += g as i128;
                            },
                            Err(e) => return fail("read", format!("step {}: {:?}", step, e)),
                        }
                    },
                    Op::Fully(m) => {
                        let rem = (end - pos) as i64;
                        let max = match m { -1 => if rem == 0 { continue } else { rem - 1 }, 0 => rem, _ => i64::MAX } as usize;
                        match bl.read_fully(max) {
                            Ok(v) => {
                                ensure!(max as i64 >= rem, "read_fully-limit", "step {}: {} bytes with limit {}", step, v.len(), max);
                                ensure!(whole, "read_fully-short", "step {}: {} bytes of {}", step, v.len(), rem);
                                ensure!(v == here, "read_fully", "step {}: wrong bytes", step);
                                pos = end;
                            },
                            Err(e) => {
                                if (max as i64) < rem { ensure!(ec(&e) == EC::Large(max, rem as u64), "read_fully-kind", "step {}: {:?}", step, e); }
                                else {
                                    ensure!(!whole && trunc_err(&e), "read_fully-kind", "step {}: {:?}", step, e);
                                    st.out("truncated"); st.trace();
                                    return Ok(());
                                }
                            },
                        }
                    },
                    Op::Trunc(k) => match bl.read_or_trunc(k) {
                        Ok(v) => {
                            let want = here.len().min(k);
                            ensure!(v == here[..want], "read_or_trunc", "step {}: {} bytes, expected {}", step, v.len(), want);
                            pos += want as i128;
                        },
                        Err(e) => {
                            ensure!(k > avail && !whole && trunc_err(&e), "read_or_trunc", "step {}: {:?}", step, e);
                            return Ok(());
                        },
                    },
                    Op::Start(..) | Op::End(..) | Op::Cur(..) => {
                        let (w, to) = match op {
                            Op::Start(x, rel) => { let a = if rel { len + x as i128 } else if x < 0 { u64::MAX as i128 } else { x as i128 }; (SeekFrom::Start(a as u64), a) },
                            Op::End(x, rel) => { let a = if rel { x as i128 - len } else { x as i128 }; (SeekFrom::End(a as i64), len + a) },
                            Op::Cur(x, rel) => {
                                let a = match rel { 1 => x as i128 - (pos - start), 2 => x as i128 + (end - pos), _ => x as i128 };
                                (SeekFrom::Current(a as i64), pos - start + a)
                            },
                            _ => unreachable!(),
                        };
                        let r = bl.seek(w);
                        if to >= 0 && to <= len {
                            ensure!(r.as_ref().ok() == Some(&(to as u64)), "seek", "step {}: {:?} within {} bytes: {:?}", step, w, len, r);
                            pos = start + to;
                        } else {
                            ensure!(r.is_err(), "seek-out-of-range", "step {}: {:?} within {} bytes succeeded: {:?}", step, w, len, r);
                        }
                    },
                    Op::Write(k) => {
                        let d: Vec<u8> = (0..k).map(|x| 0xA0 + (x % 32) as u8 + step as u8).collect();
                        let grow = s_grows::<R>(&bl);
                        match R::b_write(&mut bl, &d) {
                            None => { st.out("unsupported"); st.trace(); return Ok(()); },
                            Some(Err(e)) => return fail("write", format!("step {}: {:?}", step, e)),
                            Some(Ok(g)) => {
                                let room = (end - pos) as usize;
                                let want = if grow { k.min(room) } else { k.min(room).min(((have - pos).max(0)) as usize) };
                                ensure!(g == want, "write", "step {}: write({}) with {} left returned {}", step, k, room, g);
                                if g > 0 {
                                    if data.len() < pos as usize { data.resize(pos as usize, 0); }
                                    for i in 0..g { let p = pos as usize + i; if p < data.len() { data[p] = d[i] } else { data.push(d[i]) } }
                                }
                                pos += g as i128;
                            },
                        }
                    },
                    Op::Slice => match R::b_slice(&bl) {
                        None => { st.out("unsupported"); st.trace(); return Ok(()); },
                        Some(Ok(v)) => ensure!(whole && v == here, "slice", "step {}: {} bytes", step, v.len()),
                        Some(Err(e)) => ensure!(!whole && trunc_err(&e), "slice", "step {}: {:?}", step, e),
                    },
                    Op::SliceMut => match R::b_flip(&mut bl) {
                        None => { st.out("unsupported"); st.trace(); return Ok(()); },
                        Some(Ok(n)) => {
                            ensure!(whole && n == here.len(), "slice_mut", "step {}: {} bytes", step, n);
                            for i in 0..n { data[pos as usize + i] ^= 0x55; }
                        },
                        Some(Err(e)) => ensure!(!whole && trunc_err(&e), "slice_mut", "step {}: {:?}", step, e),
                    },
                    Op::Ext => match R::b_ext(&mut bl) {
                        None => { st.out("unsupported"); st.trace(); return Ok(()); },
                        Some(Ok((v, a))) => {
                            ensure!(whole && v == here, "ext_slice", "step {}: {} bytes", step, v.len());
                            ensure!(v.is_empty() || a == addr + pos as usize, "ext_slice-place", "step {}", step);
                            pos = end;
                        },
                        Some(Err(e)) => ensure!(!whole && trunc_err(&e), "ext_slice", "step {}: {:?}", step, e),
                    },
                    Op::Fill(k) => match R::b_fill(&mut bl, k) {
                        None => { st.out("unsupported"); st.trace(); return Ok(()); },
                        Some(Err(e)) => return fail("fill_buf", format!("step {}: {:?}", step, e)),
                        Some(Ok(v)) => {
                            ensure!(v.len() <= avail && v[..] == here[..v.len()], "fill_buf", "step {}: {} of {} bytes", step, v.len(), avail);
                            ensure!((v.len() > 0) == (avail > 0), "fill_buf-empty", "step {}", step);
                            pos += v.len().min(k) as i128;
                        },
                    },
                }
                let at = |x: i128| (base as i128 + x) as u64;
                ensure!(bl.len() == len as u64 && bl.start_pos() == at(start) && bl.end_pos() == at(end), "extent", "step {} {:?}", step, op);
                ensure!(bl.stream_pos() == at(pos) && bl.inner_pos() == (pos - start) as u64 && bl.remaining() == (end - pos) as u64, "positions",
                        "step {} {:?}: inner position {} remaining {}, expected {} {}", step, op, bl.inner_pos(), bl.remaining(), pos - start, end - pos);
                ensure!(bl.stream_get_ref().content() == data, "content", "step {} {:?}: {} expected {}", step, op, hx(&bl.stream_get_ref().content()), hx(&data));
                st.state(hash(&(pos, end, data.len(), hash(&data[d.start..(d.end).min(data.len())]))));
            }
        }
        let have = data.len() as i128;
        if pos < end && have < end {
            let r = s.next_element();
            let e = r.as_ref().err().map(ec);
            ensure!(e == Some(EC::Trunc((end - have.max(pos)) as u64)), "truncated", "after the blob: {:?}, {} bytes missing", e, end - have.max(pos));
            st.out("truncated");
        } else if d.b.len() as i128 > end {
            match s.next_element() {
                Ok(Element::Field(f)) => match (f.tag, f.pos, &f.value) {
                    (3, p, &Value::Integer(99)) if p == base + d.end as u64 => (),
                    _ => return fail("next-element", "wrong field after the blob"),
                },
                r => return fail("next-element", format!("{:?} after the blob", r.is_ok())),
            }
            ensure!(matches!(s.next_element(), Ok(Element::EndOfStruct)), "next-element", "end of struct");
            ensure!(s.get_ref().content() == data, "content", "at the end");
            st.out("complete");
        } else {
            let r = s.next_element();
            ensure!(r.is_err(), "next-element", "element out of nothing");
            st.out("no data left");
        }
        st.trace();
        Ok(())
    }
}
fn s_grows<R: Src>(_: &Blob<R>) -> bool { !std::any::type_name::<R>().contains("&") }

const SMALL: usize = 8;
const SRC: [&str; 8] = ["TransparentCursor<Vec>", "TransparentCursor<&[u8]>", "TransparentCursor<&mut [u8]>", "Cursor<Vec> (no seek)", "Cursor<&[u8]>",
    "one-byte reads with interruptions", "BufReader", "from_slice at position 500"];

impl Suite for Ops {
    fn name(&self) -> &'static str { "blob-operations" }
    fn bounds(&self, t: Tier) -> String {
        format!("all sequences of {} operations out of {} (reads, buffered reads, bounded reads, writes, seeks in and out of range, slices) on {} blobs (3 of them \
                 exceptions or cut short) in 8 kinds of source{}", 4, ops().len(), SMALL,
                t.q("", "; sequences of 5 for 3 blobs in 3 sources"))
    }
    fn units(&self, _: Tier) -> usize { SMALL * 8 * ops().len() }
    fn unit(&self, u: usize, t: Tier, cx: &mut Cx) {
        let nd = SMALL;
        let (d, src) = (u % nd, u / nd % 8);
        let deep = t.thorough() && [0, 3, 4].contains(&d) && [0, 1, 5].contains(&src);
        let mut c = Case::new(self.name(), &[d as u64, src as u64, if deep { 5 } else { 4 }]);
        c.ch = vec![(u / nd / 8) as u32];
        cx.explore(self, c, 0);
    }
    fn exec(&self, c: &Case, ch: &ChRef, st: &mut Stats) -> Res {
        thread_local! { static DOCS: Vec<Doc> = docs(); }
        DOCS.with(|docs| {
            let d = &docs[c.ints[0] as usize];
            let n = (c.ints[2] as usize, c.suite == "large-blobs");
            match c.ints[1] {
                0 => self.go(Stream::new_seek(TransparentCursor(Cursor::new(d.b.clone()))), d, 0, n, ch, st),
                1 => self.go::<TransparentCursor<&[u8]>>(Stream::from_slice(&d.b[..]), d, 0, n, ch, st),
                2 => { let mut v = d.b.clone(); self.go(Stream::from_slice(&mut v[..]), d, 0, n, ch, st) },
                3 => self.go(Stream::new(Cursor::new(d.b.clone())), d, 0, n, ch, st),
                4 => self.go(Stream::new_seek(Cursor::new(&d.b[..])), d, 7, n, ch, st),
                5 => self.go(Stream::new(EnvRd::new(&d.b, env::ALWAYS_SHORT | env::ALWAYS_INTR, None)), d, 0, n, ch, st),
                6 => self.go(Stream::new_seek(BufReader::with_capacity(2, EnvRd::plain(&d.b))), d, 0, n, ch, st),
                _ => self.go::<TransparentCursor<&[u8]>>(Stream::from_slice(&d.b[..]), d, 500, n, ch, st),
            }
        })
    }
    fn show(&self, c: &Case) -> String {
        let all = set(c.suite == "large-blobs");
        format!("{} in {}: {:?}", doc_name(c.ints[0] as usize), SRC[c.ints[1] as usize], c.ch.iter().map(|i| all[*i as usize % all.len()]).collect::<Vec<_>>())
    }
}

struct Large;
impl Suite for Large {
    fn name(&self) -> &'static str { "large-blobs" }
    fn bounds(&self, t: Tier) -> String {
        format!("all sequences of {} operations out of {} whose amounts and positions lie around 2^8, 2^12, 2^16, 2^20, 2^31, 2^32, 2^63 and 2^64-1, on {} blobs of 65536 to 2100000 bytes \
                 (2 cut short, 1 exception) in {} kinds of source", 2, large_ops().len(), docs().len() - SMALL, t.q(3, 6))
    }
    fn units(&self, t: Tier) -> usize { (docs().len() - SMALL) * t.q(3, 6) * large_ops().len() }
    fn unit(&self, u: usize, t: Tier, cx: &mut Cx) {
        let nd = docs().len() - SMALL;
        let srcs = t.q(3, 6);
        let (d, src) = (u % nd, u / nd % srcs);
        let mut c = Case::new(self.name(), &[(SMALL + d) as u64, [0u64, 2, 4, 1, 3, 6][src], 2]);
        c.ch = vec![(u / nd / srcs) as u32];
        cx.explore(self, c, 0);
    }
    fn exec(&self, c: &Case, ch: &ChRef, st: &mut Stats) -> Res { Ops.exec(c, ch, st) }
    fn show(&self, c: &Case) -> String { Ops.show(c) }
}

pub fn check() -> Check {
    Check { id: "C16", level: "model_checking",
        rule: "Every operation sequence on a real Blob runs in lockstep with a model of a bounded file; results, positions, the whole content of the source \
               (so that bytes outside the blob are seen) and the element after the blob are compared.",
        suites: vec![Box::new(Ops), Box::new(Large)] }
}
