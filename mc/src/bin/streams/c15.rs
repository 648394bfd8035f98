//! C15: sequences of writer calls.

use fourleaf::io::TransparentCursor;
use fourleaf::stream::{self, Blob, Element, Stream, Value};
use mc::ensure;
use mc::env::{self, EnvWr};
use mc::eng::*;
use mc::sut::*;
use mc::wire::*;
use std::io::{Cursor, Read, Seek, SeekFrom, Write};

/// A sink whose content can be looked at.
pub trait Sink: Write + Seek { fn content(&self) -> Vec<u8>; }
impl Sink for EnvWr { fn content(&self) -> Vec<u8> { self.data() } }
impl Sink for Cursor<Vec<u8>> { fn content(&self) -> Vec<u8> { self.get_ref().clone() } }
impl Sink for TransparentCursor<Vec<u8>> { fn content(&self) -> Vec<u8> { self.0.get_ref().clone() } }

#[derive(Clone, Copy, Debug, PartialEq)]
enum Pend { None, Alloc { start: usize, end: usize }, Dyn { start: usize } }

/// What the sink should hold.
struct M { out: Vec<u8>, pos: usize, base: u64, pend: Pend, evs: usize, origin: usize, moved: bool }

impl M {
    fn put(&mut self, b: &[u8]) {
        for &x in b {
            if self.pos < self.out.len() { self.out[self.pos] = x } else { self.out.push(x) }
            self.pos += 1;
        }
    }
    fn commit(&mut self) -> Result<(), u64> {
        match self.pend {
            Pend::None => (),
            Pend::Alloc { end, .. } => if self.pos != end { return Err((end - self.pos) as u64) },
            Pend::Dyn { start } => {
                let mut h = vec![];
                put_fixed(&mut h, (self.pos - start) as u64);
                self.out[start - 10..start].copy_from_slice(&h);
            },
        }
        self.pend = Pend::None;
        Ok(())
    }
}

/// Parse `b` with the real reader into reference events.
pub fn real_events(b: &[u8]) -> Result<Vec<(Ev, u64)>, String> {
    let mut s = Stream::new(Cursor::new(b));
    let mut v = vec![];
    while s.pos() < b.len() as u64 {
        let at = s.pos();
        let e = match s.next_element() {
            Err(e) => return Err(format!("{:?} at {}", e, at)),
            Ok(Element::Padding) => Ev::Pad,
            Ok(Element::EndOfStruct) => Ev::EndS,
            Ok(Element::EndOfDoc) => Ev::EndD,
            Ok(Element::Exception(mut bl)) => { let r = Ev::Exc(bl.start_pos(), bl.len()); drain(&mut bl)?; r },
            Ok(Element::Field(f)) => match f.value {
                Value::Integer(n) => Ev::Int(f.tag, n),
                Value::Struct(_) => Ev::Struct(f.tag),
                Value::Enum(d, _) => Ev::Enum(f.tag, d),
                Value::Blob(mut bl) => { let r = Ev::Blob(f.tag, bl.start_pos(), bl.len()); drain(&mut bl)?; r },
            },
        };
        s.clear_eof();
        v.push((e, at));
    }
    Ok(v)
}
fn drain<R: Read>(b: &mut Blob<R>) -> Result<(), String> {
    let n = b.len();
    let mut v = vec![];
    b.read_to_end(&mut v).map_err(|e| e.to_string())?;
    if v.len() as u64 != n { return Err("short blob".into()); }
    Ok(())
}
pub fn ref_events(b: &[u8]) -> Result<Vec<(Ev, u64)>, String> {
    let mut lp = Lp::new(b, false);
    let mut v = vec![];
    loop {
        if lp.commit().is_err() { return Err("cut".into()); }
        if lp.pos >= b.len() as u64 { break; }
        match lp.next() { Err(e) => return Err(format!("{:?}", e)), Ok((e, at, _)) => v.push((e, at)) }
        lp.eof = false;
    }
    Ok(v)
}

fn blob_kind(k: usize) -> (bool, usize, Option<usize>) {
    // (exception?, mode 0 data 1 alloc 2 dynamic, ...)
    (k >= 3, k % 3, None)
}

const DATA: &[u8] = b"\x00\x41abcdefghijklmnopqrstuvwxyz";

/// Perform blob operations until "done"; `auto` writes everything at once.
fn blob_ops<R: Sink>(bl: &mut Blob<R>, m: &mut M, auto: Option<usize>, max_inner: usize, ch: &ChRef, st: &mut Stats) -> Res {
    let (start, end, dynamic) = match m.pend {
        Pend::Alloc { start, end } => (start, end, false),
        Pend::Dyn { start } => (start, usize::MAX / 2, true),
        Pend::None => panic!("HARNESS"),
    };
    let mut high = m.pos;
    let mut check = |bl: &Blob<R>, m: &M, what: &str| -> Res {
        ensure!(bl.stream_pos() == m.base.wrapping_add(m.pos as u64), "blob-pos", "{}: blob stream_pos {} expected {}", what, bl.stream_pos(), m.base.wrapping_add(m.pos as u64));
        ensure!(bl.start_pos() == m.base.wrapping_add(start as u64), "blob-start", "{}: {}", what, bl.start_pos());
        ensure!(bl.inner_pos() == (m.pos - start) as u64, "blob-inner", "{}: {}", what, bl.inner_pos());
        if !dynamic {
            ensure!(bl.len() == (end - start) as u64 && bl.end_pos() == m.base.wrapping_add(end as u64) && bl.remaining() == (end - m.pos) as u64,
                    "blob-extent", "{}", what);
        }
        Ok(())
    };
    check(bl, m, "fresh")?;
    if let Some(n) = auto {
        let d = &DATA[..n];
        for c in d.chunks(2) {
            let r = bl.write_all(c);
            ensure!(r.is_ok(), "blob-write", "write_all within the blob: {:?}", r);
            m.put(c);
            check(bl, m, "written")?;
        }
        return Ok(());
    }
    for _ in 0..max_inner {
        let op = ch.borrow_mut().pick(9);
        st.step(1);
        match op {
            0 => break,
            1 | 2 | 3 => {
                let d = &DATA[5..5 + [0, 1, 2, 5][op]];
                let want = d.len().min(end - m.pos);
                // One write call may be short or interrupted, but not beyond
                // what the blob has left.
                let r = loop { match bl.write(d) { Err(ref e) if e.kind() == std::io::ErrorKind::Interrupted => (), r => break r } };
                match r {
                    Ok(k) => {
                        ensure!(k <= want && (k > 0 || want == 0), "blob-write", "write of {} returned {} with {} left", d.len(), k, end - m.pos);
                        m.put(&d[..k]);
                        let mut k = k;
                        while k < want {
                            match bl.write(&d[k..want]) {
                                Err(ref e) if e.kind() == std::io::ErrorKind::Interrupted => (),
                                Ok(0) | Err(_) => return fail("blob-write", "stuck"),
                                Ok(n) => { m.put(&d[k..k + n]); k += n; },
                            }
                        }
                    },
                    Err(e) => return fail("blob-write", format!("{:?}", e)),
                }
            },
            4 => {
                // Overrun must be refused after filling the blob.
                if dynamic { continue; }
                let left = end - m.pos;
                let d = &DATA[..(left + 1).min(DATA.len())];
                let r = bl.write_all(d);
                ensure!(r.is_err() == (d.len() > left), "overrun", "write_all of {} with {} left: {:?}", d.len(), left, r);
                m.put(&d[..left.min(d.len())]);
            },
            5 | 6 | 7 => {
                let to: i64 = match op { 5 => 0, 6 => (m.pos - start) as i64 - 1, _ => (m.pos - start) as i64 + 1 };
                let limit = if dynamic { (high.max(m.pos) - start) as i64 } else { (end - start) as i64 };
                if dynamic && to > limit { continue; }
                // Only positions that were already written are sought to, so
                // that no sink-specific filling happens.
                if to > (high.max(m.pos) - start) as i64 && to <= limit { continue; }
                let r = match op {
                    5 => bl.seek(SeekFrom::Start(0)),
                    6 => bl.seek(SeekFrom::Current(-1)),
                    _ => bl.seek(SeekFrom::Current(1)),
                };
                if to < 0 || to > limit {
                    ensure!(r.is_err(), "seek-out", "seek to {} of {} succeeded", to, limit);
                } else {
                    ensure!(r.as_ref().ok() == Some(&(to as u64)), "seek", "seek to {}: {:?}", to, r);
                    high = high.max(m.pos);
                    m.pos = start + to as usize;
                }
            },
            _ => { let r = bl.flush(); ensure!(r.is_ok(), "flush", "{:?}", r); },
        }
        high = high.max(m.pos);
        check(bl, m, "op")?;
        st.state(hash(&(dynamic, m.pos - start, high - start, if dynamic { 99 } else { end - start })));
    }
    if dynamic && m.pos < high {
        // Leaving a dynamic blob elsewhere than at its end is unspecified.
        let r = bl.seek(SeekFrom::Start((high - start) as u64));
        ensure!(r.is_ok(), "seek", "back to the end: {:?}", r);
        m.pos = high;
    }
    Ok(())
}

#[derive(Clone, Copy, PartialEq)]
enum Op {
    U64(u8, u64), I64(u8, i64), I8(u8, i8), Bool(u8, bool), Null(u8),
    Struct(u8), Enum(u8, u64), EndS, EndD, Pad, Align(u64), Commit,
    /// tag, kind (0 data 1 alloc 2 dyn; +3 exception), length, explicit inner ops
    Blob(u8, usize, usize, bool),
    Bad(u8, usize),
    /// reposition the stream: to the start, to the end, or only its numbering
    Seek0, SeekEnd, Reset(u64),
}

fn ops() -> Vec<Op> {
    use self::Op::*;
    vec![U64(1, 0), U64(63, u64::MAX), I64(5, i64::MIN), I8(2, -1), Bool(3, true), Null(4),
         Struct(1), Enum(2, 0), Enum(63, 300), EndS, EndD, Pad, Align(1), Align(4), Align(64), Commit,
         Blob(7, 0, 0, false), Blob(7, 0, 3, false), Blob(8, 1, 0, false), Blob(63, 1, 5, false), Blob(9, 2, 0, false), Blob(1, 2, 7, false),
         Blob(0, 3, 2, false), Blob(0, 4, 1, false), Blob(0, 5, 4, false), Blob(2, 1, 2, true), Bad(0, 0), Bad(64, 4), Seek0, SeekEnd, Reset(1000)]
}
fn blob_lens() -> Vec<Op> {
    let mut v = vec![];
    for k in 0..6 { for l in [0, 1, 2, 4] { if k % 3 != 2 || l == 0 { v.push(Op::Blob(if k < 3 { 6 } else { 0 }, k, l, true)); } } }
    v
}

fn bad_call<R: Sink>(s: &mut Stream<R>, tag: u8, k: usize) -> Result<(), stream::Error> {
    match k % N_BAD {
        0 => s.write_u64(tag, 5), 1 => s.write_null(tag), 2 => s.write_bool(tag, true), 3 => s.write_i64(tag, -5),
        4 => s.write_struct(tag), 5 => s.write_enum(tag, 3), 6 => s.write_blob_data(tag, b"xy").map(|_| ()),
        7 => s.write_blob_alloc(tag, 0).map(|_| ()), 8 => s.write_blob_dynamic(tag).map(|_| ()),
        9 => s.write_u8(tag, 5), 10 => s.write_i8(tag, 5), 11 => s.write_u16(tag, 5), 12 => s.write_i16(tag, 5),
        13 => s.write_u32(tag, 5), 14 => s.write_i32(tag, 5), 15 => s.write_usize(tag, 5), _ => s.write_isize(tag, 5),
    }
}
const N_BAD: usize = 17;

/// Run `op` on the real stream and the model. `Ok(true)`: stop here.
fn step<R: Sink>(s: &mut Stream<R>, m: &mut M, op: Op, inner: usize, ch: &ChRef, st: &mut Stats) -> Result<bool, Fail> {
    let before = s.get_ref().content();
    st.step(1);
    if let Op::Bad(tag, k) = op {
        let r = guard(|| bad_call(s, tag, k));
        let now = s.get_ref().content();
        let c = m.commit();
        ensure!(now == before || c.is_ok() && now == m.out, "bad-tag-wrote", "tag {}: {} bytes written", tag, now.len() - before.len());
        match (c, r) {
            (_, Err(_)) => st.out("bad tag refused"),
            (Err(n), Ok(Err(e))) => ensure!(ec(&e) == EC::Incomplete(n), "bad-tag", "{:?}", e),
            (_, Ok(r)) => return fail("bad-tag", format!("tag {} was not refused: {:?}", tag, r)),
        }
        return Ok(true);
    }
    let c = m.commit();
    macro_rules! plain { ($call:expr, |$o:ident| $put:expr) => {{
        let r = $call;
        match (c, r) {
            (Ok(()), Ok(())) => { let mut $o: Vec<u8> = vec![]; $put; m.put(&$o); m.evs += 1; },
            (c, r) => return incomplete(s, c, r, &before),
        }
    }} }
    match op {
        Op::U64(t, v) => plain!(s.write_u64(t, v), |o| t_int(&mut o, t, v)),
        Op::I64(t, v) => plain!(s.write_i64(t, v), |o| t_int(&mut o, t, zig(v))),
        Op::I8(t, v) => plain!(s.write_i8(t, v), |o| t_int(&mut o, t, zig(v as i64))),
        Op::Bool(t, v) => plain!(s.write_bool(t, v), |o| t_int(&mut o, t, v as u64)),
        Op::Null(t) => plain!(s.write_null(t), |o| t_int(&mut o, t, 0)),
        Op::Struct(t) => plain!(s.write_struct(t), |o| t_struct(&mut o, t)),
        Op::Enum(t, d) => plain!(s.write_enum(t, d), |o| t_enum(&mut o, t, d)),
        Op::EndS => plain!(s.write_end_struct(), |o| o.push(0)),
        Op::EndD => plain!(s.write_end_doc(), |o| o.push(0x40)),
        Op::Pad => plain!(s.write_padding(), |o| o.push(0xC0)),
        Op::Commit => match (c, s.commit()) { (Ok(()), Ok(())) => (), (c, r) => return incomplete(s, c, r, &before) },
        Op::Align(a) => match (c, s.pad_to_align(a)) {
            (Ok(()), Ok(())) => {
                let p = m.base.wrapping_add(m.pos as u64);
                let n = (a - p % a) % a;
                for _ in 0..n { m.put(&[0xC0]); }
                m.evs += n as usize;
                ensure!(s.pos() % a == 0, "align", "position {} after aligning to {}", s.pos(), a);
            },
            (c, r) => return incomplete(s, c, r, &before),
        },
        Op::Blob(t, k, len, explicit) => {
            let (exc, mode, _) = blob_kind(k);
            let r = match (exc, mode) {
                (false, 0) => s.write_blob_data(t, &DATA[..len]),
                (false, 1) => s.write_blob_alloc(t, len as u64),
                (false, _) => s.write_blob_dynamic(t),
                (true, 0) => s.write_exception_data(&DATA[..len]),
                (true, 1) => s.write_exception_alloc(len as u64),
                (true, _) => s.write_exception_dynamic(),
            };
            match (c, r) {
                (Ok(()), Ok(mut bl)) => {
                    let mut o = vec![if exc { 0x80 } else { desc(2, t) }];
                    if mode == 2 { put_fixed(&mut o, u64::MAX - (m.base.wrapping_add(m.pos as u64) + 1) - 10); } else { put_int(&mut o, len as u64); }
                    m.put(&o);
                    let start = m.pos;
                    m.pend = if mode == 2 { Pend::Dyn { start } } else { Pend::Alloc { start, end: start + len } };
                    m.evs += 1;
                    if mode == 0 { m.put(&DATA[..len]); }
                    let auto = if explicit { None } else if mode == 0 { Some(0) } else { Some(len) };
                    blob_ops(&mut bl, m, auto, inner, ch, st)?;
                },
                (c, r) => { let r = r.map(|_| ()); return incomplete(s, c, r, &before) },
            }
        },
        Op::Seek0 | Op::SeekEnd => {
            let (w, to) = if op == Op::Seek0 { (SeekFrom::Start(0), 0) } else { (SeekFrom::End(0), m.out.len()) };
            match (c, s.seek(w)) {
                (Ok(()), Ok(n)) => {
                    ensure!(n == to as u64, "stream-seek", "seek returned {} expected {}", n, to);
                    m.pos = to; m.base = 0; m.moved = true;
                },
                (c, r) => return incomplete(s, c, r.map(|_| ()), &before),
            }
        },
        Op::Reset(n) => match (c, s.reset_pos(n)) {
            (Ok(()), Ok(())) => m.base = n.wrapping_sub(m.pos as u64),
            (c, r) => return incomplete(s, c, r, &before),
        },
        Op::Bad(..) => unreachable!(),
    }
    ensure!(s.pos() == m.base.wrapping_add(m.pos as u64), "pos", "stream position {} expected {}", s.pos(), m.base.wrapping_add(m.pos as u64));
    let now = s.get_ref().content();
    // The length of an uncommitted dynamic blob is a placeholder.
    if let Pend::Dyn { start } = m.pend {
        ensure!(now.len() == m.out.len() && now[..start - 10] == m.out[..start - 10] && now[start..] == m.out[start..],
                "bytes", "sink {} expected {}", hx(&now), hx(&m.out));
    } else {
        ensure!(now == m.out, "bytes", "sink {} expected {}", hx(&now), hx(&m.out));
    }
    Ok(false)
}

fn incomplete<R: Sink>(s: &mut Stream<R>, c: Result<(), u64>, r: Result<(), stream::Error>, before: &[u8]) -> Result<bool, Fail> {
    match (c, r) {
        (Err(n), Err(e)) => {
            ensure!(ec(&e) == EC::Incomplete(n), "incomplete-kind", "expected IncompleteBlob({}), got {:?}", n, e);
            ensure!(s.get_ref().content() == before, "incomplete-wrote", "something was written behind an incomplete blob");
            let again = s.commit();
            ensure!(again.as_ref().err().map(ec) == Some(EC::Incomplete(n)), "incomplete-forgotten", "second attempt: {:?}", again);
            Ok(true)
        },
        (Err(n), Ok(())) => fail("incomplete-accepted", format!("continued with {} bytes of the blob missing", n)),
        (Ok(()), Err(e)) => fail("write-failed", format!("{:?}", e)),
        (Ok(()), Ok(())) => unreachable!(),
    }
}

fn finish<R: Sink>(s: &mut Stream<R>, m: &mut M, st: &mut Stats) -> Res {
    let before = s.get_ref().content();
    match (m.commit(), s.commit()) {
        (Ok(()), Ok(())) => (),
        (c, r) => { incomplete(s, c, r, &before)?; st.out("incomplete"); return Ok(()); },
    }
    let now = s.get_ref().content();
    ensure!(now == m.out, "bytes", "final content {} expected {}", hx(&now), hx(&m.out));
    ensure!(s.pos() == m.base.wrapping_add(m.pos as u64), "pos", "final position");
    if m.moved { st.out("rewritten"); st.trace(); return Ok(()); }
    let r = real_events(&now[m.origin..m.pos]);
    let w = ref_events(&m.out[m.origin..m.pos]);
    ensure!(r.is_ok() && r == w, "parse-back", "parses as {:?}, written was {:?}", r, w);
    ensure!(r.map(|x| x.len()).unwrap_or(0) == m.evs, "parse-back", "wrong number of elements");
    st.state(hash(&now));
    st.out("complete");
    st.trace();
    Ok(())
}

const OLD: usize = 60;
const AT: usize = 7;
const SINKS: usize = 6;
/// Start position of the stream on each sink.
const STARTS: [u64; SINKS] = [0, 61, 0, 61, 61, 0];

fn with_sink(k: u64, f: &mut dyn FnMut(Sk) -> Res) -> Res {
    match k {
        0 => f(Sk::A(Stream::new(Cursor::new(vec![])))),
        1 => f(Sk::B(Stream::new(TransparentCursor(Cursor::new(vec![]))))),
        2 => f(Sk::C(Stream::new_seek(EnvWr::new(env::ALWAYS_SHORT | env::ALWAYS_INTR, None)))),
        3 => f(Sk::C(Stream::new(EnvWr::plain()))),
        // An existing file which is overwritten in the middle.
        4 => { let mut c = Cursor::new(vec![0xEE; OLD]); c.set_position(AT as u64); f(Sk::A(Stream::new_seek(c))) },
        _ => {
            let e = EnvWr::new(env::ALWAYS_SHORT, None);
            { let mut x = e.0.borrow_mut(); x.data = vec![0xEE; OLD]; x.pos = AT; }
            f(Sk::C(Stream::new(e)))
        },
    }
}
enum Sk { A(Stream<Cursor<Vec<u8>>>), B(Stream<TransparentCursor<Vec<u8>>>), C(Stream<EnvWr>) }

fn run_ops<R: Sink>(mut s: Stream<R>, base: u64, list: &[Op], inner: usize, ch: &ChRef, st: &mut Stats) -> Res {
    if base > 0 { s.set_pos(base); }
    let out = s.get_ref().content();
    let at = if out.is_empty() { 0 } else { AT };
    let mut m = M { out, pos: at, base: base.wrapping_sub(at as u64), pend: Pend::None, evs: 0, origin: at, moved: false };
    for (i, &op) in list.iter().enumerate() {
        if step(&mut s, &mut m, op, if i == 1 { inner } else { 1 }, ch, st)? { st.trace(); return Ok(()); }
    }
    finish(&mut s, &mut m, st)
}

fn name_op(o: &Op) -> String {
    match *o {
        Op::U64(t, v) => format!("u64({},{})", t, v), Op::I64(t, v) => format!("i64({},{})", t, v), Op::I8(t, v) => format!("i8({},{})", t, v),
        Op::Bool(t, v) => format!("bool({},{})", t, v), Op::Null(t) => format!("null({})", t), Op::Struct(t) => format!("struct({})", t),
        Op::Enum(t, d) => format!("enum({},{})", t, d), Op::EndS => "end_struct".into(), Op::EndD => "end_doc".into(), Op::Pad => "padding".into(),
        Op::Seek0 => "seek(start)".into(), Op::SeekEnd => "seek(end)".into(), Op::Reset(n) => format!("reset_pos({})", n),
        Op::Align(a) => format!("align({})", a), Op::Commit => "commit".into(),
        Op::Blob(t, k, l, e) => format!("{}_{}({},{}{})", ["blob", "exception"][k / 3], ["data", "alloc", "dynamic"][k % 3], t, l, if e { ",ops" } else { "" }),
        Op::Bad(t, k) => format!("invalid-tag-call {} with {}", k, t),
    }
}

/// Sequences of top-level calls.
struct Calls;
impl Suite for Calls {
    fn name(&self) -> &'static str { "call-sequences" }
    fn bounds(&self, t: Tier) -> String {
        format!("all sequences of {} calls out of {}, on 6 sinks (two accepting one byte at a time, two of them overwriting the middle of an existing file), start positions 0 and 61", t.q(4, 5), ops().len())
    }
    fn units(&self, _: Tier) -> usize { ops().len() * ops().len() * SINKS }
    fn unit(&self, u: usize, t: Tier, cx: &mut Cx) {
        let n = ops().len() as u64;
        let (a, b, k) = (u as u64 % n, u as u64 / n % n, u as u64 / n / n);
        let rest = t.q(2, 3);
        for i in 0..n.pow(rest) {
            if cx.past_deadline() { return; }
            {
                let mut ints = vec![k, STARTS[k as usize], a, b];
                let mut x = i;
                for _ in 0..rest { ints.push(x % n); x /= n; }
                cx.explore(self, Case::new(self.name(), &ints), 0);
            }
        }
    }
    fn exec(&self, c: &Case, ch: &ChRef, st: &mut Stats) -> Res {
        let all = ops();
        let list: Vec<Op> = c.ints[2..].iter().map(|i| all[*i as usize]).collect();
        with_sink(c.ints[0], &mut |s| match s {
            Sk::A(s) => run_ops(s, c.ints[1], &list, 1, ch, st),
            Sk::B(s) => run_ops(s, c.ints[1], &list, 1, ch, st),
            Sk::C(s) => run_ops(s, c.ints[1], &list, 1, ch, st),
        })
    }
    fn show(&self, c: &Case) -> String {
        let all = ops();
        format!("sink={} start={} calls={:?} choices={:?}", c.ints[0], c.ints[1],
                c.ints[2..].iter().map(|i| name_op(&all[*i as usize])).collect::<Vec<_>>(), c.ch)
    }
}

/// Everything done inside one blob, then continuing.
struct Inside;
impl Inside {
    fn tails() -> Vec<Op> { vec![Op::Commit, Op::U64(3, 9), Op::Struct(1), Op::Pad, Op::Align(8), Op::EndD, Op::Blob(4, 0, 2, false), Op::Blob(4, 2, 2, false), Op::Blob(0, 4, 1, true)] }
}
impl Suite for Inside {
    fn name(&self) -> &'static str { "inside-blobs" }
    fn bounds(&self, t: Tier) -> String {
        format!("each kind and length of blob x all sequences of <= {} of 9 operations on it (writes, overruns, seeks, flush) x {} following calls x 6 sinks", t.q(5, 6), Self::tails().len())
    }
    fn units(&self, _: Tier) -> usize { blob_lens().len() * Self::tails().len() * SINKS }
    fn unit(&self, u: usize, t: Tier, cx: &mut Cx) {
        let (n, m) = (blob_lens().len(), Self::tails().len());
        cx.explore(self, Case::new(self.name(), &[(u / n / m) as u64, (u % n) as u64, (u / n % m) as u64, t.q(5, 6)]), 0);
    }
    fn exec(&self, c: &Case, ch: &ChRef, st: &mut Stats) -> Res {
        let list = [Op::U64(2, 1), blob_lens()[c.ints[1] as usize], Self::tails()[c.ints[2] as usize]];
        let inner = c.ints[3] as usize;
        with_sink(c.ints[0], &mut |s| match s {
            Sk::A(s) => run_ops(s, 0, &list, inner, ch, st),
            Sk::B(s) => run_ops(s, 0, &list, inner, ch, st),
            Sk::C(s) => run_ops(s, 0, &list, inner, ch, st),
        })
    }
    fn show(&self, c: &Case) -> String {
        format!("sink={} blob={} then={} inner ops={:?}", c.ints[0], name_op(&blob_lens()[c.ints[1] as usize]), name_op(&Self::tails()[c.ints[2] as usize]), c.ch)
    }
}

/// Every writer with every tag, and every integer writer at its boundaries.
struct Tags;
impl Suite for Tags {
    fn name(&self) -> &'static str { "tags-and-integers" }
    fn bounds(&self, _: Tier) -> String {
        "all 256 tags x all 17 tagged writers (panic iff the tag is not 1..=63, nothing written); every integer writer x 20 boundary values x 3 tags; \
         blob writers x lengths 0,1,127,128,255,256,16383,16384,70000, 2^20+1; blobs allocated for 7 to 2^63+1 bytes with at most 5 written x 5 ways to go on; alignments 2^0..=2^63 x start positions 0..=520 (up to 4096), up to 300 before the first three multiples, and 0, 1 and half (up to 2^18)".into()
    }
    fn units(&self, _: Tier) -> usize { 256 + 1 + 64 }
    fn unit(&self, u: usize, _: Tier, cx: &mut Cx) {
        if u < 256 {
            for k in 0..N_BAD as u64 { for pre in 0..2 { cx.run(self, Case::new(self.name(), &[0, u as u64, k, pre])); } }
        } else if u == 256 {
            for w in 0..10 { for v in 0..20 { for t in [1, 31, 63] { cx.run(self, Case::new(self.name(), &[1, w, v, t])); } } }
            for k in 0..6 { for l in [0, 1, 127, 128, 255, 256, 16383, 16384, 70000, (1 << 20) + 1] { cx.run(self, Case::new(self.name(), &[2, k, l])); } }
            for exc in 0..2 { for put in [0, 1, 5] { for b in [3, 8, 16, 31, 32, 33, 48, 62, 63] { for d in 0..3u64 {
                let l = (1u64 << b) + d - 1;
                if l > put { for how in 0..5 { cx.run(self, Case::new(self.name(), &[4, exc, put, l, how])); } }
            } } } }
        } else {
            let al = 1u64 << (u - 257);
            let mut ps = vec![];
            if al <= 4096 { ps.extend(0..=520); }
            if al <= 1 << 18 { ps.extend([0, 1, al / 2, al / 2 + 1]); }
            for k in 1..=3u64 { for j in [0, 1, 2, 5, 300] { if let Some(m) = al.checked_mul(k) { if m >= j { ps.push(m - j); } } } }
            ps.sort(); ps.dedup();
            for p in ps { cx.run(self, Case::new(self.name(), &[3, al, p])); }
        }
    }
    fn exec(&self, c: &Case, _: &ChRef, st: &mut Stats) -> Res {
        let a = &c.ints;
        let mut s = Stream::new(Cursor::new(vec![]));
        match a[0] {
            0 => {
                let tag = a[1] as u8;
                if a[3] == 1 { s.write_u64(1, 1).unwrap(); }
                let before = s.get_ref().get_ref().clone();
                let r = guard(|| bad_call(&mut s, tag, a[2] as usize));
                let valid = (1..=63).contains(&tag);
                ensure!(r.is_ok() == valid, "tag-check", "tag {} writer {}: panicked={}", tag, a[2], r.is_err());
                if valid {
                    ensure!(s.commit().is_ok(), "tag-commit", "");
                    let now = s.get_ref().get_ref().clone();
                    let e = real_events(&now[before.len()..]);
                    let got = match e.as_ref().ok().and_then(|v| v.first()) {
                        Some(&(Ev::Int(t, _), _)) | Some(&(Ev::Blob(t, ..), _)) | Some(&(Ev::Struct(t), _)) | Some(&(Ev::Enum(t, _), _)) => t, _ => 0 };
                    ensure!(got == tag, "tag-written", "tag {} came out as {}", tag, got);
                } else {
                    ensure!(s.get_ref().get_ref() == &before && s.pos() == before.len() as u64, "bad-tag-wrote", "tag {}", tag);
                }
            },
            1 => {
                let t = a[3] as u8;
                const V: [i128; 20] = [0, 1, -1, 2, 63, -64, 64, 127, 128, -128, 255, 256, 32767, -32768, 65535, 2147483647, -2147483648, 4294967295,
                    9223372036854775807, 18446744073709551615];
                let v = V[a[2] as usize];
                macro_rules! w { ($m:ident, $t:ty, $z:expr) => {{
                    if v < <$t>::MIN as i128 || v > <$t>::MAX as i128 { return Ok(()); }
                    s.$m(t, v as $t).map_err(|e| Fail { key: "int-writer".into(), msg: format!("{:?}", e) })?;
                    if $z { zig(v as i64) } else { v as u64 }
                }} }
                let n = match a[1] {
                    0 => w!(write_u8, u8, false), 1 => w!(write_i8, i8, true), 2 => w!(write_u16, u16, false), 3 => w!(write_i16, i16, true),
                    4 => w!(write_u32, u32, false), 5 => w!(write_i32, i32, true), 6 => w!(write_u64, u64, false), 7 => w!(write_i64, i64, true),
                    8 => w!(write_usize, usize, false), _ => w!(write_isize, isize, true),
                };
                let mut o = vec![];
                t_int(&mut o, t, n);
                ensure!(s.get_ref().get_ref() == &o, "int-writer", "{} gave {}", v, hx(s.get_ref().get_ref()));
            },
            2 => {
                let d: Vec<u8> = (0..a[2]).map(|x| x as u8).collect();
                let (exc, mode, _) = blob_kind(a[1] as usize);
                {
                    let r = match (exc, mode) {
                        (false, 0) => s.write_blob_data(5, &d), (false, 1) => s.write_blob_alloc(5, a[2]), (false, _) => s.write_blob_dynamic(5),
                        (true, 0) => s.write_exception_data(&d), (true, 1) => s.write_exception_alloc(a[2]), (true, _) => s.write_exception_dynamic(),
                    };
                    let mut b = match r { Ok(b) => b, Err(e) => return fail("blob-writer", format!("{:?}", e)) };
                    if mode != 0 { ensure!(b.write_all(&d).is_ok(), "blob-writer", "write_all"); }
                }
                ensure!(s.commit().is_ok(), "blob-writer", "commit");
                let mut o = vec![if exc { 0x80 } else { desc(2, 5) }];
                if mode == 2 { put_fixed(&mut o, a[2]) } else { put_int(&mut o, a[2]) }
                o.extend_from_slice(&d);
                ensure!(s.get_ref().get_ref() == &o && s.pos() == o.len() as u64, "blob-writer", "length {}", a[2]);
            },
            4 => {
                {
                    let r = if a[1] == 0 { s.write_blob_alloc(5, a[3]) } else { s.write_exception_alloc(a[3]) };
                    let mut b = match r { Ok(b) => b, Err(e) => return fail("large-alloc", format!("{:?}", e)) };
                    ensure!(b.write_all(&DATA[..a[2] as usize]).is_ok(), "large-alloc", "write_all");
                }
                let left = a[3] - a[2];
                let r = match a[4] { 0 => s.commit(), 1 => s.write_u64(1, 1), 2 => s.write_end_struct(), 3 => s.write_blob_data(1, b"x").map(|_| ()), _ => s.pad_to_align(4) };
                let e = r.as_ref().err().map(ec);
                ensure!(e == Some(EC::Incomplete(left)), "large-alloc-incomplete", "{} of {} bytes are missing, but going on gives {:?}", left, a[3], r);
            },
            _ => {
                let (al, p) = (a[1], a[2]);
                s.set_pos(p);
                ensure!(s.pad_to_align(al).is_ok(), "align", "");
                let n = s.get_ref().get_ref().len() as u64;
                ensure!(n < al && (p + n) % al == 0 && s.pos() == p + n && s.get_ref().get_ref().iter().all(|x| *x == 0xC0), "align",
                        "{} padding bytes from {} to align to {}", n, p, al);
            },
        }
        st.step(1);
        st.out("ok");
        st.state(hash(&a[..]));
        st.trace();
        Ok(())
    }
}

/// A user's own `Serialize`, which leaves a blob as its last action.
struct Own { len: u64, put: usize, body: bool }
impl fourleaf::ser::Serialize for Own {
    fn serialize_body<R: Write>(&self, dst: &mut Stream<R>) -> stream::Result<()> {
        dst.write_u64(2, 9)?;
        self.serialize_field(dst, 1)?;
        if self.body { Ok(()) } else { dst.write_end_struct() }
    }
    fn serialize_element<R: Write>(&self, dst: &mut Stream<R>, tag: u8) -> stream::Result<()> {
        let mut b = dst.write_blob_alloc(tag, self.len)?;
        b.write_all(&DATA[..self.put])?;
        Ok(())
    }
}

struct Custom;
impl Suite for Custom {
    fn name(&self) -> &'static str { "own-serialize" }
    fn bounds(&self, _: Tier) -> String {
        "a user-defined Serialize writing a pre-sized blob of 0..=8 bytes incompletely or completely, followed by the end marker or by nothing, alone or in a Vec or behind a reference, \
         through to_vec, to_writer and to_stream, on plain and one-byte-at-a-time sinks".into()
    }
    fn units(&self, _: Tier) -> usize { 9 }
    fn unit(&self, u: usize, _: Tier, cx: &mut Cx) {
        for put in 0..=u as u64 { for body in 0..2 { for how in 0..3 { for wrap in 0..3 {
            cx.run(self, Case::new(self.name(), &[u as u64, put, body, how, wrap]));
        } } } }
    }
    fn exec(&self, c: &Case, _: &ChRef, st: &mut Stats) -> Res {
        use fourleaf::ser;
        let (len, put, body) = (c.ints[0], c.ints[1], c.ints[2] == 1);
        let mk = || Own { len, put: put as usize, body };
        fn run<T: ser::Serialize>(how: u64, t: T) -> (Result<(), stream::Error>, Vec<u8>) {
            let sink = EnvWr::new(env::ALWAYS_SHORT | env::ALWAYS_INTR, None);
            match how {
                0 => match ser::to_vec(t) { Ok(v) => (Ok(()), v), Err(e) => (Err(e), vec![]) },
                1 => { let r = ser::to_writer(sink.clone(), t); (r, sink.data()) },
                _ => { let mut s = Stream::new(sink.clone()); let r = ser::to_stream(&mut s, t); (r, sink.data()) },
            }
        }
        let elem = |o: &mut Vec<u8>, t| t_blob(o, t, &DATA[..put as usize]);
        let mut want = vec![];
        let (r, out) = match c.ints[4] {
            0 | 1 => {
                t_int(&mut want, 2, 9);
                elem(&mut want, 1);
                if !body { want.push(0); }
                if c.ints[4] == 0 { run(c.ints[3], mk()) } else { run(c.ints[3], &mk()) }
            },
            _ => { elem(&mut want, 1); elem(&mut want, 1); want.push(0); run(c.ints[3], vec![mk(), mk()]) },
        };
        st.step(1);
        if put == len {
            ensure!(r.is_ok() && out == want, "own-bytes", "{:?}: {} must be {}", r, hx(&out), hx(&want));
            st.out("complete");
        } else {
            ensure!(r.as_ref().err().map(ec) == Some(EC::Incomplete(len - put)), "own-incomplete", "a blob with {} of {} bytes written: {:?}", put, len, r);
            st.out("incomplete reported");
        }
        st.state(hash(&c.ints));
        st.trace();
        Ok(())
    }
    fn show(&self, c: &Case) -> String { format!("length, written, ends with it, via, wrapped = {:?}", c.ints) }
}

pub fn check() -> Check {
    Check { id: "C15", level: "model_checking",
        rule: "Every call sequence is run on a real writing Stream in lockstep with a model of the bytes and of the pending blob; sink content and position \
               are compared after each call, and the result is parsed back by the real and by the reference parser.",
        suites: vec![Box::new(Calls), Box::new(Inside), Box::new(Tags), Box::new(Custom), Box::new(crate::mixed::Mixed)] }
}
