//! C19: positions and lengths up to 2^64-1, on a virtual sparse device.

use fourleaf::de;
use fourleaf::stream::{self, Element, Stream, Value};
use mc::ensure;
use mc::eng::*;
use mc::sut::*;
use mc::wire::*;
use std::cell::RefCell;
use std::collections::BTreeMap;
use std::io::{self, Read, Seek, SeekFrom, Write};
use std::rc::Rc;

const MAX: u64 = u64::MAX;
const FILL: u8 = 0x41;

pub struct DevS { patches: BTreeMap<u64, u8>, len: u64, pos: u64, noseek: bool, reads: u64, calls: u64, fail: Option<u64>, failseek: bool, failed: bool }
/// A device of up to 2^64-1 bytes, nearly all of them filler.
#[derive(Clone)]
pub struct Dev(Rc<RefCell<DevS>>);
impl Dev {
    fn new(len: u64, pos: u64, noseek: bool) -> Dev { Dev(Rc::new(RefCell::new(DevS { patches: BTreeMap::new(), len, pos, noseek, reads: 0, calls: 0, fail: None, failseek: false, failed: false }))) }
    fn patch(&self, at: u64, b: &[u8]) {
        let mut s = self.0.borrow_mut();
        for (i, x) in b.iter().enumerate() { if let Some(p) = at.checked_add(i as u64) { if p < MAX { s.patches.insert(p, *x); } } }
    }
    fn pos(&self) -> u64 { self.0.borrow().pos }
    /// From now on, the `k`th call fails (once).
    fn fail(&self, k: u64, seeks: bool) { let mut s = self.0.borrow_mut(); s.calls = 0; s.fail = Some(k); s.failseek = seeks; s.failed = false; }
}
impl DevS {
    fn call(&mut self, seek: bool) -> io::Result<()> {
        let k = self.calls;
        self.calls += 1;
        if self.fail == Some(k) && (!seek || self.failseek) { self.failed = true; return Err(io::Error::new(io::ErrorKind::Other, "injected")); }
        Ok(())
    }
}
impl Read for Dev {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        let mut s = self.0.borrow_mut();
        s.reads += 1;
        s.call(false)?;
        if s.reads > 100_000 { panic!("reading through a huge blob instead of skipping it"); }
        let n = (buf.len() as u64).min(s.len.saturating_sub(s.pos)) as usize;
        if n > 0 {
            buf[..n].iter_mut().for_each(|x| *x = FILL);
            let p = s.pos;
            for (k, v) in s.patches.range(p..=p + (n as u64 - 1)) { buf[(k - p) as usize] = *v; }
        }
        s.pos += n as u64;
        Ok(n)
    }
}
impl Write for Dev {
    fn write(&mut self, buf: &[u8]) -> io::Result<usize> {
        let mut s = self.0.borrow_mut();
        s.call(false)?;
        if (s.pos as u128 + buf.len() as u128) > MAX as u128 { return Err(io::Error::new(io::ErrorKind::Other, "device full")); }
        for x in buf { let p = s.pos; s.patches.insert(p, *x); s.pos += 1; }
        s.len = s.len.max(s.pos);
        Ok(buf.len())
    }
    fn flush(&mut self) -> io::Result<()> { Ok(()) }
}
impl Seek for Dev {
    fn seek(&mut self, w: SeekFrom) -> io::Result<u64> {
        let mut s = self.0.borrow_mut();
        s.call(true)?;
        if s.noseek { return Err(io::Error::new(io::ErrorKind::Other, "not seekable")); }
        let np = match w {
            SeekFrom::Start(n) => n as i128,
            SeekFrom::Current(n) => s.pos as i128 + n as i128,
            SeekFrom::End(n) => s.len as i128 + n as i128,
        };
        if np < 0 || np > MAX as i128 { return Err(io::Error::new(io::ErrorKind::InvalidInput, "bad device seek")); }
        s.pos = np as u64;
        Ok(np as u64)
    }
}

fn int_len(v: u64) -> u64 { let mut o = vec![]; put_int(&mut o, v); o.len() as u64 }

fn positions() -> Vec<u64> {
    let mut v = vec![0, 1, 127, 1 << 31, (1 << 32) - 3, 1 << 32, (1 << 63) - 20, (1 << 63) - 11, (1 << 63) - 2, (1 << 63) - 1, 1 << 63, (1 << 63) + 1];
    for k in [9000, 300, 64, 24, 14, 13, 12, 11, 10, 5, 3, 2, 1, 0] { v.push(MAX - k); }
    v
}
/// Lengths which are interesting for a blob whose header starts at `p`.
fn lengths(p: u64) -> Vec<u64> {
    let mut v = vec![0, 1, 2, 40, 9000, (1 << 31) - 1, 1 << 31, (1 << 32) - 1, 1 << 32, (1 << 62), (1 << 63) - 2, (1 << 63) - 1, 1 << 63, (1 << 63) + 1, (1 << 63) + 5, MAX - 1, MAX];
    for h in 2..=12u64 { for d in 0..3u64 { if let Some(x) = (MAX - p).checked_sub(h).and_then(|x| x.checked_sub(d)) { v.push(x); } } }
    // ends just around multiples of the largest signed offset
    for e in [(1u64 << 63) - 1, 1 << 63, MAX - 1] { if let Some(x) = e.checked_sub(p) { for d in [0, 2, 10, 11, 12] { if let Some(x) = x.checked_sub(d) { v.push(x); } } } }
    v.sort(); v.dedup();
    v
}

#[derive(Clone, Copy, Debug)]
enum BOp { Done, Read1, Start0, StartHalf, StartLast, StartEnd, StartOver, End0, EndM1, EndMin, CurMax, CurMin, CurM1, Cur1, Fully, FullyMax, Trunc4, Slice }
const BOPS: [BOp; 18] = [BOp::Done, BOp::Read1, BOp::Start0, BOp::StartHalf, BOp::StartLast, BOp::StartEnd, BOp::StartOver, BOp::End0, BOp::EndM1, BOp::EndMin,
    BOp::CurMax, BOp::CurMin, BOp::CurM1, BOp::Cur1, BOp::Fully, BOp::FullyMax, BOp::Trunc4, BOp::Slice];

struct Reading;
impl Reading {
    /// Where the device ends relative to the blob.
    fn dev_len(k: u64, s: u128, e: u128) -> u64 {
        let x: i128 = match k { 0 => e as i128 + 2, 1 => e as i128 + 1, 2 => e as i128, 3 => e as i128 - 1, 4 => s as i128 + 1, 5 => s as i128, 6 => (s as i128 + e as i128) / 2, _ => e as i128 - 3 };
        x.max(s as i128 - 1).max(0).min(MAX as i128) as u64
    }
}
impl Suite for Reading {
    fn name(&self) -> &'static str { "reading" }
    fn bounds(&self, t: Tier) -> String {
        format!("blobs starting at {} positions (around 2^31, 2^32, 2^63, 2^64-1) x all interesting lengths for each (44..60) x 8 places where the data ends x 4 \
                 source modes (seekable, logical position offset, seek fails at run time, plain reader) x all sequences of <= {} of {} blob operations, then the next element",
                positions().len(), t.q(3, 4), BOPS.len())
    }
    fn units(&self, _: Tier) -> usize { positions().len() * 8 * 4 }
    fn unit(&self, u: usize, t: Tier, cx: &mut Cx) {
        let np = positions().len();
        let p = positions()[u % np];
        for l in lengths(p) {
            if cx.past_deadline() { return; }
            cx.explore(self, Case::new(self.name(), &[p, l, (u / np % 8) as u64, (u / np / 8) as u64, t.q(3, 4)]), 0);
        }
    }
    fn exec(&self, c: &Case, ch: &ChRef, st: &mut Stats) -> Res {
        let (p, l, dk, mode) = (c.ints[0], c.ints[1], c.ints[2], c.ints[3]);
        // logical = physical + base
        let base = if mode == 1 { p.saturating_sub(100) } else { 0 };
        let mut hdr = vec![desc(2, 2)];
        put_int(&mut hdr, l);
        let s = p as u128 + hdr.len() as u128;
        let e = s + l as u128;
        let dl = Self::dev_len(dk, s, e).saturating_sub(base);
        if dl == 0 && p - base > 0 { return Ok(()); }
        // A plain reader would really have to read the data.
        if mode >= 2 && (dl.saturating_sub(p - base)) > 1_000_000 { return Ok(()); }
        let dev = Dev::new(dl, p - base, mode == 2);
        dev.patch(p - base, &hdr);
        if e < MAX as u128 { dev.patch((e - base as u128) as u64, &[0x43, 5]); }
        let mut st_ = if mode == 3 { Stream::new(dev.clone()) } else { Stream::new_seek(dev.clone()) };
        st_.set_pos(p);
        let data_end = dl as u128 + base as u128; // logical
        st.state(hash(&(p, l, dl, mode)));
        let mut pos;
        {
            let r = st_.next_element();
            st.step(1);
            // the header must be there and the blob must end in range
            let present = s <= data_end;
            match r {
                Err(e2) => {
                    ensure!(!present || e > MAX as u128, "rejected", "blob of {} at {} rejected: {:?}", l, p, e2);
                    ensure!(present || s > MAX as u128 || ec(&e2) == EC::Eof, "eof", "{:?}", e2);
                    st.out("rejected"); st.trace();
                    return Ok(());
                },
                Ok(Element::Field(f)) => {
                    ensure!(present && e <= MAX as u128, "accepted", "blob of {} at {} accepted", l, p);
                    ensure!(f.tag == 2 && f.pos == p, "place", "field {} at {}", f.tag, f.pos);
                    let mut b = match f.value { Value::Blob(b) => b, _ => return fail("type", "not a blob") };
                    let (s, e) = (s as u64, e as u64);
                    pos = s;
                    ensure!(b.len() == l && b.start_pos() == s && b.end_pos() == e && b.remaining() == l && b.inner_pos() == 0, "extent",
                            "blob {}..{} len {}, expected {}..{}", b.start_pos(), b.end_pos(), b.len(), s, e);
                    for i in 0..c.ints[4] {
                        let op = BOPS[ch.borrow_mut().pick(BOPS.len())];
                        st.step(1);
                        let mut seek = None;
                        let have = (data_end.min(e as u128)).saturating_sub(pos as u128) as u64;
                        let whole = data_end >= e as u128 || pos == e;
                        let missing = (e as u128 - data_end.max(pos as u128).min(e as u128)) as u64;
                        match op {
                            BOp::Done => break,
                            BOp::Read1 => {
                                let mut x = [0u8; 1];
                                match b.read(&mut x) {
                                    Ok(n) => { ensure!(n as u64 == have.min(1), "read", "op {}: {} bytes, {} present", i, n, have); pos += n as u64; },
                                    Err(e) => return fail("read", format!("op {}: {:?}", i, e)),
                                }
                            },
                            BOp::Fully | BOp::FullyMax => {
                                let lim = if let BOp::Fully = op { 16u64 } else { MAX };
                                // Reading it all must be feasible.
                                if lim == MAX && have > 100_000 { continue; }
                                match b.read_fully(lim as usize) {
                                    Ok(v) => {
                                        ensure!(e - pos <= lim && whole && v.len() as u64 == e - pos, "read_fully", "op {}: {} bytes of {}", i, v.len(), e - pos);
                                        pos = e;
                                    },
                                    Err(er) if e - pos > lim => ensure!(ec(&er) == EC::Large(lim as usize, e - pos), "read_fully", "op {}: {:?}", i, er),
                                    Err(er) => {
                                        ensure!(!whole && ec(&er) == EC::Trunc(missing), "read_fully", "op {}: {:?}, {} missing", i, er, missing);
                                        st.out("truncated"); st.trace();
                                        return Ok(());
                                    },
                                }
                            },
                            BOp::Trunc4 => match b.read_or_trunc(4) {
                                Ok(v) => { ensure!(v.len() as u64 == have.min(4), "read_or_trunc", "op {}: {} bytes", i, v.len()); pos += v.len() as u64; },
                                Err(er) => { ensure!(have < 4 && ec(&er) == EC::Trunc(missing), "read_or_trunc", "{:?}", er); return Ok(()); },
                            },
                            BOp::Slice => (),
                            BOp::Start0 => seek = Some(SeekFrom::Start(0)),
                            BOp::StartHalf => seek = Some(SeekFrom::Start(l / 2)),
                            BOp::StartLast => seek = Some(SeekFrom::Start(l.saturating_sub(1))),
                            BOp::StartEnd => seek = Some(SeekFrom::Start(l)),
                            BOp::StartOver => if l < MAX { seek = Some(SeekFrom::Start(l + 1)) },
                            BOp::End0 => seek = Some(SeekFrom::End(0)),
                            BOp::EndM1 => seek = Some(SeekFrom::End(-1)),
                            BOp::EndMin => seek = Some(SeekFrom::End(i64::MIN)),
                            BOp::CurMax => seek = Some(SeekFrom::Current(i64::MAX)),
                            BOp::CurMin => seek = Some(SeekFrom::Current(i64::MIN)),
                            BOp::CurM1 => seek = Some(SeekFrom::Current(-1)),
                            BOp::Cur1 => seek = Some(SeekFrom::Current(1)),
                        }
                        if let Some(w) = seek {
                            let inner = (pos - s) as i128;
                            let to = match w { SeekFrom::Start(x) => x as i128, SeekFrom::End(x) => l as i128 + x as i128, SeekFrom::Current(x) => inner + x as i128 };
                            let dist = (to - inner).abs();
                            match b.seek(w) {
                                Ok(r) => { ensure!(to >= 0 && to <= l as i128 && r as i128 == to, "seek", "op {}: {:?} in {} gave {}", i, w, l, r); pos = s + r; },
                                Err(er) => ensure!(to < 0 || to > l as i128 || dist > i64::MAX as i128 || mode == 2, "seek-refused", "op {}: {:?} in {}: {:?}", i, w, l, er),
                            }
                        }
                        ensure!(b.stream_pos() == pos && b.inner_pos() == pos - s && b.remaining() == e - pos && b.start_pos() == s && b.end_pos() == e, "positions",
                                "op {} {:?}: at {}, expected {}", i, op, b.stream_pos(), pos);
                        ensure!(dev.pos() == pos - base, "device", "op {} {:?}: device at {}, expected {}", i, op, dev.pos(), pos - base);
                        st.state(hash(&(pos, e, dl)));
                    }
                },
                Ok(_) => return fail("element", "unexpected element"),
            }
        }
        // The next element
        let e = e as u64;
        let missing = (e as u128 - data_end.max(pos as u128).min(e as u128)) as u64;
        st.step(1);
        let r = st_.next_element();
        if missing > 0 && pos < e {
            let x = r.as_ref().err().map(ec);
            ensure!(x == Some(EC::Trunc(missing)), "missing-data", "{:?}, but {} bytes of the blob are missing", x, missing);
            st.out("truncated");
        } else if e <= MAX - 2 && data_end >= e as u128 + 2 {
            match r {
                Ok(Element::Field(f)) => { match (f.tag, f.pos, &f.value) { (3, q, &Value::Integer(5)) if q == e => (), _ => return fail("next", format!("field {} at {}", f.tag, f.pos)) } },
                r => return fail("next", format!("{:?}", r.err())),
            }
            ensure!(st_.pos() == e + 2 && dev.pos() == e + 2 - base, "next-pos", "{}", st_.pos());
            st.out("skipped");
        } else {
            ensure!(r.is_err(), "next", "an element where there is no data");
            st.out("no more data");
        }
        st.trace();
        Ok(())
    }
    fn show(&self, c: &Case) -> String {
        format!("blob header at {} length {} data-end kind {} mode {} ops {:?}", c.ints[0], c.ints[1], c.ints[2], c.ints[3],
                c.ch.iter().map(|x| BOPS[*x as usize % BOPS.len()]).collect::<Vec<_>>())
    }
}

#[derive(Clone, Copy, Debug)]
enum WOp { Int(u64), Struct, Enum, EndS, EndD, Pad, Align(u64), Commit, Data(u64), Alloc(u8), Dyn(u8), Reset(u64) }
fn wops() -> Vec<WOp> {
    use self::WOp::*;
    vec![Int(0), Int(300), Int(MAX), Struct, Enum, EndS, EndD, Pad, Align(8), Align(16), Commit, Data(0), Data(3), Data(130),
         Alloc(0), Alloc(1), Alloc(2), Alloc(3), Alloc(4), Alloc(5), Alloc(6), Alloc(7), Alloc(8), Dyn(0), Dyn(1), Dyn(2), Dyn(3), Dyn(4), Dyn(5), Reset(MAX - 6), Reset(1 << 63)]
}

struct Writing;
struct WM { pos: u64, base: i128, w: BTreeMap<i128, u8> }
impl WM {
    fn put(&mut self, b: &[u8]) { for x in b { self.w.insert(self.pos as i128 - self.base, *x); self.pos = self.pos.wrapping_add(1); } }
}
impl Writing {
    fn go(c: &Case, ch: &ChRef, st: &mut Stats) -> Res {
        let p = c.ints[0];
        // mode 1: logical positions only, the device is small
        let phys = if c.ints[1] == 1 { p.min(50) } else { p };
        let dev = Dev::new(MAX, phys, false);
        let mut s = Stream::new_seek(dev.clone());
        s.set_pos(p);
        let mut m = WM { pos: p, base: p as i128 - phys as i128, w: BTreeMap::new() };
        // bytes still to be written into the current blob
        let mut incomplete = 0u64;
        let all = wops();
        for i in 0..c.ints[2] {
            let op = all[ch.borrow_mut().pick(all.len())];
            st.step(1);
            let room = MAX - m.pos;
            if incomplete > 0 {
                let r = s.commit();
                ensure!(r.as_ref().err().map(ec) == Some(EC::Incomplete(incomplete)), "incomplete", "op {}: {:?}, {} missing", i, r, incomplete);
                st.out("incomplete"); st.trace();
                return Ok(());
            }
            macro_rules! plain { ($r:expr, $b:expr) => {{
                let b: Vec<u8> = $b;
                let r: Result<(), stream::Error> = $r;
                let fits = b.len() as u64 <= room;
                ensure!(r.is_ok() == fits, "write", "op {} {:?} at {}: {} bytes of {} left: {:?}", i, op, m.pos, b.len(), room, r);
                if !fits { return Self::done(&s, &dev, &m, st, room); }
                m.put(&b);
            }} }
            let mut o = vec![];
            match op {
                WOp::Int(v) => { t_int(&mut o, 5, v); plain!(s.write_u64(5, v), o) },
                WOp::Struct => plain!(s.write_struct(1), vec![0xC1]),
                WOp::Enum => { t_enum(&mut o, 2, 300); plain!(s.write_enum(2, 300), o) },
                WOp::EndS => plain!(s.write_end_struct(), vec![0]),
                WOp::EndD => plain!(s.write_end_doc(), vec![0x40]),
                WOp::Pad => plain!(s.write_padding(), vec![0xC0]),
                WOp::Align(a) => { let n = (a - m.pos % a) % a; plain!(s.pad_to_align(a), vec![0xC0; n as usize]) },
                WOp::Commit => ensure!(s.commit().is_ok(), "commit", "op {}", i),
                WOp::Reset(x) => {
                    ensure!(s.reset_pos(x).is_ok(), "reset", "op {}", i);
                    m.base += x as i128 - m.pos as i128;
                    m.pos = x;
                    // the device itself must have room
                    if m.base < 0 { st.out("device behind"); return Ok(()); }
                },
                WOp::Data(n) => {
                    let d = vec![7u8; n as usize];
                    t_blob(&mut o, 6, &d);
                    let r = s.write_blob_data(6, &d).map(|_| ());
                    if room >= n + 11 { ensure!(r.is_ok(), "write", "op {}: blob of {} with room for {}: {:?}", i, n, room, r); }
                    if (o.len() as u64) > room { ensure!(r.is_err(), "wrapped", "op {}: blob of {} with room for {}", i, n, room); }
                    if r.is_err() { return Self::done(&s, &dev, &m, st, room); }
                    m.put(&o);
                },
                WOp::Alloc(k) => {
                    let n = match k { 0 => 0, 1 => 5, 2 => 1 << 31, 3 => (1 << 63) - 1, 4 => (1 << 63) + 5, 5 => room.saturating_sub(11), 6 => room.saturating_sub(10), 7 => room.saturating_sub(1), _ => MAX };
                    let need = 1 + int_len(n) as u128 + n as u128;
                    match s.write_blob_alloc(6, n) {
                        Err(e) => {
                            ensure!((room as u128) < n as u128 + 11, "alloc", "op {}: blob of {} with room for {}: {:?}", i, n, room, e);
                            return Self::done(&s, &dev, &m, st, room);
                        },
                        Ok(mut b) => {
                            ensure!(need <= room as u128, "wrapped", "op {}: blob of {} with room for {}", i, n, room);
                            o.push(desc(2, 6)); put_int(&mut o, n);
                            m.put(&o);
                            ensure!(b.start_pos() == m.pos && b.end_pos() == m.pos + n && b.len() == n && b.remaining() == n, "extent", "op {}", i);
                            // go to the end in steps that a seek can express
                            match ch.borrow_mut().pick(3) {
                                0 => {
                                    let mut left = n;
                                    while left > 0 {
                                        let k = left.min(i64::MAX as u64);
                                        if let Err(e) = b.seek(SeekFrom::Current(k as i64)) { return fail("seek", format!("op {}: by {} with {} left: {:?}", i, k, left, e)); }
                                        left -= k;
                                        ensure!(b.remaining() == left, "seek", "op {}", i);
                                    }
                                    m.pos += n;
                                },
                                1 => { incomplete = n; },
                                _ => if n > 0 {
                                    ensure!(b.write_all(b"z").is_ok(), "blob-write", "op {}", i);
                                    m.put(b"z");
                                    incomplete = n - 1;
                                },
                            }
                            ensure!(b.remaining() == incomplete && b.stream_pos() == m.pos, "positions", "op {}", i);
                        },
                    }
                },
                WOp::Dyn(k) => {
                    let n: u64 = match k { 0 => 0, 1 => 4, 2 => 1 << 32, 3 => (1 << 63) - 11, 4 => (1 << 63) - 10, _ => room.saturating_sub(11) };
                    let start;
                    match s.write_blob_dynamic(6) {
                        Err(e) => { ensure!(room < 11, "dynamic", "op {}: room for {}: {:?}", i, room, e); return Self::done(&s, &dev, &m, st, room); },
                        Ok(mut b) => {
                            ensure!(room >= 11, "wrapped", "op {}: dynamic blob with room for {}", i, room);
                            start = m.pos + 11;
                            ensure!(b.start_pos() == start && b.stream_pos() == start && b.remaining() == MAX - start, "extent", "op {}", i);
                            if n > MAX - start { return Ok(()); }
                            let mut left = n;
                            while left > 0 {
                                let k = left.min(i64::MAX as u64 - 100);
                                if left <= 4 { ensure!(b.write_all(&b"wxyz"[..left as usize]).is_ok(), "dynamic-write", "op {}", i); left = 0; }
                                else {
                                    let k = if left - k == 0 && k > 4 { k - 4 } else { k };
                                    if let Err(e) = b.seek(SeekFrom::Current(k as i64)) { return fail("seek", format!("op {}: {:?}", i, e)); }
                                    left -= k;
                                }
                            }
                        },
                    }
                    let r = s.commit();
                    if n <= i64::MAX as u64 - 10 {
                        ensure!(r.is_ok(), "dynamic-commit", "op {}: length {}: {:?}", i, n, r);
                    } else {
                        ensure!(r.as_ref().err().map(ec) == Some(EC::OverlongDyn), "dynamic-commit", "op {}: length {}: {:?}", i, n, r);
                        st.out("overlong dynamic"); st.trace();
                        return Ok(());
                    }
                    let h = { let mut h = vec![desc(2, 6)]; put_fixed(&mut h, n); h };
                    m.put(&h);
                    m.pos += n;
                    if n > 0 {
                        let k = n.min(4);
                        let e = m.pos;
                        m.pos = e - k;
                        m.put(&b"wxyz"[..k as usize]);
                    }
                },
            }
            ensure!(s.pos() == m.pos, "pos", "op {} {:?}: at {}, expected {}", i, op, s.pos(), m.pos);
            ensure!(dev.pos() as i128 == m.pos as i128 - m.base, "device", "op {} {:?}: device at {}", i, op, dev.pos());
            st.state(hash(&(m.pos, m.base)));
        }
        Self::same(&dev, &m)?;
        st.out("written"); st.trace();
        Ok(())
    }
    fn same(dev: &Dev, m: &WM) -> Res {
        let d = dev.0.borrow();
        ensure!(d.patches.len() == m.w.len() && d.patches.iter().zip(&m.w).all(|(a, b)| *a.0 as i128 == *b.0 && a.1 == b.1), "bytes", "wrong bytes or places written");
        Ok(())
    }
    /// An operation failed for lack of room: nothing may have been written
    /// elsewhere, and the position may not have wrapped.
    fn done(s: &Stream<Dev>, dev: &Dev, m: &WM, st: &mut Stats, _room: u64) -> Res {
        ensure!(s.pos() >= m.pos, "wrapped", "position went from {} to {}", m.pos, s.pos());
        ensure!(dev.pos() as i128 == s.pos() as i128 - m.base, "device", "device at {}", dev.pos());
        let d = dev.0.borrow();
        ensure!(d.patches.iter().all(|(k, _)| m.w.contains_key(&(*k as i128)) || *k as i128 >= m.pos as i128 - m.base), "bytes", "written elsewhere");
        st.out("no room"); st.trace();
        Ok(())
    }
}
impl Suite for Writing {
    fn name(&self) -> &'static str { "writing" }
    fn bounds(&self, t: Tier) -> String {
        format!("all sequences of {} of {} writer calls (pre-sized and dynamic blobs of up to the whole remaining space, positioned by seeking) from {} start positions \
                 x physical/logical positions", t.q(3, 4), wops().len(), positions().len() + 40)
    }
    fn units(&self, _: Tier) -> usize { (positions().len() + 40) * 2 }
    fn unit(&self, u: usize, t: Tier, cx: &mut Cx) {
        let n = positions().len();
        let i = u / 2;
        let p = if i < n { positions()[i] } else { MAX - (i - n) as u64 };
        cx.explore(self, Case::new(self.name(), &[p, (u % 2) as u64, t.q(3, 4)]), 0);
    }
    fn exec(&self, c: &Case, ch: &ChRef, st: &mut Stats) -> Res { Self::go(c, ch, st) }
    fn show(&self, c: &Case) -> String { format!("start {} mode {} choices {:?} of {:?}", c.ints[0], c.ints[1], c.ch, "writer calls") }
}

/// Typed decoding with a huge unknown blob in the way, and slices.
struct Typed;
impl Suite for Typed {
    fn name(&self) -> &'static str { "typed-and-slices" }
    fn bounds(&self, _: Tier) -> String {
        "typed decoding of a value whose unknown field is a blob of every interesting length at every position; declared lengths up to 2^64-1 in short slices for \
         slice(), slice_mut(), ext_slice(), read_fully(), borrowed and copied typed decoding; buffered reads near the limit".into()
    }
    fn units(&self, _: Tier) -> usize { positions().len() }
    fn unit(&self, u: usize, _: Tier, cx: &mut Cx) {
        let p = positions()[u];
        for l in lengths(p) { for d in 0..3 { cx.run(self, Case::new(self.name(), &[0, p, l, d])); } }
        for l in lengths(p) { for have in [0, 1, 5] { for op in 0..8 { cx.run(self, Case::new(self.name(), &[1, p, l, have, op])); } } }
    }
    fn exec(&self, c: &Case, _: &ChRef, st: &mut Stats) -> Res {
        let (p, l) = (c.ints[1], c.ints[2]);
        let mut hdr = vec![desc(2, 9)];
        put_int(&mut hdr, l);
        st.state(hash(&c.ints[..]));
        st.trace();
        st.step(1);
        if c.ints[0] == 0 {
            // 9: unknown blob, 1: 77, end
            let s = p as u128 + hdr.len() as u128;
            let e = s + l as u128;
            let full = e + 3;
            let dl = match c.ints[3] { 0 => full, 1 => full - 1, _ => e.saturating_sub(1) };
            if full > MAX as u128 { return self.rejects(p, l, &hdr, st); }
            let dev = Dev::new(dl as u64, p, false);
            dev.patch(p, &hdr);
            dev.patch(e as u64, &[0x41, 77, 0]);
            let mut stream = Stream::new_seek(dev.clone());
            stream.set_pos(p);
            let cfg = de::Config::default();
            let r: Result<u32, _> = de::from_stream_copy(&mut stream, &cfg);
            match r {
                Ok(v) => {
                    ensure!(v == 77 && dl >= full, "typed", "decoded {} with the data ending at {} of {}", v, dl, full);
                    ensure!(stream.pos() as u128 == full, "typed-pos", "{}", stream.pos());
                    st.out("decoded");
                },
                Err(e) => { ensure!(dl < full, "typed", "{:?}", e); st.out("truncated"); },
            }
            return Ok(());
        }
        let have = c.ints[3] as usize;
        let mut doc = hdr.clone();
        doc.extend_from_slice(&[0x41; 5][..have]);
        let present = l <= have as u64;
        let overlong = p as u128 + hdr.len() as u128 + l as u128 > MAX as u128;
        let missing = l.saturating_sub(have as u64);
        macro_rules! on { ($src:expr, |$b:ident| $call:expr) => {{
            let mut s = Stream::new_seek($src);
            s.set_pos(p);
            let r = s.next_field();
            match r {
                Err(e) => { ensure!(overlong, "rejected", "{:?}", e); st.out("overlong"); Ok(()) },
                Ok(None) => fail("end", "end"),
                Ok(Some(mut f)) => {
                    ensure!(!overlong, "overlong-accepted", "blob of {} at {}", l, p);
                    let $b = f.value.to_blob().unwrap();
                    let r: Result<usize, stream::Error> = $call;
                    match r {
                        Ok(n) => { ensure!(present && n as u64 == l, "short", "{} bytes of {}", n, l); st.out("read"); },
                        Err(e) => { ensure!(!present && ec(&e) == EC::Trunc(missing), "missing", "{:?}", e); st.out("truncated"); },
                    }
                    Ok(())
                },
            }
        }} }
        use fourleaf::io::TransparentCursor as TC;
        use std::io::{BufRead, Cursor};
        match c.ints[4] {
            0 => on!(TC(Cursor::new(&doc[..])), |b| b.slice().map(|x| x.len())),
            1 => on!(TC(Cursor::new(&doc[..])), |b| b.ext_slice().map(|x| x.len())),
            2 => on!(TC(Cursor::new(doc.clone())), |b| b.slice_mut().map(|x| x.len())),
            3 => on!(TC(Cursor::new(&doc[..])), |b| b.read_fully(usize::MAX).map(|x| x.len())),
            4 => on!(Cursor::new(&doc[..]), |b| b.ext_slice().map(|x| x.len())),
            5 => {
                // A buffered read may fail only because what is buffered
                // reaches beyond the limit.
                let mut s = Stream::new_seek(TC(Cursor::new(&doc[..])));
                s.set_pos(p);
                let r = s.next_field();
                match r {
                    Err(_) => ensure!(overlong, "rejected", ""),
                    Ok(Some(mut f)) => {
                        let b = f.value.to_blob().unwrap();
                        let at = b.stream_pos();
                        let r = b.fill_buf().map(|x| x.len());
                        match r {
                            Ok(n) => ensure!(n as u64 == l.min(have as u64), "fill_buf", "{}", n),
                            Err(e) => ensure!(at as u128 + have as u128 > MAX as u128, "fill_buf", "{:?}", e),
                        }
                    },
                    _ => return fail("end", ""),
                }
                st.out("buffered");
                Ok(())
            },
            k => {
                // typed: Vec<u8> copied, &[u8] borrowed; tag 1
                doc[0] = desc(2, 1);
                doc.push(0);
                let present = l <= have as u64 && have as u64 == l;
                let mut cfg = de::Config::default();
                cfg.max_blob = usize::MAX;
                let ok = if k == 6 { de::from_slice_copy::<Vec<u8>>(&doc, &cfg).map(|v| v.len()) } else { de::from_slice_borrow::<&[u8]>(&doc, &cfg).map(|v| v.len()) };
                match ok {
                    Ok(n) => ensure!(n as u64 == l && present, "typed-blob", "{} of {}", n, l),
                    Err(e) => ensure!(!present, "typed-blob", "{:?}", e),
                }
                st.out("typed");
                Ok(())
            },
        }
    }
}
impl Typed {
    fn rejects(&self, p: u64, l: u64, hdr: &[u8], st: &mut Stats) -> Res {
        let dev = Dev::new(MAX, p, false);
        dev.patch(p, hdr);
        let mut stream = Stream::new_seek(dev.clone());
        stream.set_pos(p);
        let r: Result<u32, _> = de::from_stream_copy(&mut stream, &de::Config::default());
        ensure!(r.is_err(), "typed-wrapped", "decoded although the blob of {} at {} leaves no room", l, p);
        st.out("no room");
        Ok(())
    }
}

/// Values taken out of huge blobs which do have all their data.
struct Values;
type Decoded = Result<Vec<u8>, String>;
fn value<T: AsRef<[u8]> + for<'a> de::Deserialize<Dev, de::style::Copying>>(s: &mut Stream<Dev>, cfg: &de::Config) -> Decoded {
    de::from_stream_copy::<Dev, T>(s, cfg).map(|v| v.as_ref().to_vec()).map_err(|e| e.to_string())
}
macro_rules! sizes { ($n:expr, $s:expr, $c:expr; $($k:tt)*) => { match $n {
    $($k => de::from_stream_copy::<Dev, [u8; $k]>($s, $c).map(|v| v[..].to_vec()).map_err(|e| e.to_string()),)*
    _ => unreachable!() } } }
const SIZES: [u64; 11] = [0, 1, 2, 4, 8, 16, 31, 32, 64, 512, 65536];
impl Values {
    fn lengths(n: u64, p: u64) -> Vec<u64> {
        let mut v = lengths(p);
        for sh in [8, 16, 24, 31, 32, 33, 40, 48, 56, 62, 63] { for k in [1u64, 3] {
            if let Some(x) = k.checked_mul(1 << sh) { for y in [x.checked_add(n), x.checked_sub(n)] { v.extend(y) } }
        } }
        v.extend([n, n + 1, n.saturating_sub(1)]);
        v.sort(); v.dedup();
        v
    }
}
impl Suite for Values {
    fn name(&self) -> &'static str { "values-of-huge-blobs" }
    fn bounds(&self, _: Tier) -> String {
        format!("byte arrays of {:?} elements, byte vectors, strings, collections of vectors and collected unknown fields (limits 0, 1, 300 and 65536 bytes) decoded from blobs which really hold every \
                 interesting length up to 2^64-1, also lengths equal to the wanted one modulo 2^8..2^63, at {} positions, alone and after another blob; what is left in the device afterwards", SIZES, positions().len())
    }
    fn units(&self, _: Tier) -> usize { positions().len() * (SIZES.len() + 4) }
    fn unit(&self, u: usize, _: Tier, cx: &mut Cx) {
        let np = positions().len();
        let p = positions()[u % np];
        let kind = u / np;
        if kind < SIZES.len() {
            for l in Values::lengths(SIZES[kind], p) { cx.run(self, Case::new(self.name(), &[kind as u64, p, l, 0])); }
        } else {
            for lim in [0u64, 1, 300, 65536] { for l in Values::lengths(lim, p) { cx.run(self, Case::new(self.name(), &[kind as u64, p, l, lim])); } }
        }
    }
    fn exec(&self, c: &Case, _: &ChRef, st: &mut Stats) -> Res {
        let (kind, p, l, lim) = (c.ints[0] as usize, c.ints[1], c.ints[2], c.ints[3]);
        let tag = if kind == SIZES.len() + 3 { 9 } else { 1 };
        let mut hdr = vec![];
        // a collection already holds one byte when it comes to the huge one
        if kind == SIZES.len() + 2 { hdr.extend_from_slice(&[desc(2, 1), 1, 7]); }
        hdr.push(desc(2, tag));
        put_int(&mut hdr, l);
        let e = p as u128 + hdr.len() as u128 + l as u128;
        let fits = e + 3 <= MAX as u128;
        let dev = Dev::new(if fits { (e + 3) as u64 } else { MAX }, p, false);
        dev.patch(p, &hdr);
        if fits { dev.patch(e as u64, &[desc(1, 5), 77, 0]); }
        let mut s = Stream::new_seek(dev.clone());
        s.set_pos(p);
        let mut cfg = de::Config::default();
        if kind >= SIZES.len() { cfg.max_blob = lim as usize; }
        st.step(1); st.trace();
        st.state(hash(&c.ints[..]));
        let (got, ok, want): (Decoded, bool, Vec<u8>) = match kind {
            k if k < SIZES.len() => (sizes!(SIZES[k], &mut s, &cfg; 0 1 2 4 8 16 31 32 64 512 65536), l == SIZES[k], vec![FILL; if l == SIZES[k] { l as usize } else { 0 }]),
            k => {
                let used = if k == SIZES.len() + 2 { 1 } else { 0 };
                let ok = l as u128 + used <= lim as u128;
                let mut w = vec![FILL; if ok { l as usize } else { 0 }];
                let r = match k - SIZES.len() {
                    0 => value::<Vec<u8>>(&mut s, &cfg),
                    1 => value::<String>(&mut s, &cfg),
                    2 => { w.insert(0, 7); de::from_stream_copy::<Dev, Vec<Vec<u8>>>(&mut s, &cfg).map(|v| v.concat()).map_err(|e| e.to_string()) },
                    _ => Self::unknown(&mut s, &cfg),
                };
                (r, ok, w)
            },
        };
        match got {
            Ok(v) => {
                ensure!(ok && fits, "accepted", "a blob of {} bytes gave {} bytes", l, v.len());
                ensure!(v == want, "value", "blob of {}: wrong bytes", l);
                ensure!(s.pos() as u128 == e + 3 && dev.pos() as u128 == e + 3, "position", "position {} (device {}) instead of {}", s.pos(), dev.pos(), e + 3);
                st.out("decoded");
            },
            Err(m) => { ensure!(!(ok && fits), "refused", "blob of {}: {}", l, m); st.out("refused"); },
        }
        Ok(())
    }
}
impl Values {
    fn unknown(s: &mut Stream<Dev>, cfg: &de::Config) -> Decoded {
        use fourleaf::unknown::{UnknownField, UnknownFields};
        let all = de::from_stream_copy::<Dev, UnknownFields<'static>>(s, cfg).map_err(|e| e.to_string())?;
        let mut out = vec![];
        for (_, f) in all.0 { match f { UnknownField::Blob(b) => out.extend_from_slice(&b), UnknownField::Integer(77) => (), _ => return Err("wrong field".into()) } }
        Ok(out)
    }
}

/// A device which fails once in the middle of huge blobs.
struct Failing;
impl Suite for Failing {
    fn name(&self) -> &'static str { "failing-device" }
    fn bounds(&self, t: Tier) -> String {
        format!("blobs of every interesting length at {} positions, entered in 4 ways, left with the device failing at each of the first {} calls and then asked again; dynamic blobs of the same \
                 lengths finished with the device failing at each call and then again", positions().len(), t.q(6, 10))
    }
    fn units(&self, _: Tier) -> usize { positions().len() }
    fn unit(&self, u: usize, t: Tier, cx: &mut Cx) {
        let p = positions()[u];
        for l in lengths(p) { for how in 0..5u64 { for k in 0..t.q(6, 10) { cx.run(self, Case::new(self.name(), &[p, l, how, k])); } } }
    }
    fn exec(&self, c: &Case, _: &ChRef, st: &mut Stats) -> Res {
        let (p, l, how, k) = (c.ints[0], c.ints[1], c.ints[2], c.ints[3]);
        if how == 4 { return Self::writing(p, l, k, st); }
        let mut hdr = vec![desc(2, 2)];
        put_int(&mut hdr, l);
        let e = p as u128 + hdr.len() as u128 + l as u128;
        if e + 2 > MAX as u128 { return Ok(()); }
        let e = e as u64;
        let dev = Dev::new(e + 2, p, false);
        dev.patch(p, &hdr);
        dev.patch(e, &[0x43, 5]);
        let mut s = Stream::new_seek(dev.clone());
        s.set_pos(p);
        {
            let mut f = s.next_field().unwrap().unwrap();
            let b = f.value.to_blob().unwrap();
            match how {
                1 => { let _ = b.read(&mut [0]).unwrap(); },
                2 => { let _ = b.seek(SeekFrom::Start(l / 2)); },
                3 => { let _ = b.seek(SeekFrom::End(-1)); },
                _ => (),
            }
        }
        let left = e - s.pos();
        st.state(hash(&c.ints[..]));
        dev.fail(k, left <= 9000);
        let mut wrong = None;
        for attempt in 0..2 {
            st.step(1);
            match s.next_field() {
                Ok(Some(f)) => {
                    ensure!(f.tag == 3 && f.pos == e && matches!(f.value, Value::Integer(5)), "resumed", "field {} at {} instead of 3 at {} ({} left of the blob)", f.tag, f.pos, e, left);
                    st.out(if attempt == 0 { "undisturbed" } else { "resumed" });
                    wrong = None;
                    break;
                },
                Ok(None) => return fail("end", "end of the document"),
                Err(x) => {
                    let failed = dev.0.borrow().failed;
                    ensure!(failed && attempt == 0 && ec(&x) == EC::Io(io::ErrorKind::Other, "injected".into()), "error", "attempt {}: {:?} ({} left of the blob)", attempt, x, left);
                    // in the middle of the field behind the blob
                    if s.pos() > e { st.out("behind"); break; }
                    ensure!(s.pos() == dev.pos(), "position", "position {}, device {}", s.pos(), dev.pos());
                    wrong = Some(x);
                },
            }
        }
        ensure!(wrong.is_none(), "stuck", "{:?}", wrong);
        st.trace();
        Ok(())
    }
    fn show(&self, c: &Case) -> String { format!("blob of {} at {}, entered in way {}, call {} fails", c.ints[1], c.ints[0], c.ints[2], c.ints[3]) }
}
impl Failing {
    fn writing(p: u64, l: u64, k: u64, st: &mut Stats) -> Res {
        let dev = Dev::new(0, p, false);
        let mut s = Stream::new_seek(dev.clone());
        s.set_pos(p);
        match s.write_blob_dynamic(2) {
            Err(_) => { st.out("no room"); return Ok(()); },
            Ok(mut b) => {
                if l > i64::MAX as u64 || b.write_all(b"x").is_err() || b.seek(SeekFrom::Current(l as i64)).is_err() || b.write_all(b"y").is_err() { st.out("no room"); return Ok(()); }
            },
        }
        let e = s.pos();
        dev.fail(k, true);
        st.step(1); st.trace();
        if s.write_u64(3, 5).is_ok() { st.out("undisturbed"); } else {
            if s.pos() > e || !dev.0.borrow().failed { st.out("behind"); return Ok(()); }
            st.step(1);
            if s.write_u64(3, 5).is_err() { st.out("refused"); return Ok(()); }
            st.out("resumed");
        }
        ensure!(s.pos() == e + 2 && dev.pos() == e + 2, "position", "position {}, device {}, not {}", s.pos(), dev.pos(), e + 2);
        let mut want = BTreeMap::new();
        let mut put = |at: u64, b: &[u8]| for (i, x) in b.iter().enumerate() { want.insert(at + i as u64, *x); };
        let n = l + 2;
        let mut h = vec![desc(2, 2)];
        for i in 0..10 { h.push(((n >> (7 * i)) & 0x7F) as u8 | if i < 9 { 0x80 } else { 0 }); }
        put(p, &h);
        put(p + 11, b"x"); put(e - 1, b"y"); put(e, &[0x43, 5]);
        ensure!(dev.0.borrow().patches == want, "bytes", "{:?} instead of {:?}", dev.0.borrow().patches, want);
        Ok(())
    }
}

pub fn check() -> Check {
    Check { id: "C19", level: "model_checking",
        rule: "Every case runs on a virtual device of up to 2^64-1 bytes; positions, results and device accesses are compared with exact arithmetic in 128 bits.",
        suites: vec![Box::new(Reading), Box::new(Writing), Box::new(Typed), Box::new(Values), Box::new(Failing)] }
}
