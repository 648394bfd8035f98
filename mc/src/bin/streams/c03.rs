//! C03: the parser against the wire grammar.

use fourleaf::io::TransparentCursor;
use fourleaf::stream::{Element, Field, Stream, Value};
use mc::ensure;
use mc::env::EnvRd;
use mc::eng::*;
use mc::sut::*;
use mc::wire::*;
use std::io::{Read, Seek, SeekFrom};

/// One observed element, comparable with `Ev`.
#[derive(Debug, Clone, PartialEq)]
enum Ob { Int(u8, u64), Struct(u8), Enum(u8, u64), Blob(u8, u64, u64), Exc(u64, u64), EndS, EndD, Pad, None_ }

pub struct Bytes { pub api: Apis }
#[derive(Clone, Copy, PartialEq)]
pub enum Apis { Small, Tokens, Raw, After }

// 17 structural bytes: every special, every type with tags 1, 63 and others,
// digits with and without continuation.
const ALPHA: [u8; 17] = [0x00, 0x40, 0x80, 0xC0, 0x01, 0x41, 0x81, 0xC1, 0x3F, 0x7F, 0xBF, 0xFF,
                         0x02, 0x82, 0xFE, 0x05, 0xC3];

fn tokens() -> Vec<Vec<u8>> {
    let mut t: Vec<Vec<u8>> = vec![];
    let mut p = |f: &dyn Fn(&mut Vec<u8>)| { let mut o = vec![]; f(&mut o); t.push(o); };
    p(&|o| t_int(o, 1, 0));
    p(&|o| t_int(o, 63, 300));
    p(&|o| t_int(o, 2, u64::MAX));
    p(&|o| { o.push(desc(1, 5)); put_fixed(o, 7) });
    p(&|o| t_blob(o, 1, b""));
    p(&|o| t_blob(o, 2, b"\x00\x40\xc1"));
    p(&|o| t_blob(o, 33, &[0x41; 130]));
    p(&|o| t_struct(o, 1));
    p(&|o| t_struct(o, 63));
    p(&|o| t_enum(o, 1, 0));
    p(&|o| t_enum(o, 40, 1 << 40));
    p(&|o| o.push(0x00));
    p(&|o| o.push(0x40));
    p(&|o| o.push(0xC0));
    p(&|o| { o.push(0x80); put_int(o, 2); o.extend_from_slice(b"\xffE") });
    p(&|o| { o.push(0x80); put_int(o, 300); o.extend_from_slice(&[b'x'; 300]) });
    // truncated / broken
    p(&|o| { o.push(desc(2, 3)); put_int(o, 4); o.push(1) });
    p(&|o| { o.push(desc(2, 3)); put_int(o, u64::MAX); });
    p(&|o| { o.push(desc(1, 3)); o.extend_from_slice(&[0xff; 10]) });
    p(&|o| { o.push(0x80); put_int(o, 9); o.push(b'm') });
    p(&|o| { o.push(desc(2, 4)); put_int(o, i64::MAX as u64 + 2); o.push(b'z') });
    t
}

/// Long histories: deep nesting, many elements, many end markers.
fn prefixes() -> &'static [(Vec<u8>, usize)] {
    static P: std::sync::OnceLock<Vec<(Vec<u8>, usize)>> = std::sync::OnceLock::new();
    P.get_or_init(|| {
        let mut v = vec![];
        for d in (4..=10usize).chain([15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 300]) {
            for k in 0..3 {
                let mut o = vec![];
                for i in 0..d { if k == 0 || k == 2 && i % 2 == 0 { t_struct(&mut o, 1 + (i % 63) as u8) } else { t_enum(&mut o, 1, i as u64) } }
                v.push((o, 2));
            }
        }
        for n in [16usize, 64, 128, 255, 256, 257] {
            let rep = |f: &dyn Fn(&mut Vec<u8>)| { let mut o = vec![]; for _ in 0..n { f(&mut o); } o };
            v.push((rep(&|o| t_int(o, 1, 5)), 2));
            v.push((rep(&|o| t_blob(o, 1, b"ab")), 2));
            v.push((rep(&|o| o.push(0xC0)), 2));
            v.push((rep(&|o| o.push(0)), 2));
            v.push((rep(&|o| { t_struct(o, 2); o.push(0); }), 2));
        }
        for n in [65535usize, 65536, 65537] {
            let mut o = vec![]; for _ in 0..n { t_struct(&mut o, 1); } v.push((o, 1));
            let mut o = vec![]; for _ in 0..n { o.push(0); } v.push((o, 1));
            let mut o = vec![]; for _ in 0..n { o.push(0xC0); } v.push((o, 1));
            let mut o = vec![]; t_blob(&mut o, 1, &vec![0; n]); v.push((o, 1));
        }
        v
    })
}

const MODES: u64 = 12; // graceful x field-level x source

fn modes_of(m: u64) -> (bool, bool, u64) { (m & 1 == 1, m & 2 == 2, m / 4) }

impl Bytes {
    fn go<R: Read + Seek + Phys>(&self, mut s: Stream<R>, b: &[u8], graceful: bool, fieldy: bool,
                                 fixed: Option<usize>, ch: &ChRef, st: &mut Stats) -> Res {
        let mut lp = Lp::new(b, graceful);
        s.set_graceful_eof(graceful);
        let mut clears = 0;
        for step in 0..4 * b.len() + 8 {
            // reference step
            let mut want = lp.next();
            if fieldy { while let Ok((Ev::Pad, ..)) = want { want = lp.next(); } }
            st.step(1);
            // the real step, with the blob handled as chosen
            let mut blob: Option<(u64, u64)> = None;
            let mut ob = Ob::None_;
            let mut at = None;
            let r: Result<Res, fourleaf::stream::Error> = if fieldy {
                match s.next_field() {
                    Err(e) => Err(e),
                    Ok(None) => Ok(Ok(())),
                    Ok(Some(f)) => { at = Some((f.pos, f.depth)); ob = obs_field(f, &want, fixed, ch, &mut blob)?; Ok(Ok(())) },
                }
            } else {
                match s.next_element() {
                    Err(e) => Err(e),
                    Ok(Element::EndOfStruct) => { ob = Ob::EndS; Ok(Ok(())) },
                    Ok(Element::EndOfDoc) => { ob = Ob::EndD; Ok(Ok(())) },
                    Ok(Element::Padding) => { ob = Ob::Pad; Ok(Ok(())) },
                    Ok(Element::Exception(mut bl)) => {
                        ob = Ob::Exc(bl.start_pos(), bl.len());
                        blob = Some((bl.start_pos(), bl.len()));
                        Ok(handle(&mut bl, b, fixed, ch))
                    },
                    Ok(Element::Field(mut f)) => {
                        at = Some((f.pos, f.depth));
                        match f.value {
                            Value::Integer(v) => { ob = Ob::Int(f.tag, v); Ok(Ok(())) },
                            Value::Struct(_) => { ob = Ob::Struct(f.tag); Ok(Ok(())) },
                            Value::Enum(d, _) => { ob = Ob::Enum(f.tag, d); Ok(Ok(())) },
                            Value::Blob(ref mut bl) => {
                                ob = Ob::Blob(f.tag, bl.start_pos(), bl.len());
                                blob = Some((bl.start_pos(), bl.len()));
                                Ok(handle(bl, b, fixed, ch))
                            },
                        }
                    },
                }
            };
            let _ = blob;
            match (want, r) {
                (Err(ref p), Err(ref e)) => {
                    ensure!(agrees(p, &ec(e)), "wrong-error", "element {}: expected {:?}, got {:?}", step, p, e);
                    st.out(match p { PErr::Eof => "eof", PErr::Trunc(_) => "truncated", PErr::Overflow => "overflow",
                                     PErr::Overwide => "overwide", PErr::Overlong => "overlong" });
                    st.sig = if matches!(p, PErr::Eof | PErr::Trunc(_)) { 0 } else { 1 };
                    st.trace();
                    return Ok(());
                },
                (Err(p), Ok(_)) => return fail("accepted-malformed", format!(
                    "element {}: input is malformed ({:?}) but parsed as {:?}", step, p, ob)),
                (Ok((Ev::Exc(start, n), ..)), Err(e)) if fieldy => {
                    let have = (b.len() as u64).saturating_sub(start).min(n).min(256);
                    let m = String::from_utf8_lossy(&b[start as usize..(start + have) as usize]).into_owned();
                    match ec(&e) {
                        EC::Exc(ref x) if *x == m => (),
                        EC::Trunc(_) | EC::Eof if start + n > b.len() as u64 => { st.sig = 0; return Ok(()); },
                        ref x => return fail("wrong-exception", format!(
                            "element {}: expected exception {:?}, got {:?}", step, m, x)),
                    }
                    st.out("exception");
                    ensure!(s.pos() == start + have, "pos-after-exception", "position {} after exception, expected {}",
                            s.pos(), start + have);
                },
                (Ok((ev, ..)), Err(e)) => return fail("rejected-wellformed", format!(
                    "element {}: expected {:?}, got error {:?}", step, ev, e)),
                (Ok((ev, pos, depth)), Ok(h)) => {
                    let exp = match ev {
                        Ev::Int(t, v) => Ob::Int(t, v),
                        Ev::Blob(t, s, n) => Ob::Blob(t, s, n),
                        Ev::Struct(t) => Ob::Struct(t),
                        Ev::Enum(t, d) => Ob::Enum(t, d),
                        Ev::EndS | Ev::EndD if fieldy => Ob::None_,
                        Ev::EndS => Ob::EndS,
                        Ev::EndD => Ob::EndD,
                        Ev::Exc(s, n) => Ob::Exc(s, n),
                        Ev::Pad => Ob::Pad,
                    };
                    ensure!(exp == ob, "wrong-element", "element {}: expected {:?}, got {:?}", step, exp, ob);
                    if let Some(a) = at {
                        ensure!(a == (pos, depth), "wrong-field-place",
                                "element {}: field at/depth {:?}, expected {:?}", step, a, (pos, depth));
                    }
                    h?;
                    if let Ev::Blob(_, start, n) | Ev::Exc(start, n) = ev {
                        // Where the handling policy left the stream.
                        ensure!(s.pos() >= start && s.pos() <= start + n, "pos-outside-blob",
                                "position {} outside blob {}+{}", s.pos(), start, n);
                    } else {
                        ensure!(s.pos() == lp.pos, "wrong-pos",
                                "position {} after element {}, expected {}", s.pos(), step, lp.pos);
                    }
                    ensure!(s.get_ref().phys() == s.pos(), "phys-pos", "byte stream at {}, stream says {}",
                            s.get_ref().phys(), s.pos());
                    st.out(match ev { Ev::Int(..) => "integer", Ev::Blob(..) => "blob", Ev::Struct(_) => "struct",
                                      Ev::Enum(..) => "enum", Ev::EndS => "end-struct", Ev::EndD => "end-doc",
                                      Ev::Exc(..) => "exception", Ev::Pad => "padding" });
                },
            }
            ensure!(s.struct_depth() == lp.depth, "wrong-depth", "depth {} after element {}, expected {}",
                    s.struct_depth(), step, lp.depth);
            ensure!(s.eof() == lp.eof, "wrong-eof-flag", "eof {} after element {}", s.eof(), step);
            st.state(hash(&(lp.depth, lp.eof, lp.pos, lp.blob_end, graceful, fieldy, lp.b.get(lp.pos as usize))));
            if lp.eof {
                // Stays at the end, without touching the source, until cleared.
                let phys = s.get_ref().phys();
                let again = if fieldy { s.next_field().map(|f| f.is_none()).unwrap_or(false) }
                            else { matches!(s.next_element(), Ok(Element::EndOfDoc)) };
                ensure!(again && s.get_ref().phys() == phys, "eof-not-sticky", "end of document not sticky");
                clears += 1;
                if lp.pos >= b.len() as u64 || clears > 3 { st.trace(); return Ok(()); }
                s.clear_eof();
                lp.eof = false;
            }
        }
        Ok(())
    }
}

fn obs_field<R: Read + Seek>(mut f: Field<R>, want: &Result<(Ev, u64, u64), PErr>, fixed: Option<usize>, ch: &ChRef,
                             blob: &mut Option<(u64, u64)>) -> Result<Ob, Fail> {
    let _ = want;
    Ok(match f.value {
        Value::Integer(v) => Ob::Int(f.tag, v),
        Value::Struct(_) => Ob::Struct(f.tag),
        Value::Enum(d, _) => Ob::Enum(f.tag, d),
        Value::Blob(ref mut bl) => {
            let o = Ob::Blob(f.tag, bl.start_pos(), bl.len());
            *blob = Some((bl.start_pos(), bl.len()));
            // content is judged through the shared buffer below
            BUF.with(|b| handle(bl, &b.borrow(), fixed, ch))?;
            o
        },
    })
}

thread_local! { static BUF: std::cell::RefCell<Vec<u8>> = const { std::cell::RefCell::new(vec![]) }; }

fn handle<R: Read + Seek>(bl: &mut fourleaf::stream::Blob<R>, b: &[u8], fixed: Option<usize>, ch: &ChRef) -> Res {
    let (start, n) = (bl.start_pos(), bl.len());
    if start > b.len() as u64 { return fail("blob-beyond", "blob starts beyond the input"); }
    let have = (b.len() as u64 - start).min(n);
    let data = &b[start as usize..(start + have) as usize];
    let missing = n - have;
    ensure!(bl.remaining() == n && bl.inner_pos() == 0 && bl.end_pos() == start + n && bl.stream_pos() == start,
            "fresh-blob", "fresh blob has inconsistent positions");
    let p = match fixed { Some(p) => p, None => if n == 0 { 0 } else { ch.borrow_mut().pick(7) } };
    match p {
        0 => (),
        1 => match bl.read_fully(usize::MAX) {
            Ok(v) => ensure!(missing == 0 && v == data, "blob-content", "read_fully gave {} for {} ({} missing)",
                             hx(&v), hx(data), missing),
            Err(e) => ensure!(missing > 0 && ec(&e) == EC::Trunc(missing), "blob-read-error", "read_fully: {:?}, {} missing", e, missing),
        },
        2 => {
            let mut x = [0u8; 1];
            let k = bl.read(&mut x).map_err(|e| Fail { key: "blob-read-io".into(), msg: e.to_string() })?;
            ensure!(k == data.len().min(1) && x[..k] == data[..k], "blob-content", "read one byte: {} {:?}", k, x);
        },
        3 => match bl.read_or_trunc(2) {
            Ok(v) => ensure!(v == &data[..data.len().min(2)], "blob-content", "read_or_trunc(2) gave {}", hx(&v)),
            Err(e) => return fail("blob-read-io", format!("{:?}", e)),
        },
        4 => if missing == 0 {
            let r = bl.seek(SeekFrom::End(0));
            ensure!(r.as_ref().map(|x| *x == n).unwrap_or(false), "blob-seek", "seek to end: {:?}", r);
        },
        5 => {
            let mut v = vec![];
            let mut x = [0u8; 3];
            loop {
                match bl.read(&mut x) {
                    Ok(0) => break,
                    Ok(k) => v.extend_from_slice(&x[..k]),
                    Err(e) => return fail("blob-read-io", format!("{:?}", e)),
                }
            }
            ensure!(v == data, "blob-content", "chunked read gave {}", hx(&v));
        },
        _ => if missing == 0 {
            let v = bl.read_fully(usize::MAX);
            ensure!(v.as_ref().map(|v| v == data).unwrap_or(false), "blob-content", "read_fully {:?}", v);
            let r = bl.seek(SeekFrom::Start(n / 2));
            ensure!(r.as_ref().map(|x| *x == n / 2).unwrap_or(false), "blob-seek", "seek back: {:?}", r);
        },
    }
    Ok(())
}

impl Suite for Bytes {
    fn name(&self) -> &'static str {
        match self.api { Apis::Small => "structural-bytes", Apis::Tokens => "token-sequences", Apis::Raw => "all-bytes", Apis::After => "long-histories" }
    }
    fn bounds(&self, t: Tier) -> String {
        match self.api {
            Apis::Small => format!("all strings of length <= {} over {} structural bytes (extensions of a string already \
                rejected are pruned: the parser cannot see them), 12 modes (graceful eof x element/field API x slice/reader/seekable)",
                t.q(5, 6), ALPHA.len()),
            Apis::Tokens => format!("all sequences of <= {} of {} tokens x all choices of 7 blob handling policies x 12 modes",
                t.q(4, 5), tokens().len()),
            Apis::After => format!("{} prefixes (nesting of 4..300 and 65537 structs or enums, up to 257 and 65537 integers, blobs, paddings, end markers) x all sequences of <= 2 (<= 1 after the longest) of {} tokens x 2 blob policies x 12 modes", prefixes().len(), tokens().len()),
            Apis::Raw => format!("all byte strings of length <= {}, 2 modes", t.q(2, 3)),
        }
    }
    fn units(&self, _t: Tier) -> usize {
        match self.api { Apis::Small => ALPHA.len() * MODES as usize, Apis::Tokens => tokens().len() * MODES as usize, Apis::Raw => 512, Apis::After => prefixes().len() * MODES as usize }
    }
    fn unit(&self, u: usize, t: Tier, cx: &mut Cx) {
        let m = match self.api { Apis::Raw => (u & 1) as u64 * 2 + ((u >> 1) & 1) as u64, _ => u as u64 % MODES };
        match self.api {
            Apis::Small => {
                // policy is part of the mode here: ignore or read
                for pol in [0u64, 5] {
                    let max = t.q(5, 6);
                    let mut stack = vec![vec![ALPHA[u / MODES as usize]]];
                    if u / MODES as usize == 0 { cx.run(self, Case::b(self.name(), &[m, pol], &[])); }
                    while let Some(b) = stack.pop() {
                        if cx.stopped() || cx.past_deadline() { return; }
                        let dead = cx.run(self, Case::b(self.name(), &[m, pol], &b)) == 1;
                        if dead || b.len() >= max { continue; }
                        for a in ALPHA { let mut c = b.clone(); c.push(a); stack.push(c); }
                    }
                }
            },
            Apis::Raw => {
                let first = (u / 2) as u8;
                let max = t.q(2, 3);
                let mut stack = vec![vec![first]];
                while let Some(b) = stack.pop() {
                    if cx.stopped() || cx.past_deadline() { return; }
                    let dead = cx.run(self, Case::b(self.name(), &[m, 5], &b)) == 1;
                    if dead || b.len() >= max { continue; }
                    for a in 0..=255u8 { let mut c = b.clone(); c.push(a); stack.push(c); }
                }
            },
            Apis::After => {
                let tk = tokens();
                let (ref p, max) = prefixes()[u / MODES as usize];
                for pol in [0u64, 5] {
                    let mut stack = vec![(p.clone(), 0)];
                    while let Some((b, n)) = stack.pop() {
                        if cx.stopped() || cx.past_deadline() { return; }
                        cx.run(self, Case::b(self.name(), &[m, pol], &b));
                        if n < max { for a in &tk { let mut c = b.clone(); c.extend_from_slice(a); stack.push((c, n + 1)); } }
                    }
                }
            },
            Apis::Tokens => {
                let tk = tokens();
                let max = t.q(4, 5);
                let mut stack = vec![(tk[u / MODES as usize].clone(), 1)];
                while let Some((b, n)) = stack.pop() {
                    if cx.stopped() || cx.past_deadline() { return; }
                    let mut c = Case::b(self.name(), &[m, 99], &b);
                    c.ch = vec![];
                    cx.explore(self, c, 0);
                    if n < max { for a in &tk { let mut c = b.clone(); c.extend_from_slice(a); stack.push((c, n + 1)); } }
                }
            },
        }
    }
    fn exec(&self, c: &Case, ch: &ChRef, st: &mut Stats) -> Res {
        let (g, f, src) = modes_of(c.ints[0]);
        let fixed = if c.ints[1] == 99 { None } else { Some(c.ints[1] as usize) };
        BUF.with(|b| { let mut b = b.borrow_mut(); b.clear(); b.extend_from_slice(&c.bytes); });
        match src {
            0 => self.go::<TransparentCursor<&[u8]>>(Stream::from_slice(&c.bytes[..]), &c.bytes, g, f, fixed, ch, st),
            1 => self.go(Stream::new(EnvRd::plain(&c.bytes)), &c.bytes, g, f, fixed, ch, st),
            _ => self.go(Stream::new_seek(EnvRd::plain(&c.bytes)), &c.bytes, g, f, fixed, ch, st),
        }
    }
    fn show(&self, c: &Case) -> String {
        let (g, f, src) = modes_of(c.ints[0]);
        format!("bytes={} graceful={} api={} source={} blob-policy={:?} choices={:?}", hx(&c.bytes), g,
                if f { "next_field" } else { "next_element" }, ["slice", "reader", "seekable reader"][src as usize], c.ints[1], c.ch)
    }
}

pub fn check() -> Check {
    Check { id: "C03", level: "model_checking",
        rule: "Every input is parsed step by step by the real Stream and by an independent reference parser; each element, \
               offset, depth, flag, position and error is compared.",
        suites: vec![Box::new(Bytes { api: Apis::Small }), Box::new(Bytes { api: Apis::Tokens }), Box::new(Bytes { api: Apis::Raw }), Box::new(Bytes { api: Apis::After }),
                     Box::new(crate::c04::Kinds), Box::new(crate::c04::Descs)] }
}
