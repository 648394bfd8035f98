//! C12 delivery of input, C13 acceptance of output.

use crate::cat::*;
use crate::cut::doc;
use crate::dec::*;
use crate::run::*;
use fourleaf::de;
use fourleaf::stream::{Element, Stream, Value};
use mc::ensure;
use mc::env::*;
use mc::eng::*;
use mc::model::*;
use mc::sut::*;
use mc::wire::*;
use std::io::{Read, Seek, SeekFrom, Write};

// ------------------------------------------------------------------ C12
const MODES: [usize; 5] = [READER, ENV, ENV_SEEK, ENV_GRACEFUL, ENV_SEEK_GRACEFUL];

/// Documents to deliver: (level, index, variant, place, cut or MAX)
fn inputs(t: &TyD, rich: bool) -> Vec<[u64; 5]> {
    let mut o = vec![];
    for l in 0..(if rich { 2 } else { 1 }) { for i in 0..(t.n)(l as u8) as u64 {
        if encode(&t.sch, &(t.val)(l as u8, i as usize)).len() > if l == 0 { 120 } else { 60 } { continue; }
        for (var, place) in [(0u64, 0u64), (2, 0), (2, 1), (4, 0)] {
            if (l == 1 || i > 1) && var != 0 { continue; }
            let n = doc(t, l as u8, i as usize, var, place).len() as u64;
            o.push([l, i, var, place, u64::MAX]);
            // broken documents
            for c in [n - 1, n / 2] { o.push([l, i, var, place, c]); }
        }
    } }
    o
}

fn input(t: &TyD, c: &Case) -> Vec<u8> {
    let mut b = doc(t, c.ints[1] as u8, c.ints[2] as usize, c.ints[3], c.ints[4]);
    if c.ints[5] == u64::MAX { b.extend_from_slice(TAIL) } else { b.truncate(c.ints[5] as usize) }
    b
}

fn same(t: &TyD, what: &str, a: &Got, b: &Got) -> Res {
    match (&a.res, &b.res) {
        (Ok(x), Ok(y)) => ensure!(canon(&t.sch, x) == canon(&t.sch, y), format!("value:{}", t.name), "{}: {} instead of {}", what, sv(y), sv(x)),
        (Err(x), Err(y)) => ensure!(rk(x) == rk(y), format!("error:{}", t.name), "{}: fails with {:?} instead of {:?}", what, y, x),
        (x, y) => return fail(format!("outcome:{}", t.name), format!("{}: {:?} instead of {:?}", what, y, x)),
    }
    ensure!(a.pos == b.pos, format!("position:{}", t.name), "{}: stream at {:?} instead of {:?}", what, b.pos, a.pos);
    ensure!(a.phys == b.phys, format!("consumed:{}", t.name), "{}: source at {:?} instead of {:?}", what, b.phys, a.phys);
    ensure!(a.eof == b.eof, format!("eof:{}", t.name), "{}: eof {} instead of {}", what, b.eof, a.eof);
    Ok(())
}

fn lims(k: u64) -> Lim { if k == 0 { Lim::wide() } else { Lim::strict() } }

fn seek_error(g: &Got) -> bool { matches!(g.res, Err(ref e) if matches!(rk(e).0, RK::Stream(EC::Io(_, ref m)) if m == "not seekable")) }

pub struct Script { pub hard: bool }
impl Suite for Script {
    fn name(&self) -> &'static str { if self.hard { "hard-errors" } else { "short-and-interrupted" } }
    fn bounds(&self, tier: Tier) -> String {
        format!("{} types x values of level {} (some with skipped fields, whole and cut twice) x from_reader, plain and seekable streams with and without graceful end of file x all scripts with at most {} \
                 among {} at any read{}; after a hard error the stream must know where the source is", catalog().len(), tier.q("0", "0..1"),
                 if self.hard { tier.q("one hard error and one other deviation", "one hard error and one other deviation") } else { tier.q("2 deviations", "3 deviations (2 on level 1)") },
                 if self.hard { "{hard error, one byte, interrupted}" } else { "{one byte, interrupted}" }, " and failures of any seek")
    }
    fn units(&self, _: Tier) -> usize { catalog().len() }
    fn unit(&self, u: usize, tier: Tier, cx: &mut Cx) {
        let t = &catalog()[u];
        for x in inputs(t, tier.thorough()) { for mode in MODES {
            if !supports(t, mode) || cx.past_deadline() { continue; }
            let mut n = vec![u as u64];
            n.extend_from_slice(&x);
            n.push(mode as u64);
            // Long chains of reads at one deviation less.
            let base = if tier.thorough() && !self.hard && x[0] == 0 && x[4] == u64::MAX && x[2] != 4 && input(t, &Case::new("", &n)).len() < 24 { 3 } else { 2 };
            cx.explore(self, Case::new(self.name(), &n), base);
        } }
    }
    fn exec(&self, c: &Case, ch: &ChRef, st: &mut Stats) -> Res {
        let t = &catalog()[c.ints[0] as usize];
        let b = input(t, c);
        let mode = c.ints[6] as usize;
        let lim = Lim::wide();
        let plain = decode(t, mode, &b, &lim);
        let mut src = None;
        let mask = SHORT | INTR | SEEKERR | if self.hard { HARD } else { 0 };
        let g = decode_env(t, mode, &b, &lim, |b| { let e = EnvRd::new(b, mask, Some(ch.clone())); src = Some(e.clone()); e });
        let src = src.unwrap();
        let s = src.0.borrow();
        st.step(s.reads);
        st.state(hash(&(c.ints.clone(), ch.borrow().pts.clone())));
        let what = format!("{} from {} via {} with script {:?}", t.name, hx(&b), MODE_NAMES[mode], ch.borrow().pts.iter().map(|p| p.1).collect::<Vec<_>>());
        if s.hard > 0 {
            match g.res {
                Err(ref e) => match rk(e).0 {
                    RK::Stream(EC::Io(_, ref m)) if m == HARD_MSG => (),
                    ref o => return fail(format!("hard-error-lost:{}", t.name), format!("{}: the source failed, the error is {:?}", what, o)),
                },
                Ok(ref v) => return fail(format!("hard-error-ignored:{}", t.name), format!("{}: the source failed, the result is {}", what, sv(v))),
            }
            ensure!(s.hard == 1, format!("hard-error-retried:{}", t.name), "{}: {} hard errors", what, s.hard);
            if let Some(p) = g.pos { ensure!(p == s.pos, format!("position-after-error:{}", t.name), "{}: the source is at {}, the stream at {}", what, s.pos, p); }
            st.out("hard-error");
        } else if s.seek_fails > 0 && seek_error(&g) && matches!(plain.res, Err(ref e) if matches!(rk(e).0, RK::Stream(EC::Trunc(_)))) {
            // The end of the input could not be located: also a failure.
            st.out("refused:seek-failed");
        } else {
            same(t, &what, &plain, &g)?;
            if g.res.is_ok() {
                ensure!(s.max_off <= g.phys.unwrap(), format!("overread:{}", t.name), "{}: bytes up to {} were read, the value ends at {}", what, s.max_off, g.phys.unwrap());
                st.out(if s.seek_fails > 0 { "value:seek-failed" } else { "value" });
            } else { st.out("refused"); }
        }
        st.trace();
        Ok(())
    }
    fn show(&self, c: &Case) -> String { let t = &catalog()[c.ints[0] as usize]; format!("{} from {} via {}", t.name, hx(&input(t, c)), MODE_NAMES[c.ints[6] as usize]) }
}

const UNIFORM: [(u8, &str); 5] = [(ALWAYS_SHORT, "one byte per read"), (ALWAYS_INTR, "every other read interrupted"), (ALWAYS_SHORT | ALWAYS_INTR, "both"),
    (NOSEEK, "no seeking"), (NOSEEK | ALWAYS_SHORT | ALWAYS_INTR, "everything")];
pub struct Uniform;
impl Suite for Uniform {
    fn name(&self) -> &'static str { "uniform-sources" }
    fn bounds(&self, tier: Tier) -> String {
        format!("{} types x values of levels {} (also with long skipped blobs, and cut) x 5 kinds of source (one byte per read, every other read interrupted, both, failing seeks, everything) \
                 x 5 modes x {{ignore, reject unknown fields}}, against the plain source", catalog().len(), tier.q("0..1", "0..2"))
    }
    fn units(&self, _: Tier) -> usize { catalog().len() }
    fn unit(&self, u: usize, tier: Tier, cx: &mut Cx) {
        let t = &catalog()[u];
        for l in 0..tier.q(2, 3) { for i in 0..(t.n)(l) { for (var, place) in [(0, 0), (2, 0), (4, 1)] {
            let n = doc(t, l, i, var, place).len() as u64;
            for cut in [u64::MAX, n - 1, n / 2] { for k in 0..UNIFORM.len() { for lim in 0..2 {
                cx.run(self, Case::new("uniform-sources", &[u as u64, l as u64, i as u64, var, place, cut, k as u64, lim]));
            } } }
        } if cx.past_deadline() { return; } } }
    }
    fn exec(&self, c: &Case, _: &ChRef, st: &mut Stats) -> Res {
        let t = &catalog()[c.ints[0] as usize];
        let b = input(t, c);
        let (mask, kind) = UNIFORM[c.ints[6] as usize];
        let lim = lims(c.ints[7]);
        st.state(hash(&c.ints));
        for mode in MODES {
            if !supports(t, mode) { continue; }
            let plain = decode(t, mode, &b, &lim);
            let mut max = None;
            let g = decode_env(t, mode, &b, &lim, |b| { let e = EnvRd::new(b, mask, None); max = Some(e.clone()); e });
            st.step(max.as_ref().unwrap().0.borrow().reads);
            let what = format!("{} from {} via {} on a source with {}", t.name, hx(&b), MODE_NAMES[mode], kind);
            same(t, &what, &plain, &g)?;
            if g.res.is_ok() {
                let m = max.unwrap().0.borrow().max_off;
                ensure!(m <= g.phys.unwrap(), format!("overread:{}", t.name), "{}: bytes up to {} were read, the value ends at {}", what, m, g.phys.unwrap());
            }
        }
        st.out(kind);
        st.trace();
        Ok(())
    }
    fn show(&self, c: &Case) -> String { let t = &catalog()[c.ints[0] as usize]; format!("{} from {} on {}", t.name, hx(&input(t, c)), UNIFORM[c.ints[6] as usize].1) }
}

/// Reading at the stream level.
pub struct Ops;
const OPS: [&str; 13] = ["next_element", "next_field", "next_field, skip", "next_field, read 1", "next_field, read all", "next_field, fill_buf/consume 2", "next_field, read to end, rewind",
    "next_element, read 2", "next_element, skip blob", "skip_up(0)", "skip_up(1)", "commit", "decode u8"];
fn op_docs() -> Vec<Vec<u8>> {
    let mut v = vec![];
    let mut p = |f: &dyn Fn(&mut Vec<u8>)| { let mut o = vec![]; f(&mut o); v.push(o); };
    p(&|o| { t_int(o, 1, 300); t_blob(o, 2, b"\x00\x41\xc3"); t_int(o, 1, 7); o.push(0); t_int(o, 1, 9); o.push(0); });
    p(&|o| { t_struct(o, 1); t_blob(o, 1, b"\x00\x40\x00\x00"); o.push(0xC0); t_enum(o, 2, 300); t_blob(o, 1, b""); o.push(0); o.push(0); t_int(o, 1, 5); o.push(0x40); t_int(o, 2, 2); });
    p(&|o| { o.push(0x80); put_int(o, 4); o.extend_from_slice(b"\x00err"); t_int(o, 1, 5); o.push(0); });
    p(&|o| { t_blob(o, 1, &[0x40; 300]); t_struct(o, 3); t_blob(o, 1, &[0; 200]); o.push(0); o.push(0); });
    p(&|o| { t_struct(o, 1); t_int(o, 1, 1); o.push(0x81); put_int(o, 6); o.extend_from_slice(b"\x00\x00\x00"); });
    p(&|o| { t_struct(o, 1); t_struct(o, 2); t_int(o, 3, 1 << 60); });
    v
}
type Log = Vec<(String, u64, u64, bool)>;
fn hard_io(e: &std::io::Error) -> String { format!("{:?}:{}", e.kind(), e) }
fn again<T>(mut f: impl FnMut() -> std::io::Result<T>) -> std::io::Result<T> {
    loop { match f() { Err(ref e) if e.kind() == std::io::ErrorKind::Interrupted => (), r => return r } }
}
fn show_err(e: &fourleaf::stream::Error) -> String { format!("error {:?}", ec(e)) }

fn program(mut s: Stream<EnvRd>, ops: &[u64], seekable: bool) -> Log {
    let mut log = vec![];
    let mut over = false;
    for &op in ops {
        let mut dead = false;
        let r: String = (|| {
            let mut from = |r: &mut dyn BlobLike, how: u64| -> String {
                let mut buf = [0u8; 4];
                let x = match how {
                    1 => again(|| r.read(&mut buf[..1])).map(|n| buf[..n].to_vec()),
                    2 => r.read_exact(&mut buf[..2]).map(|_| buf[..2].to_vec()),
                    4 => { let mut v = vec![]; r.read_to_end(&mut v).map(|_| v) },
                    6 => { let mut v = vec![]; r.read_to_end(&mut v).and_then(|_| if seekable { again(|| r.seek(SeekFrom::Start(0))).map(|_| v) } else { Ok(v) }) },
                    _ => Ok(vec![]),
                };
                match x { Ok(v) => hx(&v), Err(e) => { dead = true; hard_io(&e) } }
            };
            match op {
                1..=6 => match s.next_field() {
                    Err(e) => { dead = true; show_err(&e) },
                    Ok(None) => "end".into(),
                    Ok(Some(mut f)) => {
                        let h = format!("field {} {:?} ", f.tag, f.value.value_type_name());
                        match (op, &mut f.value) {
                            (2, _) => match f.skip() { Ok(()) => h + "skipped", Err(e) => { dead = true; h + &show_err(&e) } },
                            (_, Value::Integer(n)) => format!("{}{}", h, n),
                            (_, Value::Enum(d, _)) => format!("{}{}", h, d),
                            (_, Value::Struct(_)) => h,
                            (5, Value::Blob(b)) => {
                                let mut v = vec![];
                                while v.len() < 2 {
                                    let mut c = [0; 2];
                                    match again(|| b.read(&mut c[..2 - v.len()])) { Ok(0) => break, Ok(n) => v.extend_from_slice(&c[..n]), Err(e) => { dead = true; return hard_io(&e); } }
                                }
                                format!("{} {} {}", h, hx(&v), b.remaining())
                            },
                            (k, Value::Blob(b)) => { let x = from(b, match k { 3 => 1, k => k }); format!("{} {} {}", h, x, b.remaining()) },
                        }
                    },
                },
                0 | 7 | 8 => match s.next_element() {
                    Err(e) => { dead = true; show_err(&e) },
                    Ok(Element::Exception(mut b)) => { let x = from(&mut b, if op == 7 { 2 } else { 0 }); format!("exception {} {}", x, b.len()) },
                    Ok(Element::Field(mut f)) => {
                        let h = format!("field {} {:?} ", f.tag, f.value.value_type_name());
                        if let Value::Blob(ref mut b) = f.value { if op == 7 { let x = from(b, 2); return format!("{} {}", h, x); } }
                        if op == 8 { return match f.skip() { Ok(()) => h + "skipped", Err(e) => { dead = true; h + &show_err(&e) } }; }
                        h
                    },
                    Ok(Element::EndOfStruct) => "end of struct".into(),
                    Ok(Element::EndOfDoc) => "end of doc".into(),
                    Ok(Element::Padding) => "padding".into(),
                },
                9 | 10 => match s.skip_up(op - 9) { Ok(()) => "skipped up".into(), Err(e) => { dead = true; show_err(&e) } },
                11 => match s.commit() { Ok(()) => "committed".into(), Err(e) => { dead = true; show_err(&e) } },
                _ => match de::from_stream_copy::<_, u8>(&mut s, &conf(&Lim::wide())) {
                    Ok(n) => format!("decoded {}", n),
                    Err(e) => { if let de::Error::Stream(..) = e { dead = true; } format!("{:?}", rk(&e).0) },
                },
            }
        })();
        // The source position is compared once nothing is pending.
        log.push((format!("{}: {}", OPS[op as usize], r), s.pos(), s.struct_depth(), s.eof()));
        if dead { over = true; break; }
    }
    if !over {
        let r = s.commit();
        log.push((format!("commit {:?}", r.as_ref().map_err(ec)), s.pos(), s.get_ref().pos(), r.is_ok()));
    }
    log
}
trait BlobLike: Read + Seek {}
impl<T: Read + Seek> BlobLike for T {}
trait TypeName { fn value_type_name(&self) -> &'static str; }
impl<'d, R> TypeName for Value<'d, R> {
    fn value_type_name(&self) -> &'static str { match *self { Value::Integer(_) => "int", Value::Blob(_) => "blob", Value::Struct(_) => "struct", Value::Enum(..) => "enum" } }
}

impl Suite for Ops {
    fn name(&self) -> &'static str { "stream-operations" }
    fn bounds(&self, tier: Tier) -> String {
        format!("6 documents x plain and seekable streams x all programs of {} of {} reading operations x all scripts with at most 2 deviations among {{one byte, interrupted, hard error}} at any read and failures of any seek; \
                 each script against the run without deviations", tier.q("1..2", "1..3"), OPS.len())
    }
    fn units(&self, _: Tier) -> usize { op_docs().len() * 2 * OPS.len() }
    fn unit(&self, u: usize, tier: Tier, cx: &mut Cx) {
        let no = OPS.len() as u64;
        let (d, seek, op) = ((u / 2 / OPS.len()) as u64, (u / OPS.len() % 2) as u64, (u % OPS.len()) as u64);
        let mut progs = vec![vec![op]];
        for a in 0..no {
            progs.push(vec![op, a]);
            if tier.thorough() { for b in 0..no { progs.push(vec![op, a, b]); } }
        }
        for p in progs {
            let mut n = vec![d, seek];
            n.extend_from_slice(&p);
            cx.explore(self, Case::new("stream-operations", &n), 2);
            if cx.past_deadline() { return; }
        }
    }
    fn exec(&self, c: &Case, ch: &ChRef, st: &mut Stats) -> Res {
        thread_local! { static D: Vec<Vec<u8>> = op_docs(); }
        let doc = D.with(|d| d[c.ints[0] as usize].clone());
        let seek = c.ints[1] == 1;
        let mk = |e: EnvRd| if seek { Stream::new_seek(e) } else { Stream::new(e) };
        let plain = program(mk(EnvRd::plain(&doc)), &c.ints[2..], seek);
        let env = EnvRd::new(&doc, SHORT | INTR | HARD | if seek { SEEKERR } else { 0 }, Some(ch.clone()));
        let got = program(mk(env.clone()), &c.ints[2..], seek);
        let s = env.0.borrow();
        st.step(s.reads);
        st.state(hash(&(&c.ints, format!("{:?}", got), s.pos)));
        let what = format!("{:?} on {} with script {:?}", c.ints[2..].iter().map(|o| OPS[*o as usize]).collect::<Vec<_>>(), hx(&doc), ch.borrow().pts.iter().map(|p| p.1).collect::<Vec<_>>());
        // An explicit rewind needs the seek; nothing else does.
        let asked = s.seek_fails > 0 && got.iter().any(|l| l.0.contains("not seekable"));
        if s.hard > 0 || asked {
            let last = got.last().unwrap();
            ensure!(asked || last.0.contains(HARD_MSG), "hard-error-lost", "{}: the source failed but the program reports {:?}", what, got);
            let truncated = plain.len() >= got.len() && plain[got.len() - 1].0.contains("Trunc");
            ensure!(!asked || truncated || got.iter().any(|l| l.0.contains("rewind")), "seek-needed", "{}: a failing seek surfaces in {:?}", what, got);
            let n = got.len() - 1;
            ensure!(got[..n] == plain[..n], "before-the-error", "{}: {:?} instead of {:?}", what, &got[..n], &plain[..n]);
            st.out("hard-error");
        } else {
            ensure!(got == plain, "delivery", "{}: {:?} instead of {:?}", what, got, plain);
            st.out("same");
        }
        st.trace();
        Ok(())
    }
    fn show(&self, c: &Case) -> String {
        format!("{} {}: {:?}", if c.ints[1] == 1 { "seekable" } else { "plain" }, hx(&op_docs()[c.ints[0] as usize]), c.ints[2..].iter().map(|o| OPS[*o as usize]).collect::<Vec<_>>())
    }
}

pub fn c12() -> Check {
    Check { id: "C12", level: "model_checking", rule: "Every script of the byte source up to the deviation bound is executed on the real decoder; the outcome must be that of the undisturbed source, or the source's own error.",
            suites: vec![Box::new(Script { hard: false }), Box::new(Script { hard: true }), Box::new(Uniform), Box::new(Ops)] }
}

// ------------------------------------------------------------------ C13
pub struct Sinks;
impl Suite for Sinks {
    fn name(&self) -> &'static str { "scripted-sinks" }
    fn bounds(&self, tier: Tier) -> String {
        format!("{} types x values of levels {} up to {} bytes x to_writer and to_stream x all scripts with at most 2 deviations among {{one byte, interrupted, nothing accepted, hard error}} at any write",
                catalog().len(), tier.q("0..1", "0..2"), tier.q(80, 400))
    }
    fn units(&self, _: Tier) -> usize { catalog().len() }
    fn unit(&self, u: usize, tier: Tier, cx: &mut Cx) {
        let t = &catalog()[u];
        if t.to_writer.is_none() { return; }
        for l in 0..tier.q(2, 3) { for i in 0..(t.n)(l) {
            if encode(&t.sch, &(t.val)(l, i)).len() > tier.q(80, 400) || cx.past_deadline() { continue; }
            for how in 0..2 { cx.explore(self, Case::new("scripted-sinks", &[u as u64, l as u64, i as u64, how]), 2); }
        } }
    }
    fn exec(&self, c: &Case, ch: &ChRef, st: &mut Stats) -> Res {
        let t = &catalog()[c.ints[0] as usize];
        let (l, i) = (c.ints[1] as u8, c.ints[2] as usize);
        sink(t, l, i, c.ints[3], EnvWr::new(SHORT | INTR | HARD | ZERO, Some(ch.clone())), st,
             &|| format!("{} = {} with script {:?}", t.name, sv(&(t.val)(l, i)), ch.borrow().pts.iter().map(|p| p.1).collect::<Vec<_>>()))?;
        st.state(hash(&(&c.ints, &ch.borrow().pts)));
        Ok(())
    }
    fn show(&self, c: &Case) -> String { let t = &catalog()[c.ints[0] as usize]; format!("{} = {}", t.name, sv(&(t.val)(c.ints[1] as u8, c.ints[2] as usize))) }
}

fn sink(t: &TyD, l: u8, i: usize, how: u64, w: EnvWr, st: &mut Stats, what: &dyn Fn() -> String) -> Res {
    // (hash-based collections: whatever order they are written in)
    let want = (t.to_vec)(l, i).map_err(|e| Fail { key: format!("to_vec:{}", t.name), msg: format!("{}: {}", t.name, e) })?;
    let how_s = if how == 0 { "to_writer" } else { "to_stream" };
    let r = if how == 0 { (t.to_writer.unwrap())(l, i, w.clone()) } else {
        let mut s = Stream::new(w.clone());
        let r = (t.to_stream.unwrap())(l, i, &mut s);
        if r.is_ok() { ensure!(s.pos() == w.data().len() as u64, format!("position:{}", t.name), "{} via {}: {} bytes written, stream at {}", what(), how_s, w.data().len(), s.pos()); }
        r
    };
    let s = w.0.borrow();
    st.step(s.calls);
    if s.hard + s.zero > 0 {
        match r {
            Ok(()) => return fail(format!("failure-ignored:{}", t.name), format!("{} via {}: the sink failed, success is reported", what(), how_s)),
            Err(ref e) => match ec(e) {
                EC::Io(_, ref m) if s.hard > 0 && m == HARD_MSG => st.out("hard-error"),
                EC::Io(std::io::ErrorKind::WriteZero, _) if s.zero > 0 => st.out("write-zero"),
                x => return fail(format!("wrong-error:{}", t.name), format!("{} via {}: {:?}", what(), how_s, x)),
            },
        }
        ensure!(want.starts_with(&s.data), format!("not-a-prefix:{}", t.name), "{} via {}: the sink holds {}, the encoding is {}", what(), how_s, hx(&s.data), hx(&want));
    } else {
        ensure!(r.is_ok(), format!("refused:{}", t.name), "{} via {}: {:?}", what(), how_s, r);
        ensure!(s.data == want, format!("bytes:{}", t.name), "{} via {}: {} instead of {}", what(), how_s, hx(&s.data), hx(&want));
        st.out("delivered");
    }
    st.trace();
    Ok(())
}

pub struct UniformSinks;
impl Suite for UniformSinks {
    fn name(&self) -> &'static str { "uniform-sinks" }
    fn bounds(&self, _: Tier) -> String {
        format!("{} types x values of levels 0..2 x {{one byte per write, every other write interrupted, both}} x to_writer and to_stream", catalog().len())
    }
    fn units(&self, _: Tier) -> usize { catalog().len() }
    fn unit(&self, u: usize, _: Tier, cx: &mut Cx) {
        let t = &catalog()[u];
        if t.to_writer.is_none() { return; }
        for l in 0..3 { for i in 0..(t.n)(l) { for k in 0..3 { for how in 0..2 {
            cx.run(self, Case::new("uniform-sinks", &[u as u64, l as u64, i as u64, k, how]));
        } } } }
    }
    fn exec(&self, c: &Case, _: &ChRef, st: &mut Stats) -> Res {
        let t = &catalog()[c.ints[0] as usize];
        let (l, i) = (c.ints[1] as u8, c.ints[2] as usize);
        let (mask, kind) = UNIFORM[c.ints[3] as usize];
        st.state(hash(&c.ints));
        sink(t, l, i, c.ints[4], EnvWr::new(mask, None), st, &|| format!("{} = {} into a sink with {}", t.name, sv(&(t.val)(l, i)), kind))
    }
}

/// Programs of writer calls.
pub struct Writers;
const WOPS: [&str; 15] = ["write_u64", "write_blob_data", "write_blob_alloc + writes", "write_blob_dynamic + writes", "write_blob_dynamic unused", "write_exception_data",
    "write_exception_dynamic + write", "write_struct/end", "write_enum", "write_end_struct", "write_padding", "pad_to_align(16)", "write_element(blob)", "commit", "write_field(blob)"];
/// Ranges of the output which are written twice.
fn wprogram(s: &mut Stream<EnvWr>, ops: &[u64], patched: &mut Vec<(u64, u64)>) -> Result<(), String> {
    let io = |e: std::io::Error| hard_io(&e);
    let se = |e: fourleaf::stream::Error| show_err(&e);
    for &op in ops {
        match op {
            0 => s.write_u64(1, 300).map_err(se)?,
            1 => { s.write_blob_data(2, b"\x00ab").map_err(se)?; },
            2 => { let mut b = s.write_blob_alloc(3, 5).map_err(se)?; b.write_all(b"ab").map_err(io)?; b.write_all(b"cde").map_err(io)?; },
            3 => { let p = s.pos(); patched.push((p + 1, p + 11)); let mut b = s.write_blob_dynamic(4).map_err(se)?; b.write_all(b"abc").map_err(io)?; b.write_all(b"").map_err(io)?; b.write_all(b"d").map_err(io)?; },
            4 => { let p = s.pos(); patched.push((p + 1, p + 11)); s.write_blob_dynamic(5).map_err(se)?; },
            5 => { s.write_exception_data(b"no").map_err(se)?; },
            6 => { let p = s.pos(); patched.push((p + 1, p + 11)); let mut b = s.write_exception_dynamic().map_err(se)?; b.write_all(b"oops").map_err(io)?; },
            7 => { s.write_struct(6).map_err(se)?; s.write_end_struct().map_err(se)?; },
            8 => s.write_enum(7, 200).map_err(se)?,
            9 => s.write_end_struct().map_err(se)?,
            10 => s.write_padding().map_err(se)?,
            11 => s.pad_to_align(16).map_err(se)?,
            12 | 14 => {
                // 20 000 bytes cross the copy buffer
                let mut o = vec![];
                t_blob(&mut o, 8, &[0x33; 20_000]);
                let mut r = Stream::new(std::io::Cursor::new(o));
                if op == 12 { let mut e = r.next_element().unwrap(); s.write_element(&mut e).map_err(se)?; }
                else { let mut f = r.next_field().unwrap().unwrap(); s.write_field(&mut f).map_err(se)?; }
            },
            _ => s.commit().map_err(se)?,
        }
    }
    s.commit().map_err(se)
}
impl Suite for Writers {
    fn name(&self) -> &'static str { "writer-programs" }
    fn bounds(&self, tier: Tier) -> String {
        format!("all programs of {} of {} writer calls x all scripts with at most {} deviations among {{one byte, interrupted, nothing accepted, hard error}} at any write and failures of any seek",
                tier.q("1..2", "1..3"), WOPS.len(), tier.q("2", "2 (3 for single calls)"))
    }
    fn units(&self, _: Tier) -> usize { WOPS.len() }
    fn unit(&self, u: usize, tier: Tier, cx: &mut Cx) {
        let no = WOPS.len() as u64;
        let mut progs = vec![vec![u as u64]];
        for a in 0..no { progs.push(vec![u as u64, a]); if tier.thorough() { for b in 0..no { progs.push(vec![u as u64, a, b]); } } }
        for p in progs { cx.explore(self, Case::new("writer-programs", &p), if p.len() == 1 && tier.thorough() { 3 } else { 2 }); if cx.past_deadline() { return; } }
    }
    fn exec(&self, c: &Case, ch: &ChRef, st: &mut Stats) -> Res {
        let plain = EnvWr::plain();
        let mut patched = vec![];
        let r = wprogram(&mut Stream::new(plain.clone()), &c.ints, &mut patched);
        ensure!(r.is_ok(), "refused", "{:?}: {:?}", c.ints, r);
        let want = plain.data();
        // independently: what it should be
        let mut want2: Vec<u8> = vec![];
        for op in &c.ints {
            let o = &mut want2;
            let dynb = |o: &mut Vec<u8>, d: u8, b: &[u8]| { o.push(d); put_fixed(o, b.len() as u64); o.extend_from_slice(b); };
            match op {
                0 => t_int(o, 1, 300), 1 => t_blob(o, 2, b"\x00ab"), 2 => t_blob(o, 3, b"abcde"), 3 => dynb(o, 0x84, b"abcd"), 4 => dynb(o, 0x85, b""),
                5 => { o.push(0x80); put_int(o, 2); o.extend_from_slice(b"no"); }, 6 => dynb(o, 0x80, b"oops"), 7 => { t_struct(o, 6); o.push(0) }, 8 => t_enum(o, 7, 200),
                9 => o.push(0), 10 => o.push(0xC0), 11 => while o.len() % 16 != 0 { o.push(0xC0) }, 12 | 14 => t_blob(o, 8, &[0x33; 20_000]), _ => (),
            }
        }
        ensure!(want == want2, "program-bytes", "{:?}: {} instead of {}", c.ints.iter().map(|o| WOPS[*o as usize]).collect::<Vec<_>>(), hx(&want), hx(&want2));
        let w = EnvWr::new(SHORT | INTR | HARD | ZERO | SEEKERR, Some(ch.clone()));
        let mut s = Stream::new(w.clone());
        let r = wprogram(&mut s, &c.ints, &mut vec![]);
        let pos = s.pos();
        let d = w.0.borrow();
        st.step(d.calls);
        st.state(hash(&(&c.ints, &ch.borrow().pts)));
        let what = || format!("{:?} with script {:?}", c.ints.iter().map(|o| WOPS[*o as usize]).collect::<Vec<_>>(), ch.borrow().pts.iter().map(|p| p.1).collect::<Vec<_>>());
        if d.hard + d.zero + d.seek_fails > 0 {
            ensure!(r.is_err(), "failure-ignored", "{}: the sink failed, success is reported", what());
            let e = r.unwrap_err();
            ensure!(pos == d.pos as u64, "position", "{}: after the failure the sink is at {}, the stream at {}", what(), d.pos, pos);
            ensure!(e.contains(HARD_MSG) || e.contains("WriteZero"), "wrong-error", "{}: {}", what(), e);
            ensure!(d.data.len() <= want.len(), "not-a-prefix", "{}: {} bytes of {}", what(), d.data.len(), want.len());
            for (i, x) in d.data.iter().enumerate() {
                if patched.iter().any(|p| p.0 <= i as u64 && (i as u64) < p.1) { continue; }
                ensure!(*x == want[i], "not-a-prefix", "{}: byte {} of the sink differs", what(), i);
            }
            st.out("failed");
        } else {
            ensure!(r.is_ok(), "refused", "{}: {:?}", what(), r);
            ensure!(d.data == want, "bytes", "{}: {} instead of {}", what(), hx(&d.data), hx(&want));
            ensure!(pos == want.len() as u64, "position", "{}: stream at {} of {}", what(), pos, want.len());
            st.out("delivered");
        }
        st.trace();
        Ok(())
    }
    fn show(&self, c: &Case) -> String { format!("{:?}", c.ints.iter().map(|o| WOPS[*o as usize]).collect::<Vec<_>>()) }
}

/// A commit that fails is tried again.
pub struct Again;
/// Calls before, in and after a dynamic blob.
const SIZES: [usize; 4] = [0, 1, 4, 20];
impl Suite for Again {
    fn name(&self) -> &'static str { "commit-again" }
    fn bounds(&self, tier: Tier) -> String {
        format!("dynamic blob or exception of {:?} bytes, alone or after other content, followed by another field at once or after a second commit() x all scripts with at most {} deviations among {{one byte, interrupted, \
                 nothing accepted, hard error, failing seek}} while it is finished; a commit that fails is called up to 4 more times", SIZES, tier.q(3, 4))
    }
    fn units(&self, _: Tier) -> usize { SIZES.len() * 8 }
    fn unit(&self, u: usize, tier: Tier, cx: &mut Cx) {
        let n: Vec<u64> = vec![(u / 8) as u64, (u & 1) as u64, (u >> 1 & 1) as u64, (u >> 2 & 1) as u64];
        cx.explore(self, Case::new("commit-again", &n), tier.q(3, 4));
    }
    fn exec(&self, c: &Case, ch: &ChRef, st: &mut Stats) -> Res {
        let data: Vec<u8> = (0..SIZES[c.ints[0] as usize]).map(|i| b'a' + i as u8).collect();
        let (exc, before, twice) = (c.ints[1] == 1, c.ints[2] == 1, c.ints[3] == 1);
        let mut want = vec![];
        if before { t_int(&mut want, 1, 300); }
        want.push(if exc { 0x80 } else { 0x84 });
        put_fixed(&mut want, data.len() as u64);
        want.extend_from_slice(&data);
        let complete = want.clone();
        t_int(&mut want, 2, 9);
        let w = EnvWr::plain();
        let mut s = Stream::new(w.clone());
        let ok = "undisturbed writing";
        if before { s.write_u64(1, 300).expect(ok); }
        { let mut b = if exc { s.write_exception_dynamic().expect(ok) } else { s.write_blob_dynamic(4).expect(ok) }; b.write_all(&data).expect(ok); }
        { let mut d = w.0.borrow_mut(); d.mask = SHORT | INTR | HARD | ZERO | SEEKERR; d.ch = Some(ch.clone()); }
        let faults = || { let d = w.0.borrow(); d.hard + d.zero + d.seek_fails };
        let mut log = vec![];
        for _ in 0..5 {
            let f = faults();
            let r = s.commit();
            st.step(1);
            log.push(format!("{:?}", r));
            let what = || format!("{:?} finished with script {:?}: {:?}", hx(&complete), ch.borrow().pts.iter().map(|p| p.1).collect::<Vec<_>>(), log);
            st.state(hash(&(&c.ints, &log, w.data(), s.pos())));
            ensure!(s.pos() == w.0.borrow().pos as u64, "position", "{}: the sink is at {}, the stream at {}", what(), w.0.borrow().pos, s.pos());
            match r {
                Ok(()) => {
                    ensure!(faults() == f, "failure-ignored", "{}: the sink failed, success is reported", what());
                    ensure!(w.data() == complete && s.pos() == complete.len() as u64, "again", "{}: the commit succeeded, stream at {}, sink holds {}", what(), s.pos(), hx(&w.data()));
                    w.0.borrow_mut().mask = 0;
                    if twice { s.commit().expect(ok); }
                    s.write_u64(2, 9).expect(ok);
                    ensure!(w.data() == want, "after", "{}: with the field that follows the sink holds {}", what(), hx(&w.data()));
                    st.out(if f == 0 { "at once" } else { "in a later attempt" });
                    st.trace();
                    return Ok(());
                },
                Err(e) => {
                    // unless the sink is to blame it must keep refusing
                    ensure!(faults() > 0, "refused", "{}: {}", what(), e);
                },
            }
        }
        // never a success: nothing was lost silently
        st.out("never");
        st.trace();
        Ok(())
    }
}

pub fn c13() -> Check {
    Check { id: "C13", level: "model_checking", rule: "Every script of the byte sink up to the deviation bound is executed on the real encoder; the sink must hold the encoding, or a prefix of it and an error be reported.",
            suites: vec![Box::new(Sinks), Box::new(UniformSinks), Box::new(Writers), Box::new(Again)] }
}
