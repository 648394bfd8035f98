//! C11 zero-copy decoding.

use crate::cat::*;
use crate::cut::foreign;
use crate::dec::*;
use crate::docs::*;
use crate::run::*;
use fourleaf::de;
use fourleaf::io::TransparentCursor;
use fourleaf::stream::Stream;
use std::io::Cursor;
use mc::ensure;
use mc::eng::*;
use mc::model::*;

/// Element sequences in order of length; `f(bytes, fate)` for each. Fates: 0
/// dead, 1 wants more, 2 complete.
pub fn sequences(toks: &[Tok], budget: usize, fate: &dyn Fn(&[u8]) -> u8, f: &mut dyn FnMut(&[u8], u8)) {
    let mut level: Vec<Vec<u8>> = vec![vec![]];
    let mut n = 0;
    while !level.is_empty() && n < budget {
        if n > 0 && level.len() * toks.len() > budget { return; }
        let mut next = vec![];
        for p in &level { for t in toks {
            let mut b = p.clone();
            put(&mut b, t);
            let k = fate(&b);
            n += 1;
            f(&b, k);
            if k == 1 { next.push(b); }
        } }
        level = next;
    }
}

fn has_map(s: &Sch, seen: &mut Vec<usize>) -> bool {
    match s {
        Sch::Map(..) => true,
        Sch::Opt(t) | Sch::Seq(t, _) | Sch::Arr(_, t) | Sch::Copied(t) => has_map(t, seen),
        Sch::Rec(r) => r.fields.iter().any(|f| has_map(&f.2, seen)) || r.deleg.as_ref().map_or(false, |d| has_map(&d.1, seen)),
        Sch::En(e) => e.vars.iter().any(|v| v.1.fields.iter().any(|f| has_map(&f.2, seen))),
        Sch::Lazy(f) => { let p = *f as usize; if seen.contains(&p) { return false; } seen.push(p); has_map(&f(), seen) },
        _ => false,
    }
}

const HEAD: &[u8] = b"\xC0\x41\x05\x00\xC0";

fn check(t: &LtD, doc: &[u8], tail: bool, st: &mut Stats) -> Res {
    let mut b = doc.to_vec();
    if tail { b.extend_from_slice(TAIL); }
    for lim in [Lim::wide(), Lim::strict()] {
        let what = |how: &str| format!("{} from {} via {} (ignore_unknown_fields={})", t.name, hx(doc), how, lim.ignore);
        let mut d = Dec::new(&b, false, lim, Style::Borrow);
        let want = d.top(&t.sch);
        let end = d.lp.pos;
        let eof = d.lp.eof;
        let mut want_ptrs: Vec<(u64, u64)> = d.borrowed.iter().copied().filter(|x| x.1 > 0).collect();
        want_ptrs.sort();
        let used = d.used;
        let mut dc = Dec::new(&b, false, lim, Style::Copy);
        let wantc = dc.top(&t.sch);
        let maps = has_map(&t.sch, &mut vec![]);
        let ptrs = |p: Vec<(usize, usize)>, buf: &[u8], off: usize, how: &str| -> Res {
            if want.is_err() { return Ok(()); }
            let base = buf.as_ptr() as usize;
            let mut rest = want_ptrs.clone();
            for (a, n) in p {
                if n == 0 { continue; }
                let x = ((a.wrapping_sub(base)).wrapping_sub(off) as u64, n as u64);
                match rest.iter().position(|y| *y == x) {
                    Some(i) => { rest.remove(i); },
                    None => return fail(format!("pointer:{}", t.name), format!("{}: a borrowed slice at buffer offset {} of length {}, the blobs are at {:?}", what(how), x.0 as i64, n, want_ptrs)),
                }
            }
            ensure!(maps || rest.is_empty(), format!("not-borrowed:{}", t.name), "{}: blobs at {:?} should be borrowed and are not", what(how), rest);
            Ok(())
        };
        let same = |r: &DR, want: &Result<Val, DErr>, how: &str| -> Res {
            match (r, want) {
                (Ok(v), Ok(w)) => ensure!(canon(&t.sch, v) == canon(&t.sch, w), format!("value:{}", t.name), "{}: {} must be {}", what(how), sv(v), sv(w)),
                (Err(_), Err(_)) => (),
                (Ok(v), Err(e)) => return fail(format!("accepts:{}", t.name), format!("{}: accepted as {}, must fail with {:?}", what(how), sv(v), e)),
                (Err(e), Ok(w)) => return fail(format!("rejects:{}", t.name), format!("{}: rejected ({}), must be {}", what(how), e, sv(w))),
            }
            Ok(())
        };
        let c = conf(&lim);
        let (r, p) = (t.borrow)(&b, &c);
        st.step(1);
        same(&r, &want, "from_slice_borrow")?;
        ptrs(p, &b, 0, "from_slice_borrow")?;
        let rc = (t.copy)(&b, &c);
        same(&rc, &wantc, "from_slice_copy")?;
        ensure!(r.is_ok() == rc.is_ok(), format!("styles:{}", t.name), "{}: borrowing gives {:?}, copying gives {:?}", what("both"), r, rc);
        if let (Ok(x), Ok(y)) = (&r, &rc) { ensure!(canon(&t.sch, x) == canon(&t.sch, y), format!("styles:{}", t.name), "{}: borrowing gives {}, copying gives {}", what("both"), sv(x), sv(y)); }
        let lo = b.as_ptr() as usize;
        for (a, n) in (t.copy_ptrs)(&b, &c) {
            ensure!(n == 0 || a + n <= lo || a >= lo + b.len(), format!("copy-borrows:{}", t.name), "{}: copying decode left a pointer into the input at {}", what("from_slice_copy"), a - lo);
        }
        // on a stream, in the midst of other values
        let mut hb = HEAD.to_vec();
        hb.extend_from_slice(&b);
        let mut s = Stream::from_slice(&hb[..]);
        let first = de::from_stream_copy::<_, u8>(&mut s, &c);
        ensure!(matches!(first, Ok(5)), "harness-head", "{}: {:?}", what("stream"), first);
        let (r, p) = (t.borrow_stream)(&mut s, &c);
        // The pad after HEAD is part of what the decoder reads.
        same(&r, &want, "from_stream_borrow")?;
        ptrs(p, &hb, HEAD.len(), "from_stream_borrow")?;
        if want.is_ok() {
            ensure!(s.pos() == end + HEAD.len() as u64, format!("position:{}", t.name), "{}: stream at {} must be at {}", what("from_stream_borrow"), s.pos(), end + HEAD.len() as u64);
            let more = !eof && tail && end == doc.len() as u64;
            if more {
                let next = de::from_stream_copy::<_, u8>(&mut s, &c);
                ensure!(matches!(next, Ok(5)), format!("next:{}", t.name), "{}: the value behind it reads as {:?}", what("from_stream_borrow"), next);
            }
            let phys = s.into_inner().0.position();
            let must = if more { end + 3 } else { end } + HEAD.len() as u64;
            ensure!(phys == must, format!("consumed:{}", t.name), "{}: source at {} must be at {}", what("from_stream_borrow"), phys, must);
            if tail {
                // The other sources which allow borrowing.
                const SRC: [&str; 4] = ["a plain slice", "a Cursor", "a seekable Cursor", "a TransparentCursor that may not seek"];
                for k in 0..4 {
                    macro_rules! other { ($mk:expr, $f:ident, $left:expr) => { {
                        let mut s = $mk;
                        let first = de::from_stream_copy::<_, u8>(&mut s, &c);
                        ensure!(matches!(first, Ok(5)), "harness-head", "{}: {:?}", what(SRC[k]), first);
                        let (r, p) = (t.$f)(&mut s, &c);
                        same(&r, &want, SRC[k])?;
                        ptrs(p, &hb, HEAD.len(), SRC[k])?;
                        ensure!(s.pos() == end + HEAD.len() as u64, format!("position:{}", t.name), "{}: stream at {} must be at {}", what(SRC[k]), s.pos(), end + HEAD.len() as u64);
                        if more {
                            let next = de::from_stream_copy::<_, u8>(&mut s, &c);
                            ensure!(matches!(next, Ok(5)), format!("next:{}", t.name), "{}: the value behind it reads as {:?}", what(SRC[k]), next);
                        }
                        let src = s.into_inner();
                        let at: u64 = $left(&src);
                        ensure!(at == must, format!("consumed:{}", t.name), "{}: source at {} must be at {}", what(SRC[k]), at, must);
                    } } }
                    st.step(1);
                    match k {
                        0 => other!(Stream::new(&hb[..]), borrow_plain, |x: &&[u8]| (hb.len() - x.len()) as u64),
                        1 => other!(Stream::new(Cursor::new(&hb[..])), borrow_cursor, |x: &Cursor<&[u8]>| x.position()),
                        2 => other!(Stream::new_seek(Cursor::new(&hb[..])), borrow_cursor, |x: &Cursor<&[u8]>| x.position()),
                        _ => other!(Stream::new(TransparentCursor(Cursor::new(&hb[..]))), borrow_stream, |x: &Slice| x.0.position()),
                    }
                }
            }
            // Only what is copied counts.
            let c = conf(&Lim { blob: used.blob, ..lim });
            let (r, _) = (t.borrow)(&b, &c);
            same(&r, &want, "from_slice_borrow with exactly the needed blob budget")?;
            if used.blob > 0 {
                let c = conf(&Lim { blob: used.blob - 1, ..lim });
                let (r, _) = (t.borrow)(&b, &c);
                ensure!(matches!(r, Err(de::Error::MaxBlobExceeded(_))), format!("copied-limit:{}", t.name), "{}: with one byte less than its {} copied bytes: {:?}", what("from_slice_borrow"), used.blob, r);
                st.out("copied-limit");
            }
            st.out(if want_ptrs.is_empty() { "accepted:nothing-borrowed" } else { "accepted:borrowed" });
        } else {
            if tail {
                let mut s = Stream::new(Cursor::new(&hb[HEAD.len()..]));
                same(&(t.borrow_cursor)(&mut s, &c).0, &want, "from_stream_borrow over a Cursor")?;
                let mut s = Stream::new(&hb[HEAD.len()..]);
                same(&(t.borrow_plain)(&mut s, &c).0, &want, "from_stream_borrow over a plain slice")?;
            }
            st.out("rejected");
        }
    }
    st.trace();
    Ok(())
}

macro_rules! lt_suite { ($t:ident, $name:expr, |$s:ident, $tier:ident| $bounds:expr, $units:expr, |$sf:ident, $u:ident, $tr:ident, $cx:ident, $go:ident| $body:block) => {
    pub struct $t;
    impl Suite for $t {
        fn name(&self) -> &'static str { $name }
        fn bounds(&self, $tier: Tier) -> String { let $s = borrowing().len(); $bounds }
        fn units(&self, _: Tier) -> usize { $units }
        fn unit(&self, $u: usize, $tr: Tier, $cx: &mut Cx) {
            let $sf = self;
            #[allow(unused_mut)]
            let mut $go = |cx: &mut Cx, u: usize, b: &[u8]| { cx.run($sf, Case::b($name, &[u as u64], b)); };
            $body
        }
        fn exec(&self, c: &Case, _: &ChRef, st: &mut Stats) -> Res {
            st.state(hash(&(c.ints[0], &c.bytes)));
            check(&borrowing()[c.ints[0] as usize], &c.bytes, false, st)?;
            check(&borrowing()[c.ints[0] as usize], &c.bytes, true, st)
        }
        fn show(&self, c: &Case) -> String { format!("{} from {}", borrowing()[c.ints[0] as usize].name, hx(&c.bytes)) }
    }
} }

lt_suite! { Docs, "values", |n, tier| format!("{} borrowing types x values of levels 0..2, each bare and with skipped fields in front or behind, cut at every point (over 300 bytes: first and last 40), \
    and with every blob's claimed length (of over 200 elements: the first and last 30) replaced by 6 others", n), borrowing().len() * 9, |sf, k, tr, cx, go| {
    let u = k % borrowing().len();
    let t = &borrowing()[u];
    let (l, var) = (((k / borrowing().len()) % 3) as u8, k / borrowing().len() / 3);
    { for d in (t.doms)(l) {
        if cx.past_deadline() { return; }
        { for place in 0..2 {
            if var == 0 && place > 0 { continue; }
            let mut ts = parse(&d).0;
            let at = if place == 0 { 0 } else { ts.len() - 1 };
            ts.splice(at..at, foreign(var as u64));
            let b = emit(&ts);
            go(cx, u, &b);
            let n = b.len();
            for k in 0..n { if n <= 300 || k < 40 || k > n - 40 { go(cx, u, &b[..k]); } }
            if n > 5000 { continue; }
            let nt = ts.len();
            for (i, x) in ts.iter().enumerate() { if nt > 200 && i > 30 && i + 30 < nt { continue; } if let Tok::Blob(g, data) = x {
                let len = data.len() as u64;
                for m in [len.wrapping_sub(1), len + 1, len + 3, len + n as u64, u64::MAX - n as u64, u64::MAX] {
                    let mut o = emit(&ts[..i]);
                    o.push(0x80 | g);
                    mc::wire::put_int(&mut o, m);
                    o.extend_from_slice(data);
                    o.extend_from_slice(&emit(&ts[i + 1..]));
                    go(cx, u, &o);
                }
            } }
        } }
    } }
} }

lt_suite! { BSeqs, "element-sequences", |n, tier| format!("{} borrowing types x all element sequences over the type's alphabet by increasing length within {} documents per type", n, tier.q(15_000, 400_000)),
    borrowing().len(), |sf, u, tr, cx, go| {
    let t = &borrowing()[u];
    let toks = voc(&t.sch).toks(false);
    let fate = |b: &[u8]| match Dec::new(b, false, Lim::wide(), Style::Borrow).top(&t.sch) { Ok(_) => 2, Err(ref e) if e.is_eof() => 1, Err(_) => 0 };
    sequences(&toks, tr.q(15_000, 400_000), &fate, &mut |b, k| {
        if k == 0 { let mut c = b.to_vec(); c.extend_from_slice(&[0; 8]); go(cx, u, &c); } else { go(cx, u, b); }
    });
} }

lt_suite! { BEdits, "edited-documents", |n, tier| format!("{} borrowing types x values of levels 0..1 x every single edit of the encoded document{}", n, tier.q("", " and every pair of edits up to 150000 per type")),
    borrowing().len(), |sf, u, tr, cx, go| {
    let t = &borrowing()[u];
    let v = voc(&t.sch);
    let mut n = 0;
    for l in 0..2 { for d in (t.doms)(l) {
        if d.len() > 400 { continue; }
        for e in edits(&parse(&d).0, &v, true) {
            go(cx, u, &emit(&e));
            if tr.thorough() && n < 150_000 { for f in edits(&e, &v, false) { n += 1; go(cx, u, &emit(&f)); } }
        }
        if cx.past_deadline() { return; }
    } }
} }

lt_suite! { BMut, "byte-mutations", |n, tier| format!("{} borrowing types x values of levels 0..1 up to {} bytes: each byte replaced by each of the 256 values, removed, and each of the 256 inserted before it", n, tier.q(40, 200)),
    borrowing().len(), |sf, u, tr, cx, go| {
    let t = &borrowing()[u];
    let mut seen = std::collections::HashSet::new();
    for l in 0..2 { for d in (t.doms)(l) {
        if d.len() > tr.q(40, 200) || !seen.insert(d.clone()) { continue; }
        for k in 0..d.len() {
            for x in 0..=255u8 {
                let mut m = d.clone(); m[k] = x; go(cx, u, &m);
                let mut m = d.clone(); m.insert(k, x); go(cx, u, &m);
            }
            let mut m = d.clone(); m.remove(k); go(cx, u, &m);
        }
        if cx.past_deadline() { return; }
    } }
} }

pub fn c11() -> Check {
    Check { id: "C11", level: "model_checking", rule: "Every document is decoded by borrowing and by copying; both must agree with the reference, and every borrowed slice must lie at its blob's offset in the input.",
            suites: vec![Box::new(Docs), Box::new(BSeqs), Box::new(BEdits), Box::new(BMut)] }
}
