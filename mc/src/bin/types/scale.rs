//! Values of every type at sizes where counters, buffers and offsets could
//! turn over: many elements, large blobs, deep nesting.

use crate::cat::*;
use crate::dec::compare;
use crate::docs::*;
use crate::run::*;
use mc::ensure;
use mc::eng::*;
use mc::model::*;
use std::sync::OnceLock;

fn types() -> &'static [TyD] {
    static T: OnceLock<Vec<TyD>> = OnceLock::new();
    T.get_or_init(|| {
        let mut v: Vec<TyD> = crate::build();
        v.retain(|t| !t.name.starts_with("[u8"));
        v.push(lite::<[bool; 131072]>("[bool; 131072]"));
        v.push(lite::<[u16; 131072]>("[u16; 131072]"));
        v.push(lite::<Option<[u16; 65536]>>("Option<[u16; 65536]>"));
        v
    })
}

/// How often an element is repeated; whether the copies differ.
const COUNTS: [usize; 8] = [3, 4097, 65537, 4095, 8193, 65535, 65536, 70000];
const BYTES: [usize; 8] = [3, 70_000, (1 << 24) + 1, (1 << 20) - 1, 1 << 20, (1 << 20) + 1, (1 << 24) - 1, 1 << 24];
/// The first of these are used by the quick tier; the very first is only to
/// see whether growing there makes sense.
const QUICK: usize = 3;
const NESTS: [usize; 10] = [3, 128, 256, 1030, 30, 100, 127, 254, 255, 300];

/// The places of a document which can be scaled.
#[derive(Clone, Copy)]
enum Place { AsIs, Rep(usize, usize), Blob(usize), Nest(usize, usize) }

fn places(ts: &[Tok]) -> Vec<Place> {
    let mut o = vec![Place::AsIs];
    let pick = |i: usize| ts.len() <= 14 || i < 8 || i + 3 >= ts.len() || i == ts.len() / 2;
    for i in 0..ts.len() {
        if ts[i] == Tok::End || !pick(i) { continue; }
        let e = subtree(ts, i);
        if e - i <= 12 { o.push(Place::Rep(i, e)); }
        if let Tok::Blob(..) = ts[i] { o.push(Place::Blob(i)); }
        // what repeats inside itself can be nested any number of times
        for j in i + 1..e { if ts[j] == ts[i] && !matches!(ts[i], Tok::Int(..) | Tok::Blob(..)) { o.push(Place::Nest(i, j)); break; } }
    }
    o
}
fn renumber(t: &Tok, j: usize) -> Tok {
    match t {
        Tok::Int(g, _) => Tok::Int(*g, j as u64),
        Tok::Blob(g, _) => Tok::Blob(*g, j.to_string().into_bytes()),
        t => t.clone(),
    }
}
fn big(n: usize) -> Vec<u8> { (0..n).map(|i| b'a' + ((i ^ (i >> 8) ^ (i >> 16)) % 26) as u8).collect() }

/// The document with place `p` scaled by variant `k`, if there is one.
fn scaled(ts: &[Tok], p: Place, k: usize, pad: bool) -> Option<Vec<u8>> {
    let mut out = vec![];
    let put = |o: &mut Vec<u8>, t: &Tok| { if pad { o.push(0xC0); } put(o, t); };
    let put_all = |o: &mut Vec<u8>, t: &[Tok]| for x in t { put(o, x); };
    match p {
        Place::AsIs => {
            if k > 1 { return None; }
            for (j, t) in ts.iter().enumerate() { put(&mut out, &if k == 1 { renumber(t, (j * 7 + (j >> 16)) & 0xFFFF) } else { t.clone() }); }
        },
        Place::Rep(a, b) => {
            let (n, distinct) = (*COUNTS.get(k / 2)?, k % 2 == 1);
            if distinct && !ts[a..b].iter().any(|t| matches!(t, Tok::Int(..) | Tok::Blob(..))) { return Some(vec![]); }
            put_all(&mut out, &ts[..a]);
            for j in 0..n {
                if distinct { for t in &ts[a..b] { put(&mut out, &renumber(t, j)); } } else { put_all(&mut out, &ts[a..b]); }
                if out.len() > 3 << 20 { return Some(vec![]); }
            }
            put_all(&mut out, &ts[b..]);
        },
        Place::Blob(i) => {
            let n = *BYTES.get(k)?;
            let g = match ts[i] { Tok::Blob(g, _) => g, _ => unreachable!() };
            put_all(&mut out, &ts[..i]);
            put(&mut out, &Tok::Blob(g, big(n)));
            put_all(&mut out, &ts[i + 1..]);
        },
        Place::Nest(i, j) => {
            let n = *NESTS.get(k)?;
            let (ei, ej) = (subtree(ts, i), subtree(ts, j));
            put_all(&mut out, &ts[..i]);
            for _ in 0..n { put_all(&mut out, &ts[i..j]); }
            put_all(&mut out, &ts[j..ej]);
            for _ in 0..n { put_all(&mut out, &ts[ej..ei]); }
            put_all(&mut out, &ts[ei..]);
        },
    }
    Some(out)
}

#[derive(Clone, Copy, PartialEq)]
pub enum For { RoundTrip, Bytes, Limits, Schema, Padding }

pub struct Scaled(pub For);
const MODES: [usize; 5] = [STREAM_COPY, ENV, STREAM_BORROW, SLICE_COPY, READER];

impl Suite for Scaled {
    fn name(&self) -> &'static str { "scaled-up" }
    fn bounds(&self, tier: Tier) -> String {
        let modes = tier.q(2, 5);
        format!("{} types (also arrays of 131072 elements) x values of level {} (nesting: 0..2) x every element repeated {:?} times, equal or numbered through; every blob blown up to {:?} bytes; every self-similar \
                 subtree nested {:?} deep; {}", types().len(), tier.q("0", "0..1"), &COUNTS[1..tier.q(QUICK, COUNTS.len())], &BYTES[1..tier.q(QUICK, BYTES.len())], &NESTS[1..tier.q(QUICK + 1, NESTS.len())], match self.0 {
            For::RoundTrip => "what decodes is encoded again and decoded by the reference".to_string(),
            For::Bytes => "what decodes is encoded again and compared byte for byte".to_string(),
            For::Limits => format!("with every limit at the exact need, one less, and at the need modulo 2^8, 2^16, 2^20 and 2^24; {} modes", modes),
            For::Padding => format!("with padding before every element, to read the same as without; {} modes", modes),
            For::Schema => format!("{} modes, also the documents the type does not admit", modes),
        })
    }
    fn units(&self, _: Tier) -> usize { types().len() * 3 }
    fn unit(&self, u: usize, tier: Tier, cx: &mut Cx) {
        let l = (u / types().len()) as u8;
        let u = u % types().len();
        let t = &types()[u];
        if l > 0 && !t.core { return; }
        // beyond the simplest values, only what can be nested
        let only_nests = l as u64 >= tier.q(1, 2);
        let mut nests = 0;
        for i in 0..(t.n)(l) {
            let b = encode(&t.sch, &(t.val)(l, i));
            // one big value is enough
            if b.len() > 600 && (l > 0 || i > 0) { continue; }
            let ts = parse(&b).0;
            for (pi, p) in places(&ts).into_iter().enumerate() {
                match p {
                    Place::AsIs => {
                        // small ones are dealt with elsewhere
                        for k in 0..2 { if b.len() > 10_000 { cx.run(self, Case::new(self.name(), &[u as u64, l as u64, i as u64, pi as u64, k, tier.q(2, 5)])); } }
                        continue;
                    },
                    Place::Nest(..) => { nests += 1; if only_nests && nests > tier.q(6, 40) { return; } },
                    _ => if only_nests { continue; },
                }
                let last = match p { Place::Rep(..) => 2 * tier.q(QUICK, COUNTS.len()), Place::Blob(..) => tier.q(QUICK, BYTES.len()), _ => tier.q(QUICK + 1, NESTS.len()) };
                let w = if let Place::Rep(..) = p { 2 } else { 1 };
                let grows: Vec<bool> = (0..w).map(|k| match scaled(&ts, p, k, self.0 == For::Padding) {
                    Some(ref d) if !d.is_empty() => self.0 == For::Schema || Dec::new(d, false, Lim::wide(), Style::Copy).top(&t.sch).is_ok(),
                    _ => false,
                }).collect();
                // an array is filled by the right number of elements only
                let array = t.name.contains("; 65536]") || t.name.contains("; 131072]");
                for k in w..last {
                    if !grows[k % w] && !array { continue; }
                    if !scaled(&ts, p, k, self.0 == For::Padding).unwrap().is_empty() { cx.run(self, Case::new(self.name(), &[u as u64, l as u64, i as u64, pi as u64, k as u64, tier.q(2, 5)])); }
                    if cx.past_deadline() { return; }
                }
            }
        }
    }
    fn exec(&self, c: &Case, _: &ChRef, st: &mut Stats) -> Res {
        let t = &types()[c.ints[0] as usize];
        let v = (t.val)(c.ints[1] as u8, c.ints[2] as usize);
        let ts = parse(&encode(&t.sch, &v)).0;
        let p = places(&ts)[c.ints[3] as usize];
        let b = scaled(&ts, p, c.ints[4] as usize, self.0 == For::Padding).unwrap();
        st.state(hash(&c.ints[..]));
        let lim = Lim::wide();
        if self.0 == For::Schema {
            for m in MODES.into_iter().take(c.ints[5] as usize) {
                if !supports(t, m) { continue; }
                let kinds = !matches!(Dec::new(&b, false, lim, style(m)).top(&t.sch), Err(ref e) if matches!(e.kind, EK::TooMany(_)));
                compare(t, m, &b, &lim, kinds, st)?;
            }
            return Ok(());
        }
        let mut d = Dec::new(&b, false, lim, Style::Copy);
        let want = match d.top(&t.sch) { Ok(v) => v, Err(_) => { st.out("not a value"); return Ok(()); } };
        let used = d.used;
        if self.0 == For::Padding {
            let bare = Dec::new(&scaled(&ts, p, c.ints[4] as usize, false).unwrap(), false, lim, Style::Copy).top(&t.sch);
            ensure!(bare.as_ref().ok() == Some(&want), "reference", "HARNESS: padding disturbs the reference");
            for m in MODES.into_iter().take(c.ints[5] as usize) { if supports(t, m) { compare(t, m, &b, &lim, true, st)?; } }
            return Ok(());
        }
        if self.0 == For::Limits {
            for m in MODES.into_iter().take(c.ints[5] as usize) {
                if !supports(t, m) { continue; }
                let mut d = Dec::new(&b, false, lim, style(m));
                if d.top(&t.sch).is_err() { continue; }
                let used = d.used;
                for (dim, n) in [(0, used.coll), (1, used.blob), (2, used.depth)] {
                    if n < 30 { continue; }
                    let mut ks = vec![n - 1, n];
                    for s in [8, 16, 20, 24] { if n >> s > 0 { ks.push(n & ((1 << s) - 1)); } }
                    ks.sort(); ks.dedup();
                    for k in ks {
                        let mut l = Lim::wide();
                        match dim { 0 => l.coll = k, 1 => l.blob = k, _ => l.rec = k }
                        compare(t, m, &b, &l, true, st)?;
                    }
                }
            }
            return Ok(());
        }
        let _ = used;
        st.step(1);
        let again = match (t.rewrite)(&b, &conf(&lim)) {
            Err(e) => return fail(format!("rejects:{}", t.name), format!("{}: {} is rejected: {}", t.name, hx(&b), e)),
            Ok(Err(e)) => return fail(format!("encode:{}", t.name), format!("{}: {} cannot be encoded again: {}", t.name, hx(&b), e)),
            Ok(Ok(x)) => x,
        };
        st.trace();
        if self.0 == For::RoundTrip {
            let mut d = Dec::new(&again, false, lim, Style::Copy);
            match d.top(&t.sch) {
                Ok(v) => {
                    ensure!(canon(&t.sch, &v) == canon(&t.sch, &want), format!("differs:{}", t.name), "{}: {} bytes {} encoded again as {} bytes {}", t.name, b.len(), hx(&b), again.len(), hx(&again));
                    ensure!(d.lp.pos as usize == again.len(), format!("length:{}", t.name), "{}: encoded value ends at {} of {}", t.name, d.lp.pos, again.len());
                },
                Err(e) => return fail(format!("undecodable:{}", t.name), format!("{}: {} encoded again as {}: {:?}", t.name, hx(&b), hx(&again), e)),
            }
            st.out("equal");
        } else {
            // the order within sets and maps is not fixed, the length is
            let w = encode(&t.sch, &want);
            ensure!(again.len() == w.len(), format!("length:{}", t.name), "{}: {} encoded as {} bytes instead of {}", t.name, hx(&b), again.len(), w.len());
            if ordered(&t.sch) { ensure!(again == w, format!("bytes:{}", t.name), "{}: {} encoded as {}", t.name, hx(&b), hx(&again)); st.out("identical"); }
            else { st.out("same length"); }
        }
        Ok(())
    }
    fn show(&self, c: &Case) -> String {
        let t = &types()[c.ints[0] as usize];
        let v = (t.val)(c.ints[1] as u8, c.ints[2] as usize);
        let ts = parse(&encode(&t.sch, &v)).0;
        let p = match places(&ts)[c.ints[3] as usize] {
            Place::AsIs => format!("all its elements{}", if c.ints[4] == 1 { ", numbered" } else { "" }),
            Place::Rep(a, _) => format!("element {} repeated {} times{}", a, COUNTS[c.ints[4] as usize / 2], if c.ints[4] % 2 == 1 { ", numbered" } else { "" }),
            Place::Blob(a) => format!("blob {} of {} bytes", a, BYTES[c.ints[4] as usize]),
            Place::Nest(a, b) => format!("elements {}..{} nested {} times", a, b, NESTS[c.ints[4] as usize]),
        };
        format!("{} = {} with {}", t.name, sv(&v), p)
    }
}

fn ordered(s: &Sch) -> bool {
    fn go(s: &Sch, depth: usize) -> bool {
        if depth > 12 { return true; }
        let rec = |r: &RecS| r.fields.iter().all(|f| go(&f.2, depth + 1)) && r.deleg.as_ref().map_or(true, |d| go(&d.1, depth + 1));
        match s {
            Sch::Seq(t, k) => *k == Kind::Ordered && go(t, depth + 1),
            Sch::Map(..) => false,
            Sch::Opt(t) | Sch::Arr(_, t) | Sch::Copied(t) => go(t, depth + 1),
            Sch::Lazy(f) => go(&f(), depth + 1),
            Sch::Rec(r) => rec(r),
            Sch::En(e) => e.vars.iter().all(|x| rec(&x.1)) && e.catchall.as_ref().map_or(true, |r| rec(r)),
            _ => true,
        }
    }
    go(s, 0)
}
