//! C07 limits.

use crate::cat::*;
use crate::cut::doc;
use crate::dec::*;
use crate::docs::*;
use crate::run::*;
use fourleaf::de::{Context, Error};
use mc::ensure;
use mc::eng::*;
use mc::model::*;

const MODES: [usize; 5] = [STREAM_COPY, STREAM_BORROW, ENV, SLICE_COPY, READER];

pub struct Limits;
fn points(used: usize) -> Vec<usize> {
    if used <= 24 { (0..=used + 1).collect() } else { vec![0, 1, used / 2, used - 2, used - 1, used, used + 1] }
}
impl Suite for Limits {
    fn name(&self) -> &'static str { "one-limit" }
    fn bounds(&self, tier: Tier) -> String {
        format!("{} types x values of levels {} x {{bare, with skipped unknown content}} x each of the three limits at every setting from 0 to one more than needed \
                 (seven settings around the need if above 24), the others wide x 5 modes; error kind and place compared too", catalog().len(),
                tier.q("0..1 and, for hand-picked types, 2", "0..2"))
    }
    fn units(&self, _: Tier) -> usize { catalog().len() }
    fn unit(&self, u: usize, tier: Tier, cx: &mut Cx) {
        let t = &catalog()[u];
        for l in 0..(if t.core || tier.thorough() { 3 } else { 2 }) { for i in 0..(t.n)(l) { for var in [0, 2] {
            let b = doc(t, l, i, var, 0);
            for mode in MODES {
                if !supports(t, mode) { continue; }
                let mut d = Dec::new(&b, false, Lim::wide(), style(mode));
                if d.top(&t.sch).is_err() { continue; }
                for (dim, used) in [(0, d.used.coll), (1, d.used.blob), (2, d.used.depth)] {
                    for k in points(used) { cx.run(self, Case::new("one-limit", &[u as u64, l as u64, i as u64, var, mode as u64, dim, k as u64])); }
                }
            }
            if cx.past_deadline() { return; }
        } } }
    }
    fn exec(&self, c: &Case, _: &ChRef, st: &mut Stats) -> Res {
        let t = &catalog()[c.ints[0] as usize];
        let b = doc(t, c.ints[1] as u8, c.ints[2] as usize, c.ints[3], 0);
        let mut lim = Lim::wide();
        let k = c.ints[6] as usize;
        match c.ints[5] { 0 => lim.coll = k, 1 => lim.blob = k, _ => lim.rec = k }
        st.state(hash(&(c.ints[0], &b, lim)));
        compare(t, c.ints[4] as usize, &b, &lim, true, st)?;
        Ok(())
    }
    fn show(&self, c: &Case) -> String {
        let t = &catalog()[c.ints[0] as usize];
        format!("{} = {} with {} limit {} via {}", t.name, sv(&(t.val)(c.ints[1] as u8, c.ints[2] as usize)),
                ["collect", "blob", "recursion"][c.ints[5] as usize], c.ints[6], MODE_NAMES[c.ints[4] as usize])
    }
}

pub struct Triples;
impl Suite for Triples {
    fn name(&self) -> &'static str { "all-limits" }
    fn bounds(&self, tier: Tier) -> String {
        format!("{} types x values of level {} x every combination of the three limits from 0 to one more than needed, where there are at most {} of them",
                catalog().len(), tier.q("0", "0..1"), tier.q(400, 4000))
    }
    fn units(&self, _: Tier) -> usize { catalog().len() }
    fn unit(&self, u: usize, tier: Tier, cx: &mut Cx) {
        let t = &catalog()[u];
        for l in 0..tier.q(1, 2) { for i in 0..(t.n)(l) {
            let b = doc(t, l, i, 0, 0);
            let mut d = Dec::new(&b, false, Lim::wide(), Style::Copy);
            if d.top(&t.sch).is_err() { continue; }
            let us = d.used;
            if (us.coll + 2) * (us.blob + 2) * (us.depth + 2) > tier.q(400, 4000) { continue; }
            for a in 0..us.coll + 2 { for b in 0..us.blob + 2 { for c in 0..us.depth + 2 {
                cx.run(self, Case::new("all-limits", &[u as u64, l as u64, i as u64, a as u64, b as u64, c as u64]));
            } } }
            if cx.past_deadline() { return; }
        } }
    }
    fn exec(&self, c: &Case, _: &ChRef, st: &mut Stats) -> Res {
        let t = &catalog()[c.ints[0] as usize];
        let b = doc(t, c.ints[1] as u8, c.ints[2] as usize, 0, 0);
        let lim = Lim { coll: c.ints[3] as usize, blob: c.ints[4] as usize, rec: c.ints[5] as usize, ignore: true };
        st.state(hash(&(c.ints[0], &b, lim)));
        for m in [STREAM_COPY, STREAM_BORROW, ENV] { if supports(t, m) { compare(t, m, &b, &lim, false, st)?; } }
        Ok(())
    }
}

/// Custom decoders: operations on `Context` against plain counters.
pub struct Ctx;
const NS: [u64; 7] = [0, 1, 2, 3, 4, 1 << 32, u64::MAX];
/// push, pop, push and change the config (to SWAP[i]), collect(n), blob(n)
const FIRST: u64 = 2 + SWAP.len() as u64;
const NOPS: u64 = FIRST + 2 * NS.len() as u64;
type L3 = (usize, usize, usize);
const CLIM: [L3; 6] = [(0, 0, 0), (1, 3, 2), (3, 1, 2), (4, 4, 1), (usize::MAX, usize::MAX, 3), (5, usize::MAX - 1, 0)];
const SWAP: [L3; 2] = [(1, 2, 1), (6, 7, 3)];
fn cfg3(l: &L3) -> fourleaf::de::Config { mc::sut::cfg(l.2, true, l.1, l.0) }

struct M { coll: u128, blob: u128, path: Vec<(String, u64)> }
impl M {
    fn show(&self) -> String {
        let mut s = "{0}".to_string();
        for (n, p) in &self.path { s = format!("{}.{}{{{}}}", s, n, p); }
        s
    }
}

fn drive(c: &Context, ops: &[u64], at: &mut usize, m: &mut M, lim: &L3, st: &mut Stats) -> Res {
    loop {
        ensure!(c.to_string() == m.show(), "ctx-path", "context shows {} instead of {} after {:?}", c, m.show(), &ops[..*at]);
        if *at >= ops.len() { return Ok(()); }
        let op = ops[*at];
        *at += 1;
        st.step(1);
        let key = format!("after {:?} with limits {:?} (collected {}, copied {})", &ops[..*at], lim, m.coll, m.blob);
        match op {
            0 | 2..FIRST => {
                // push: even steps by name, odd ones by tag
                let mut buf = [0; 2];
                let tag = 5 + 29 * (*at as u8 % 3);
                let given = ["field", "", "x.y", "\u{e9}{0}"][(*at / 2 + m.path.len() + ops[0] as usize) % 4];
                let name = if *at % 2 == 0 { given.to_string() } else { format!("{:02}", tag) };
                let pos = [100, u64::MAX, 70_000, 1 << 40][*at % 4];
                let inner = if op == 0 { *lim } else { SWAP[op as usize - 2] };
                let cf = cfg3(&inner);
                let r = if *at % 2 == 0 { c.push(given, pos) } else { c.push_tag(&mut buf, tag, pos) };
                match r {
                    Ok(s) => {
                        // what a custom decoder does to have its children decoded under other limits
                        let mut s = s;
                        if op != 0 { s.config = &cf; }
                        let s = &s;
                        ensure!(m.path.len() < lim.2, "ctx-push", "push succeeds {}", key);
                        ensure!(s.depth == m.path.len() + 1 && s.pos == pos, "ctx-push", "pushed context has depth {} and pos {} {}", s.depth, s.pos, key);
                        m.path.push((name, pos));
                        drive(s, ops, at, m, &inner, st)?;
                        m.path.pop();
                    },
                    Err(Error::RecursionLimitExceeded(ref w)) => {
                        ensure!(m.path.len() >= lim.2, "ctx-push", "push refused {}", key);
                        ensure!(*w == m.show(), "ctx-where", "recursion error at {} instead of {}", w, m.show());
                    },
                    Err(e) => return fail("ctx-push", format!("push fails with {:?} {}", e, key)),
                }
            },
            1 => if !m.path.is_empty() { return Ok(()); },
            _ => {
                let n = NS[(op - FIRST) as usize % NS.len()];
                let blob = (op - FIRST) as usize >= NS.len();
                let (sum, max) = if blob { (&mut m.blob, lim.1) } else { (&mut m.coll, lim.0) };
                let fits = *sum + n as u128 <= max as u128;
                if fits { *sum += n as u128; }
                let r = if blob { c.blob(n) } else { c.collect(n as usize) };
                let what = if blob { "blob" } else { "collect" };
                match r {
                    Ok(()) => ensure!(fits, format!("ctx-{}", what), "{}({}) succeeds {}", what, n, key),
                    Err(Error::MaxBlobExceeded(ref w)) if blob => {
                        ensure!(!fits, "ctx-blob", "blob({}) refused {}", n, key);
                        ensure!(*w == m.show(), "ctx-where", "blob error at {} instead of {}", w, m.show());
                    },
                    Err(Error::MaxCollectExceeded(ref w)) if !blob => {
                        ensure!(!fits, "ctx-collect", "collect({}) refused {}", n, key);
                        ensure!(*w == m.show(), "ctx-where", "collect error at {} instead of {}", w, m.show());
                    },
                    Err(ref e) => return fail(format!("ctx-{}", what), format!("{}({}) fails with {:?} {}", what, n, e, key)),
                }
            },
        }
    }
}

impl Suite for Ctx {
    fn name(&self) -> &'static str { "context-operations" }
    fn bounds(&self, tier: Tier) -> String {
        format!("all sequences of {} operations on Context (push by name or tag, push with the limits changed to one of {:?}, pop, collect(n), blob(n), n in {:?}) x {} limit settings", tier.q(5, 6), SWAP, NS, CLIM.len())
    }
    fn units(&self, _: Tier) -> usize { CLIM.len() * NOPS as usize }
    fn unit(&self, u: usize, tier: Tier, cx: &mut Cx) {
        let d = tier.q(5u32, 6);
        for k in 0..NOPS.pow(d - 1) {
            let mut ops = vec![(u / NOPS as usize) as u64, u as u64 % NOPS];
            let mut k = k;
            for _ in 1..d { ops.push(k % NOPS); k /= NOPS; }
            cx.run(self, Case::new("context-operations", &ops));
            if cx.past_deadline() { return; }
        }
    }
    fn exec(&self, c: &Case, _: &ChRef, st: &mut Stats) -> Res {
        let lim = &CLIM[c.ints[0] as usize];
        let cf = cfg3(lim);
        let mut m = M { coll: 0, blob: 0, path: vec![] };
        let r = drive(&Context::top(&cf), &c.ints[1..], &mut 0, &mut m, lim, st);
        st.state(hash(&(c.ints[0], m.coll as u64, m.blob as u64, (m.coll >> 64) as u64, m.path.len())));
        st.trace();
        r?;
        st.out("context");
        Ok(())
    }
}

/// `Config::default()`, untouched, against the documented defaults.
pub struct Defaults;
/// Every document with one subtree repeated, one blob blown up or one place
/// nested into, around each default.
fn blown_up(ts: &[Tok], v: &Voc) -> Vec<Vec<u8>> {
    let mut o = vec![emit(ts)];
    let with = |a: usize, b: usize, m: &[Tok]| { let mut r = ts[..a].to_vec(); r.extend_from_slice(m); r.extend_from_slice(&ts[b..]); emit(&r) };
    for i in 0..ts.len() {
        let e = subtree(ts, i);
        if ts[i] != Tok::End && e - i <= 12 {
            for k in [127usize, 128, 254, 255, 256, 257, 258] {
                let mut m = vec![];
                for _ in 0..k { m.extend_from_slice(&ts[i..e]); }
                o.push(with(i, e, &m));
            }
        }
        if let Tok::Blob(t, _) = ts[i] {
            for n in [255usize, 256, 257, 32767, 32768, 32769, 65530, 65533, 65534, 65535, 65536, 65537] {
                o.push(with(i, e, &[Tok::Blob(t, vec![b'a'; n])]));
                if n < 40000 { o.push(with(i, e, &[Tok::Blob(t, vec![b'a'; n]), Tok::Blob(t, vec![b'b'; 65536 - n]), Tok::Blob(t, vec![])])); }
            }
        }
        if let Some(t) = match ts[i] { Tok::Int(t, _) | Tok::Blob(t, _) | Tok::Struct(t) | Tok::Enum(t, _) => Some(t), Tok::End => Some(UNUSED_TAG), _ => None } {
            for g in v.tags.iter().copied().take(3).chain([UNUSED_TAG]) {
                for k in 28..36usize {
                    let mut m = vec![Tok::Struct(t)];
                    for _ in 1..k { m.push(Tok::Struct(g)); }
                    for _ in 0..k { m.push(Tok::End); }
                    o.push(with(i, if ts[i] == Tok::End { i } else { e }, &m));
                }
            }
        }
    }
    o
}
impl Suite for Defaults {
    fn name(&self) -> &'static str { "default-limits" }
    fn bounds(&self, tier: Tier) -> String {
        format!("{} types x values of level {} with Config::default() as it is: every subtree repeated 127..258 times, every blob blown up to around 2^8, 2^15 and 2^16 bytes, at once or over two fields, \
                 every place nested 28..35 deep by the type's own tags or a foreign one x 5 modes; documented defaults: 65536 bytes, 256 elements, nesting and unknown fields as for 32 / ignored",
                catalog().len(), tier.q("0", "0..1"))
    }
    fn units(&self, _: Tier) -> usize { catalog().len() }
    fn unit(&self, u: usize, tier: Tier, cx: &mut Cx) {
        let t = &catalog()[u];
        let v = voc(&t.sch);
        for l in 0..tier.q(1, 2) { for i in 0..(t.n)(l) {
            let b = encode(&t.sch, &(t.val)(l, i));
            if b.len() > 600 { continue; }
            for d in blown_up(&parse(&b).0, &v) { cx.run(self, Case::b("default-limits", &[u as u64], &d)); }
            if cx.past_deadline() { return; }
        } }
    }
    fn exec(&self, c: &Case, _: &ChRef, st: &mut Stats) -> Res {
        let t = &catalog()[c.ints[0] as usize];
        st.state(hash(&(c.ints[0], &c.bytes)));
        for m in MODES {
            if !supports(t, m) { continue; }
            // which of two faults of one field is reported first is not claimed
            let kinds = !matches!(Dec::new(&c.bytes, false, Lim::default(), style(m)).top(&t.sch), Err(ref e) if matches!(e.kind, EK::TooMany(_)));
            compare(t, m, &c.bytes, &Lim::default(), kinds, st)?;
        }
        Ok(())
    }
    fn show(&self, c: &Case) -> String { format!("{} from {} with the default configuration", catalog()[c.ints[0] as usize].name, hx(&c.bytes)) }
}

pub fn c07(wide: bool) -> Check {
    let mut s: Vec<Box<dyn Suite>> = vec![Box::new(Limits), Box::new(Triples), Box::new(Defaults)];
    if !wide { s.push(Box::new(Ctx)); }
    crate::extra("C07", &mut s);
    Check { id: "C07", level: "model_checking", rule: "The reference decoder determines what each document needs; every limit setting around the need is tried on the real code, which must accept or report exactly as the reference does.", suites: s }
}
