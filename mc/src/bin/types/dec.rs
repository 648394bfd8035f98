//! C08 decoding follows the schema, C20 error kinds and places; comparing one
//! decode with the reference.

use crate::cat::*;
use crate::extra08;
use crate::docs::*;
use crate::run::*;
use mc::ensure;
use mc::eng::*;
use mc::model::*;

pub const TAIL: &[u8] = b"\x41\x05\x00";
pub static DEPTHS: [&str; 16] = ["depth-0", "depth-1", "depth-2", "depth-3", "depth-4", "depth-5", "depth-6", "depth-7", "depth-8", "depth-9",
    "depth-10", "depth-11", "depth-12", "depth-13", "depth-14", "depth-15"];

/// Decode `b` both ways. Returns the reference's verdict.
pub fn compare(t: &TyD, mode: usize, b: &[u8], lim: &Lim, kinds: bool, st: &mut Stats) -> Result<Result<Val, DErr>, Fail> {
    let mut d = Dec::new(b, graceful(mode), *lim, style(mode));
    let want = d.top(&t.sch);
    let end = d.lp.pos;
    let g = decode(t, mode, b, lim);
    st.step(1);
    let ctx = || format!("{} from {} via {} (ignore_unknown_fields={}, limits {:?})", t.name, hx(b), MODE_NAMES[mode], lim.ignore, lim);
    match (&want, &g.res) {
        (Ok(v), Ok(r)) => {
            ensure!(canon(&t.sch, r) == canon(&t.sch, v), format!("value:{}", t.name), "{}: got {}, must be {}", ctx(), sv(r), sv(v));
            if let Some(p) = g.pos { ensure!(p == end, format!("position:{}", t.name), "{}: stream at {}, must be at {}", ctx(), p, end); }
            if let Some(p) = g.phys { ensure!(p == end, format!("consumed:{}", t.name), "{}: source at {}, must be at {}", ctx(), p, end); }
            if g.pos.is_some() { ensure!(g.eof == d.lp.eof, format!("eof:{}", t.name), "{}: eof() is {}", ctx(), g.eof); }
            st.out("accepted");
        },
        (Ok(v), Err(e)) => return fail(format!("rejects:{}", t.name), format!("{}: rejected ({}), must be {}", ctx(), e, sv(v))),
        (Err(x), Ok(r)) => return fail(format!("accepts:{}:{}", kname(&x.kind), t.name), format!("{}: accepted as {}, must fail with {:?}", ctx(), sv(r), x)),
        (Err(x), Err(e)) => {
            if kinds {
                let (k, w) = rk(e);
                ensure!(same_kind(&x.kind, &k), format!("kind:{}:{}", kname(&x.kind), t.name), "{}: fails with {:?}, must be {:?}", ctx(), e, x);
                ensure!(w == x.path, format!("path:{}:{}", kname(&x.kind), t.name), "{}: error is said to be at {}, must be {} ({:?})", ctx(), w, x.path, x.kind);
                let text = e.to_string();
                for p in text_parts(e) {
                    ensure!(text.contains(&p), format!("text:{}", kname(&x.kind)), "{}: the error reads {:?}, which does not mention {:?}", ctx(), text, p);
                }
            }
            st.out(kname(&x.kind));
        },
    }
    st.trace();
    Ok(want)
}

/// What the text of an error has to mention.
fn text_parts(e: &fourleaf::de::Error) -> Vec<String> {
    use fourleaf::de::Error as D;
    use fourleaf::stream::Error as S;
    let mut o = vec![];
    match *e {
        D::Stream(ref w, ref s) => {
            o.extend([w.clone(), s.to_string()]);
            match *s {
                S::Exception(ref m) => o.push(m.clone()),
                S::TruncatedBlob(n) | S::IncompleteBlob(n) => o.push(n.to_string()),
                S::UnexpectedType(a, b) => o.extend([a.to_string(), b.to_string()]),
                S::Io(ref e) => o.push(e.to_string()),
                _ => (),
            }
        },
        D::UnknownField(ref w, t, p) => o.extend([w.clone(), t.to_string(), format!("{{{}}}", p)]),
        D::UnknownVariant(ref w, d) => o.extend([w.clone(), d.to_string()]),
        D::FieldOccursTooFewTimes(ref w, n) | D::FieldOccursTooManyTimes(ref w, n) => o.extend([w.clone(), n.to_string()]),
        D::InvalidValue(ref w, ref e) => o.extend([w.clone(), e.to_string()]),
        D::InvalidValueMsg(ref w, m) => o.extend([w.clone(), m.to_string()]),
        D::RecursionLimitExceeded(ref w) | D::RequiredFieldMissing(ref w) | D::MaxCollectExceeded(ref w) | D::MaxBlobExceeded(ref w) => o.push(w.clone()),
        _ => (),
    }
    o
}

pub fn kname(k: &EK) -> &'static str {
    match k {
        EK::Parse(_) => "rejected:format", EK::Exception(_) => "rejected:exception", EK::Type(..) => "rejected:type", EK::Range => "rejected:range",
        EK::Recursion => "rejected:recursion", EK::UnknownField(..) => "rejected:unknown-field", EK::UnknownVariant(_) => "rejected:unknown-variant",
        EK::TooFew(_) => "rejected:too-few", EK::TooMany(_) => "rejected:too-many", EK::Missing => "rejected:missing",
        EK::Invalid | EK::InvalidMsg => "rejected:invalid", EK::MaxCollect => "rejected:collect-limit", EK::MaxBlob => "rejected:blob-limit",
    }
}

/// Modes x {ignore, strict} for one document.
fn all_modes(t: &TyD, b: &[u8], st: &mut Stats) -> Res {
    for mode in [STREAM_COPY, STREAM_COPY_GRACEFUL, STREAM_BORROW, ENV, ENV_SEEK] {
        if !supports(t, mode) { continue; }
        for lim in [Lim::wide(), Lim::strict()] { compare(t, mode, b, &lim, false, st)?; }
    }
    Ok(())
}

/// What the reference makes of `b` under either unknown-field policy:
/// 0 dead, 1 needs more input, 2 complete.
fn fate(t: &TyD, b: &[u8], ignore: bool) -> u8 {
    let lim = if ignore { Lim::wide() } else { Lim::strict() };
    match Dec::new(b, false, lim, Style::Copy).top(&t.sch) {
        Ok(_) => 2,
        Err(e) if e.is_eof() => 1,
        Err(_) => 0,
    }
}

// ------------------------------------------------------------------ C08
/// All element sequences in order of length.
pub struct Seqs { pub quick: usize, pub thorough: usize, pub wide: bool }
impl Suite for Seqs {
    fn name(&self) -> &'static str { "element-sequences" }
    fn bounds(&self, tier: Tier) -> String {
        format!("{} types x all element sequences over an alphabet drawn from the type's schema (tags, discriminants, integer and length boundaries, one foreign tag, \
                 markers), by increasing length up to the last length fully explored within {} documents per type (see outcomes depth-N: types explored to length N); \
                 sequences the reference has already refused are closed and tried, not extended; x 5 decoding modes x {{ignore, reject unknown fields}}",
                catalog().len(), tier.q(self.quick, self.thorough))
    }
    fn units(&self, _: Tier) -> usize { catalog().len() }
    fn unit(&self, u: usize, tier: Tier, cx: &mut Cx) {
        let t = &catalog()[u];
        let budget = tier.q(self.quick, self.thorough);
        let toks = voc(&t.sch).toks(false);
        let mut level: Vec<Vec<u8>> = vec![vec![]];
        let mut used = 0;
        let mut depth = 0;
        let run = |cx: &mut Cx, b: Vec<u8>| { cx.run(self, Case::b("element-sequences", &[u as u64], &b)); };
        loop {
            let mut next = vec![];
            let mut out = vec![];
            for p in &level {
                for k in &toks {
                    let mut b = p.clone();
                    put(&mut b, k);
                    match fate(t, &b, true) {
                        1 => next.push(b),
                        2 => { let mut c = b.clone(); c.extend_from_slice(TAIL); out.push(c); },
                        _ => { b.extend_from_slice(&[0; 12]); out.push(b); },
                    }
                }
                if used + out.len() + next.len() > budget && depth > 0 {
                    cx.st.out(DEPTHS[depth.min(15)]);
                    return;
                }
            }
            used += out.len() + next.len();
            for b in out { run(cx, b); }
            for b in &next { run(cx, b.clone()); }
            depth += 1;
            level = next;
            if level.is_empty() || used >= budget || cx.past_deadline() { break; }
        }
        cx.st.out(DEPTHS[depth.min(15)]);
    }
    fn exec(&self, c: &Case, _: &ChRef, st: &mut Stats) -> Res {
        let t = &catalog()[c.ints[0] as usize];
        st.state(hash(&(c.ints[0], &c.bytes)));
        all_modes(t, &c.bytes, st)
    }
    fn show(&self, c: &Case) -> String { format!("{} from {}", catalog()[c.ints[0] as usize].name, hx(&c.bytes)) }
}

/// Everything one edit away from valid documents.
pub fn edits(ts: &[Tok], v: &Voc, rich: bool) -> Vec<Vec<Tok>> {
    let mut o = vec![];
    let n = ts.len();
    let with = |a: usize, b: usize, m: &[Tok]| { let mut r = ts[..a].to_vec(); r.extend_from_slice(m); r.extend_from_slice(&ts[b..]); r };
    let toks = v.toks(rich);
    let mut tags = v.tags.clone();
    tags.push(UNUSED_TAG);
    for i in 0..n {
        let e = subtree(ts, i);
        // drop the subtree, double it, swap it with its sibling
        if ts[i] != Tok::End {
            o.push(with(i, e, &[]));
            let s = ts[i..e].to_vec();
            o.push(with(e, e, &s));
            if e < n && ts[e] != Tok::End {
                let f = subtree(ts, e);
                let mut m = ts[e..f].to_vec();
                m.extend_from_slice(&s);
                o.push(with(i, f, &m));
            }
        } else { o.push(with(i, i + 1, &[])); }
        // other tag, other type, other value
        let tag = match ts[i] { Tok::Int(t, _) | Tok::Blob(t, _) | Tok::Struct(t) | Tok::Enum(t, _) => Some(t), _ => None };
        if let Some(tag) = tag {
            for &g in &tags {
                if g == tag { continue; }
                let mut m = ts[i].clone();
                match m { Tok::Int(ref mut t, _) | Tok::Blob(ref mut t, _) | Tok::Struct(ref mut t) | Tok::Enum(ref mut t, _) => *t = g, _ => () }
                o.push(with(i, i + 1, &[m]));
            }
            for p in v.payloads(tag) { o.push(with(i, e, &[p])); }
            o.push(with(i, e, &[Tok::Struct(tag), Tok::End]));
            o.push(with(i, e, &[Tok::Struct(tag), Tok::Int(1, 1), Tok::End]));
            for &d in v.discs.iter().chain([0u64, 77, u64::MAX].iter()) {
                o.push(with(i, e, &[Tok::Enum(tag, d), Tok::End]));
                if e > i + 1 {
                    let mut m = ts[i..e].to_vec();
                    m[0] = Tok::Enum(tag, d);
                    o.push(with(i, e, &m));
                }
            }
            if e > i + 1 { let mut m = ts[i..e].to_vec(); m[0] = Tok::Struct(tag); o.push(with(i, e, &m)); }
        }
        for k in &toks {
            match k {
                Tok::Struct(_) | Tok::Enum(..) => o.push(with(i, i, &[k.clone(), Tok::End])),
                _ => o.push(with(i, i, &[k.clone()])),
            }
        }
    }
    o
}

const SMALL: usize = 400;

pub struct Edits { pub wide: bool }
impl Suite for Edits {
    fn name(&self) -> &'static str { "edited-documents" }
    fn bounds(&self, tier: Tier) -> String {
        format!("{} types x all values of level {} x every single edit{} of the encoded document (element or subtree dropped, doubled, swapped with its sibling, inserted, \
                 retagged, other wire type, other payload out of the schema's boundaries, other discriminant) x 5 decoding modes x {{ignore, reject unknown fields}}; documents up to {} bytes",
                catalog().len(), if self.wide { tier.q("0", "0..1") } else { "0..1" }, if self.wide { "" } else { tier.q("", " and, for level 0, every pair of edits up to 40000 per value") }, SMALL)
    }
    fn units(&self, _: Tier) -> usize { catalog().len() }
    fn unit(&self, u: usize, tier: Tier, cx: &mut Cx) {
        let t = &catalog()[u];
        let v = voc(&t.sch);
        for l in 0..(if self.wide { tier.q(1, 2) } else { 2 }) {
            for i in 0..(t.n)(l) {
                let b = encode(&t.sch, &(t.val)(l, i));
                if b.len() > SMALL { continue; }
                let ts = parse(&b).0;
                let es = edits(&ts, &v, l == 0);
                let mut n = 0;
                for e in &es {
                    cx.run(self, Case::b("edited-documents", &[u as u64], &emit(e)));
                    if tier.thorough() && !self.wide && l == 0 && n < 40000 {
                        for f in edits(e, &v, false) { n += 1; cx.run(self, Case::b("edited-documents", &[u as u64], &emit(&f))); }
                    }
                    if cx.stopped() { return; }
                }
                if cx.past_deadline() { return; }
            }
        }
    }
    fn exec(&self, c: &Case, _: &ChRef, st: &mut Stats) -> Res {
        let t = &catalog()[c.ints[0] as usize];
        st.state(hash(&(c.ints[0], &c.bytes)));
        let mut b = c.bytes.clone();
        b.extend_from_slice(&[0; 4]);
        all_modes(t, &b, st)
    }
    fn show(&self, c: &Case) -> String { format!("{} from {}", catalog()[c.ints[0] as usize].name, hx(&c.bytes)) }
}

pub fn c08(wide: bool) -> Check {
    #[allow(unused_mut)]
    let mut suites: Vec<Box<dyn Suite>> = vec![
        Box::new(Seqs { quick: if wide { 300 } else { 10000 }, thorough: if wide { 4000 } else { 150000 }, wide }), Box::new(Edits { wide })];
    extra08(&mut suites);
    crate::extra("C08", &mut suites);
    Check { id: "C08", level: "model_checking",
            rule: "Every document is decoded by the real code and by a reference decoder written from the documentation; acceptance, value, position and end-of-document state must agree.",
            suites }
}
