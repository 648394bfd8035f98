//! C20 error kinds and places.

use crate::cat::*;
use crate::dec::*;
use crate::docs::*;
use crate::run::*;
use mc::eng::*;
use mc::model::*;

/// Edits which introduce one fault (or none).
fn faults(ts: &[Tok], at: &[usize], b: &[u8], v: &Voc) -> Vec<(Vec<u8>, bool)> {
    let mut o = vec![];
    let n = ts.len();
    let with = |a: usize, b: usize, m: &[Tok]| { let mut r = ts[..a].to_vec(); r.extend_from_slice(m); r.extend_from_slice(&ts[b..]); emit(&r) };
    let raw = |i: usize, m: &[u8]| { let mut r = b[..at[i]].to_vec(); r.extend_from_slice(m); r.extend_from_slice(&b[at.get(i + 1).copied().unwrap_or(b.len())..]); r };
    for i in 0..n {
        let e = subtree(ts, i);
        if ts[i] != Tok::End {
            o.push((with(i, e, &[]), true));
            o.push((with(e, e, &ts[i..e]), true));
        }
        let tag = match ts[i] { Tok::Int(t, _) | Tok::Blob(t, _) | Tok::Struct(t) | Tok::Enum(t, _) => Some(t), _ => None };
        if let Some(tag) = tag {
            for p in v.payloads(tag) { o.push((with(i, e, &[p]), true)); }
            o.push((with(i, e, &[Tok::Struct(tag), Tok::End]), true));
            for &d in v.discs.iter().chain([0u64, 77, u64::MAX].iter()) { o.push((with(i, e, &[Tok::Enum(tag, d), Tok::End]), true)); }
            match ts[i] {
                Tok::Int(..) => {
                    let mut m = vec![0x40 | tag]; m.extend_from_slice(&[0xff; 9]); m.push(0x7f);
                    o.push((raw(i, &m), true));
                    let mut m = vec![0x40 | tag]; m.extend_from_slice(&[0x80; 300]); m.push(0);
                    o.push((raw(i, &m), true));
                    let mut m = vec![0x40 | tag]; m.extend_from_slice(&[0x80; 255]); m.push(0);
                    o.push((raw(i, &m), true));
                },
                Tok::Blob(..) => {
                    let mut m = vec![0x80 | tag]; m.extend_from_slice(&[0xff; 10]); m.push(0x01);
                    o.push((raw(i, &m), true));
                    for n in [1u64 << 20, u64::MAX / 2, u64::MAX - 4] {
                        let mut m = b[..at[i]].to_vec(); m.push(0x80 | tag); mc::wire::put_int(&mut m, n);
                        o.push((m, false));
                    }
                },
                Tok::Enum(..) => { let mut m = vec![tag]; m.extend_from_slice(&[0xff; 9]); m.push(0x02); o.push((raw(i, &m), true)); },
                _ => (),
            }
        }
        for f in [&[Tok::Int(UNUSED_TAG, 7)][..], &[Tok::Blob(UNUSED_TAG, vec![1, 2])], &[Tok::Struct(UNUSED_TAG), Tok::Int(1, 1), Tok::End],
                  &[Tok::Enum(UNUSED_TAG, 3), Tok::End], &[Tok::Pad], &[Tok::Exc(b"why".to_vec())], &[Tok::Exc(vec![0xff, b'a'])], &[Tok::Exc(vec![b'e'; 300])],
                  &[Tok::Exc(vec![])]] {
            o.push((with(i, i, f), true));
        }
        o.push((b[..at[i]].to_vec(), false));
        o.push((b[..at[i] + 1].to_vec(), false));
    }
    if !b.is_empty() { o.push((b[..b.len() - 1].to_vec(), false)); }
    o
}

/// The same input decoded from a stream whose positions start elsewhere gives
/// the same outcome with every position shifted.
fn shifted(t: &TyD, b: &[u8], st: &mut Stats) -> Res {
    use mc::sut::EC;
    for lim in [Lim::wide(), Lim::strict()] {
        let base = decode(t, STREAM_COPY, b, &lim);
        if let Err(ref e) = base.res {
            if let (RK::Stream(EC::Overlong), _) | (RK::Stream(EC::Io(..)), _) = rk(e) { continue; }
            if let (RK::Stream(EC::Trunc(n)), _) = rk(e) { if n > 1 << 40 { continue; } }
        }
        for by in [1u64 << 16, (1 << 32) + 7, 1 << 62] {
            st.step(1);
            for env in [false, true] {
                if env && t.env.is_none() { continue; }
                let got = decode_at(t, b, &lim, by, env);
                let ok = match (&base.res, &got.res) {
                    (Ok(a), Ok(b)) => a == b && got.pos == base.pos.map(|p| p + by),
                    (Err(a), Err(b)) => {
                        let ((ka, wa), (kb, wb)) = (rk(a), rk(b));
                        let ka = match ka { RK::UnknownField(n, p) => RK::UnknownField(n, p + by), o => o };
                        ka == kb && move_text(wa, by) == wb
                    },
                    _ => false,
                };
                if !ok { return fail("shifted", format!("{} from {} starting at position {}: {:?} (pos {:?}) instead of {:?} (pos {:?})",
                                                       t.name, hx(b), by, got.res, got.pos, base.res, base.pos)); }
            }
        }
    }
    Ok(())
}
fn move_text(w: &str, by: u64) -> String {
    let mut o = String::new();
    for (i, part) in w.split('{').enumerate() {
        if i > 0 { o.push('{'); }
        match part.split_once('}') {
            Some((n, rest)) if i > 1 => match n.parse::<u64>() { Ok(n) => { o.push_str(&(n + by).to_string()); o.push('}'); o.push_str(rest); }, _ => o.push_str(part) },
            _ => o.push_str(part),
        }
    }
    o
}

pub struct Faults { pub wide: bool }
impl Suite for Faults {
    fn name(&self) -> &'static str { "single-faults" }
    fn bounds(&self, tier: Tier) -> String {
        format!("{} types x values of level {} x every single fault at every element (missing, doubled, other payload, other wire type, other discriminant, foreign field, exception, \
                 overflowing or overlong integers and blobs, truncation) x 6 modes, and with stream positions shifted by 2^16, 2^32 + 7 and 2^62, x {{ignore, reject unknown fields}}; kind, details and location text compared",
                catalog().len(), if self.wide { tier.q("0", "0..1") } else { tier.q("0..1", "0..2") })
    }
    fn units(&self, _: Tier) -> usize { catalog().len() }
    fn unit(&self, u: usize, tier: Tier, cx: &mut Cx) {
        let t = &catalog()[u];
        let v = voc(&t.sch);
        for l in 0..(if self.wide { tier.q(1, 2) } else { tier.q(2, 3) }) { for i in 0..(t.n)(l) {
            let b = encode(&t.sch, &(t.val)(l, i));
            if b.len() > 600 { continue; }
            let (ts, at) = parse(&b);
            for (f, closed) in faults(&ts, &at, &b, &v) { cx.run(self, Case::b("single-faults", &[u as u64, closed as u64], &f)); }
            if cx.past_deadline() { return; }
        } }
    }
    fn exec(&self, c: &Case, _: &ChRef, st: &mut Stats) -> Res {
        let t = &catalog()[c.ints[0] as usize];
        st.state(hash(&(c.ints[0], &c.bytes)));
        for mode in [SLICE_COPY, STREAM_COPY, STREAM_BORROW, READER, ENV, ENV_SEEK] {
            if !supports(t, mode) { continue; }
            for lim in [Lim::wide(), Lim::strict()] { compare(t, mode, &c.bytes, &lim, true, st)?; }
        }
        shifted(t, &c.bytes, st)
    }
    fn show(&self, c: &Case) -> String { format!("{} from {}", catalog()[c.ints[0] as usize].name, hx(&c.bytes)) }
}

pub fn c20(wide: bool) -> Check {
    Check { id: "C20", level: "model_checking", rule: "Every single fault in every document is decoded by the real code and the reference; error kind, its details and the location text must be equal.",
            suites: vec![Box::new(Faults { wide })] }
}
