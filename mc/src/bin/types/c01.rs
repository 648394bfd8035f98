//! C01 round trips, C02 exact bytes.

use crate::cat::*;
use crate::run::*;
use mc::ensure;
use mc::eng::*;
use mc::model::*;

pub fn levels(t: &TyD, tier: Tier) -> &'static [u8] {
    if t.core { &[0, 1, 2] } else { tier.q(&[1], &[0, 1]) }
}

fn lims(k: usize, used: &Usage) -> Lim {
    match k {
        0 => Lim { ..Lim::wide() },
        1 => Lim::strict(),
        // limits which just admit the value
        2 => Lim { rec: used.depth, ignore: true, blob: used.blob, coll: used.coll },
        _ => Lim { rec: used.depth, ignore: false, blob: used.blob, coll: used.coll },
    }
}

pub struct RoundTrip;
const TAIL: &[u8] = b"\x41\x05\x00";

impl Suite for RoundTrip {
    fn name(&self) -> &'static str { "round-trip" }
    fn bounds(&self, tier: Tier) -> String {
        format!("{} types x all values of their boundary domains (levels 0..2 for hand-picked types, up to 1 for generated wrappers) x 4 encoding entry points x \
                 {} decoding modes x {{ignore, reject unknown fields}} x {{wide limits, limits that just admit the value}}, followed by further data",
                catalog().len(), NMODES)
    }
    fn units(&self, _: Tier) -> usize { catalog().len() }
    fn unit(&self, u: usize, tier: Tier, cx: &mut Cx) {
        let t = &catalog()[u];
        for &l in levels(t, tier) {
            for i in 0..(t.n)(l) {
                for mode in 0..NMODES {
                    if !supports(t, mode) { continue; }
                    for c in 0..4 { cx.run(self, Case::new("round-trip", &[u as u64, l as u64, i as u64, 0, mode as u64, c])); }
                }
                for e in 1..NENC as u64 { cx.run(self, Case::new("round-trip", &[u as u64, l as u64, i as u64, e, 0, 0])); }
            }
            if cx.past_deadline() { return; }
        }
    }
    fn exec(&self, c: &Case, _: &ChRef, st: &mut Stats) -> Res {
        let t = &catalog()[c.ints[0] as usize];
        let (l, i, e, mode) = (c.ints[1] as u8, c.ints[2] as usize, c.ints[3] as usize, c.ints[4] as usize);
        let v = (t.val)(l, i);
        let mut b = match encode_via(t, l, i, e) {
            None => return Ok(()),
            Some(Err(x)) => return fail(format!("encode:{}", t.name), format!("{} of {} cannot be encoded: {}", sv(&v), t.name, x)),
            Some(Ok(b)) => b,
        };
        let n = b.len() as u64;
        st.state(hash(&(c.ints[0], &b)));
        // What the value needs, according to the reference.
        let mut d = Dec::new(&b, false, Lim::wide(), style(mode));
        let used = match d.top(&t.sch) { Ok(_) => d.used, Err(_) => Usage::default() };
        let mut lim = lims(c.ints[5] as usize, &used);
        if used == Usage::default() { lim = Lim { ignore: lim.ignore, ..Lim::wide() }; }
        if mode != SLICE_COPY && mode != SLICE_BORROW && !graceful(mode) { b.extend_from_slice(TAIL); }
        let g = decode(t, mode, &b, &lim);
        st.step(1);
        match g.res {
            Err(ref x) => {
                let strict = if lim.ignore { "" } else { "strict:" };
                return fail(format!("reject:{}{}:{}", strict, t.name, sv(&v)),
                            format!("{}: {} encoded as {} is rejected by {} (ignore_unknown_fields={}): {}",
                                    t.name, sv(&v), hx(&b[..n as usize]), MODE_NAMES[mode], lim.ignore, x));
            },
            Ok(ref r) => {
                ensure!(canon(&t.sch, r) == canon(&t.sch, &v), format!("differs:{}", t.name), "{}: {} encoded as {} decodes via {} as {}",
                        t.name, sv(&v), hx(&b[..n as usize]), MODE_NAMES[mode], sv(r));
            },
        }
        if let Some(p) = g.pos { ensure!(p == n, format!("position:{}", t.name), "{}: stream at {} after decoding {} bytes of {}", t.name, p, n, hx(&b)); }
        if let Some(p) = g.phys { ensure!(p == n, format!("consumed:{}", t.name), "{}: source at {} after decoding {} bytes of {}", t.name, p, n, hx(&b)); }
        st.trace();
        st.out(if lim.ignore { "equal" } else { "equal-strict" });
        Ok(())
    }
    fn show(&self, c: &Case) -> String {
        let t = &catalog()[c.ints[0] as usize];
        format!("{} = {} encoder {} decoder {} config {}", t.name, sv(&(t.val)(c.ints[1] as u8, c.ints[2] as usize)), c.ints[3], MODE_NAMES[c.ints[4] as usize], c.ints[5])
    }
}

pub struct Bytes;
impl Suite for Bytes {
    fn name(&self) -> &'static str { "bytes" }
    fn bounds(&self, tier: Tier) -> String {
        format!("{} types x all values of their boundary domains (levels 0..2 for hand-picked types, up to 1 for generated wrappers) x 4 encoding entry points, byte for byte",
                catalog().len())
    }
    fn units(&self, _: Tier) -> usize { catalog().len() }
    fn unit(&self, u: usize, tier: Tier, cx: &mut Cx) {
        let t = &catalog()[u];
        for &l in levels(t, tier) {
            for i in 0..(t.n)(l) { for e in 0..NENC as u64 { cx.run(self, Case::new("bytes", &[u as u64, l as u64, i as u64, e])); } }
        }
    }
    fn exec(&self, c: &Case, _: &ChRef, st: &mut Stats) -> Res {
        let t = &catalog()[c.ints[0] as usize];
        let (l, i) = (c.ints[1] as u8, c.ints[2] as usize);
        let v = (t.val)(l, i);
        let want = encode(&t.sch, &v);
        st.state(hash(&(c.ints[0], &want)));
        match encode_via(t, l, i, c.ints[3] as usize) {
            None => (),
            Some(Err(x)) => return fail(format!("encode:{}", t.name), format!("{}: {} cannot be encoded: {}", t.name, sv(&v), x)),
            Some(Ok(b)) => {
                ensure!(b == want, format!("bytes:{}", t.name), "{}: {} must be encoded as {} but entry point {} gives {}", t.name, sv(&v), hx(&want), c.ints[3], hx(&b));
                st.step(b.len() as u64);
                st.trace();
                st.out("identical");
            },
        }
        // The bytes of a foreign encoder are understood.
        if c.ints[3] == 0 {
            let g = decode(t, STREAM_COPY, &want, &Lim::wide());
            match g.res {
                Ok(ref r) => ensure!(canon(&t.sch, r) == canon(&t.sch, &v), format!("foreign:{}", t.name), "{}: documented encoding {} of {} read as {}", t.name, hx(&want), sv(&v), sv(r)),
                Err(ref x) => return fail(format!("foreign:{}", t.name), format!("{}: documented encoding {} of {} rejected: {}", t.name, hx(&want), sv(&v), x)),
            }
        }
        Ok(())
    }
    fn show(&self, c: &Case) -> String {
        let t = &catalog()[c.ints[0] as usize];
        format!("{} = {} encoder {}", t.name, sv(&(t.val)(c.ints[1] as u8, c.ints[2] as usize)), c.ints[3])
    }
}

pub fn c01() -> Check {
    let mut suites: Vec<Box<dyn Suite>> = vec![Box::new(RoundTrip)];
    crate::extra("C01", &mut suites);
    Check { id: "C01", level: "model_checking", rule: "Every value of every catalog type is encoded and decoded through every pair of entry points and compared with the original, along with the positions.",
            suites }
}
pub fn c02() -> Check {
    let mut suites: Vec<Box<dyn Suite>> = vec![Box::new(Bytes), Box::new(crate::views::Views)];
    crate::extra("C02", &mut suites);
    Check { id: "C02", level: "model_checking", rule: "Every value of every catalog type is encoded through every entry point and compared byte for byte with an encoder written from the documentation; those bytes are decoded again.",
            suites }
}
