//! C06 hostile input.

use crate::cat::*;
use crate::docs::*;
use crate::run::*;
use mc::alloc::measure;
use mc::ensure;
use mc::eng::*;
use mc::model::*;
use mc::wire::*;

/// Small limits: anything allocated on the word of the input alone shows.
const LIM: Lim = Lim { rec: 32, ignore: true, blob: 1000, coll: 10 };
const BOUND: usize = 1 << 20;

/// Decode, and look at what it cost. Panics are caught by the caller.
fn survive(t: &TyD, mode: usize, b: &[u8], lim: &Lim, st: &mut Stats) -> Res {
    let (g, peak) = measure(|| decode(t, mode, b, lim));
    st.step(1);
    let bound = BOUND + 16 * b.len() + 4 * if lim.blob < 1 << 30 { lim.blob } else { 0 } + if lim.coll < 1 << 30 { 4096 * lim.coll } else { 0 };
    ensure!(peak <= bound, format!("alloc:{}", t.name), "{} from {} via {}: {} bytes allocated for {} bytes of input", t.name, hx(b), MODE_NAMES[mode], peak, b.len());
    if let Some(p) = g.phys { ensure!(p <= b.len() as u64 || mode == ENV_SEEK || mode == ENV_SEEK_GRACEFUL, format!("phys:{}", t.name), "{}: source at {} of {}", t.name, p, b.len()); }
    st.out(if g.res.is_ok() { "value" } else { "error" });
    st.trace();
    Ok(())
}

fn small(t: &TyD) -> bool { !t.name.contains("131072") && !t.name.contains("; 2048]") && !t.name.contains("; 4096]") && !t.name.contains("[u8; 65536]") && !t.name.contains("[u8; 32768]") }

pub const ALPHA: [u8; 18] = [0x00, 0x40, 0x80, 0xC0, 0x01, 0x41, 0x81, 0xC1, 0x02, 0x42, 0x82, 0xC2, 0x04, 0x7F, 0xFF, 0xBF, 0x3F, 0x10];

pub struct Raw;
impl Suite for Raw {
    fn name(&self) -> &'static str { "raw-bytes" }
    fn bounds(&self, tier: Tier) -> String {
        format!("{} types x all byte strings up to length {} and all strings up to length {} over 18 structural bytes x 5 modes", catalog().len(), tier.q("1 (2 for every fourth type)", "2 (3 for every 20th type)"), tier.q(3, 4))
    }
    fn units(&self, _: Tier) -> usize { catalog().len() }
    fn unit(&self, u: usize, tier: Tier, cx: &mut Cx) {
        let t = &catalog()[u];
        if !small(t) { return; }
        let full = tier.q(if u % 4 == 0 { 2 } else { 1 }, if u % 20 == 0 { 3 } else { 2 });
        let mut b = vec![];
        strings(&mut b, 256, full, &mut |b| { cx.run(self, Case::b("raw-bytes", &[u as u64], b)); !cx.stopped() && !cx.past_deadline() });
        let mut b = vec![];
        strings(&mut b, ALPHA.len(), tier.q(3, 4), &mut |b| {
            let m: Vec<u8> = b.iter().map(|&x| ALPHA[x as usize]).collect();
            cx.run(self, Case::b("raw-bytes", &[u as u64], &m));
            !cx.stopped()
        });
    }
    fn exec(&self, c: &Case, _: &ChRef, st: &mut Stats) -> Res {
        let t = &catalog()[c.ints[0] as usize];
        st.state(hash(&(c.ints[0], &c.bytes)));
        for mode in [STREAM_COPY, STREAM_COPY_GRACEFUL, STREAM_BORROW_GRACEFUL, ENV, ENV_SEEK_GRACEFUL] {
            if supports(t, mode) { survive(t, mode, &c.bytes, &LIM, st)?; }
        }
        Ok(())
    }
    fn show(&self, c: &Case) -> String { format!("{} from {}", catalog()[c.ints[0] as usize].name, hx(&c.bytes)) }
}
fn strings(b: &mut Vec<u8>, n: usize, d: usize, f: &mut dyn FnMut(&[u8]) -> bool) -> bool {
    if !f(b) { return false; }
    if d == 0 { return true; }
    for x in 0..n {
        b.push(x as u8);
        let go = strings(b, n, d - 1, f);
        b.pop();
        if !go { return false; }
    }
    true
}

pub struct Mutants;
impl Suite for Mutants {
    fn name(&self) -> &'static str { "mutated-bytes" }
    fn bounds(&self, tier: Tier) -> String {
        format!("{} types x values of level {} x every byte of the encoding replaced by every other byte, removed, or doubled{} x 4 modes; documents up to 150 bytes",
                catalog().len(), tier.q("0", "0..1"), tier.q("", "; for level 0 also every pair of bytes replaced by structural bytes, documents up to 24 bytes"))
    }
    fn units(&self, _: Tier) -> usize { catalog().len() }
    fn unit(&self, u: usize, tier: Tier, cx: &mut Cx) {
        let t = &catalog()[u];
        if !small(t) { return; }
        for l in 0..tier.q(1, 2) { for i in 0..(t.n)(l) {
            let b = encode(&t.sch, &(t.val)(l, i));
            if b.len() > 150 { continue; }
            for k in 0..b.len() {
                for x in 0..=255u8 { if x != b[k] { let mut m = b.clone(); m[k] = x; cx.run(self, Case::b("mutated-bytes", &[u as u64], &m)); } }
                let mut m = b.clone(); m.remove(k); cx.run(self, Case::b("mutated-bytes", &[u as u64], &m));
                let mut m = b.clone(); m.insert(k, b[k]); cx.run(self, Case::b("mutated-bytes", &[u as u64], &m));
            }
            if l == 0 && tier.thorough() && b.len() <= 24 {
                for k in 0..b.len() { for j in 0..k { for x in ALPHA { for y in ALPHA {
                    let mut m = b.clone(); m[k] = x; m[j] = y; cx.run(self, Case::b("mutated-bytes", &[u as u64], &m));
                } } } }
            }
            if cx.past_deadline() { return; }
        } }
    }
    fn exec(&self, c: &Case, _: &ChRef, st: &mut Stats) -> Res {
        let t = &catalog()[c.ints[0] as usize];
        st.state(hash(&(c.ints[0], &c.bytes)));
        for mode in [SLICE_COPY, STREAM_BORROW_GRACEFUL, READER, ENV_SEEK] { if supports(t, mode) { survive(t, mode, &c.bytes, &LIM, st)?; } }
        Ok(())
    }
    fn show(&self, c: &Case) -> String { format!("{} from {}", catalog()[c.ints[0] as usize].name, hx(&c.bytes)) }
}

/// Lengths and counts claimed by the input.
pub struct Claims;
const CLAIMS: [u64; 16] = [11, 1000, 1001, 65536, 1 << 21, 1 << 24, (1 << 31) - 1, 1 << 31, u32::MAX as u64, 1 << 32, 1 << 40, i64::MAX as u64, 1 << 63,
                           u64::MAX - 64, u64::MAX - 1, u64::MAX];
fn claim_lims(k: u64) -> Lim { match k { 0 => LIM, 1 => Lim { ..Lim::default() }, 2 => Lim { blob: usize::MAX, ..LIM }, _ => Lim { coll: usize::MAX, rec: 100, ..LIM } } }
impl Suite for Claims {
    fn name(&self) -> &'static str { "claimed-lengths" }
    fn bounds(&self, tier: Tier) -> String {
        format!("{} types x values of level {} x every element turned into, or preceded by, a blob claiming each of {:?} bytes (known and foreign tag, exception), followed by 0, 10 or 5000 bytes x {} modes x 4 limit settings",
                catalog().len(), tier.q("0", "0..1"), CLAIMS, NMODES)
    }
    fn units(&self, _: Tier) -> usize { catalog().len() }
    fn unit(&self, u: usize, tier: Tier, cx: &mut Cx) {
        let t = &catalog()[u];
        if !small(t) { return; }
        for l in 0..tier.q(1, 2) { for i in 0..(t.n)(l) {
            let b = encode(&t.sch, &(t.val)(l, i));
            let (ts, at) = parse(&b);
            if b.len() > 200 { continue; }
            for (k, tok) in ts.iter().enumerate() {
                let mut tags = vec![0, UNUSED_TAG];
                match *tok { Tok::Int(g, _) | Tok::Blob(g, _) | Tok::Struct(g) | Tok::Enum(g, _) => tags.push(g), _ => () }
                for g in tags { for n in CLAIMS { for tail in [0, 10, 5000] {
                    let mut m = b[..at[k]].to_vec();
                    m.push(0x80 | g);
                    put_int(&mut m, n);
                    m.resize(m.len() + tail, 0x61);
                    for lim in 0..4 { cx.run(self, Case::b("claimed-lengths", &[u as u64, lim], &m)); }
                } } }
            }
            if cx.past_deadline() { return; }
        } }
    }
    fn exec(&self, c: &Case, _: &ChRef, st: &mut Stats) -> Res {
        let t = &catalog()[c.ints[0] as usize];
        let lim = claim_lims(c.ints[1]);
        st.state(hash(&(&c.ints, &c.bytes)));
        for mode in 0..NMODES { if supports(t, mode) { survive(t, mode, &c.bytes, &lim, st)?; } }
        Ok(())
    }
    fn show(&self, c: &Case) -> String { format!("{} from {}", catalog()[c.ints[0] as usize].name, hx(&c.bytes)) }
}

/// Long and deep documents on an ordinary thread stack.
pub struct Deep;
const PAT: usize = 16;
fn deep(p: usize, v: &Voc, n: usize, close: bool) -> Vec<u8> {
    let mut o = vec![];
    let tg = |k: usize| v.tags[k % v.tags.len()];
    let disc = |k: usize| v.discs.iter().nth(k % v.discs.len().max(1)).copied().unwrap_or(1);
    let mut opened = 0;
    for k in 0..n {
        match p {
            0 => t_struct(&mut o, 1),
            1 => t_struct(&mut o, 2),
            2 => t_struct(&mut o, UNUSED_TAG),
            3 => t_enum(&mut o, 1, disc(0)),
            4 => t_enum(&mut o, 2, disc(1)),
            5 => if k % 2 == 0 { t_enum(&mut o, tg(k), disc(k)) } else { t_struct(&mut o, tg(k)) },
            6 => t_struct(&mut o, tg(k)),
            7 => t_enum(&mut o, 1, disc(v.discs.len().saturating_sub(1))),
            8 => t_enum(&mut o, 1, disc(v.discs.len().saturating_sub(2))),
            9 => { t_int(&mut o, 1, 1); t_struct(&mut o, 2); },
            10 => { t_enum(&mut o, 1, 3); },
            11 => { t_enum(&mut o, if k == 0 { 1 } else { 2 }, 4); t_struct(&mut o, 1); t_blob(&mut o, 1, b"k"); },
            // flat, but long
            12 => { o.push(0xC0); continue; },
            13 => { t_int(&mut o, UNUSED_TAG, k as u64); continue; },
            14 => { t_blob(&mut o, UNUSED_TAG, b"zz"); continue; },
            _ => { t_struct(&mut o, UNUSED_TAG); o.push(0xC0); o.push(0); continue; },
        }
        opened += if p == 11 { 2 } else { 1 };
    }
    if close { for _ in 0..opened { o.push(0); } }
    o.extend_from_slice(&[0, 0]);
    o
}
impl Suite for Deep {
    fn name(&self) -> &'static str { "deep-and-long" }
    fn bounds(&self, tier: Tier) -> String {
        format!("{} types x {} nesting or repetition patterns x {:?} levels, closed or not x recursion limits 0, 1, 8, 32, 64 x 4 modes, each on a thread with a 2 MiB stack", catalog().len(), PAT, reps(tier))
    }
    fn units(&self, _: Tier) -> usize { catalog().len() }
    fn unit(&self, u: usize, tier: Tier, cx: &mut Cx) {
        let t = &catalog()[u];
        if !small(t) { return; }
        for p in 0..PAT as u64 { for n in reps(tier) { for close in 0..2 {
            if *n > 10_000 && close == 1 && p < 12 && u % 8 != 0 { continue; }
            cx.run(self, Case::new("deep-and-long", &[u as u64, p, *n, close]));
        } } if cx.past_deadline() { return; } }
    }
    fn exec(&self, c: &Case, _: &ChRef, st: &mut Stats) -> Res {
        let t = &catalog()[c.ints[0] as usize];
        let b = deep(c.ints[1] as usize, &voc(&t.sch), c.ints[2] as usize, c.ints[3] == 1);
        st.state(hash(&c.ints));
        std::thread::scope(|s| {
            std::thread::Builder::new().stack_size(2 << 20).spawn_scoped(s, || {
                for rec in [0, 1, 8, 32, 64] { for mode in [STREAM_COPY, STREAM_BORROW, ENV, ENV_SEEK_GRACEFUL] {
                    if !supports(t, mode) { continue; }
                    match guard(|| { let mut s2 = Stats::default(); survive(t, mode, &b, &Lim { rec, coll: 1 << 29, ..LIM }, &mut s2).map(|_| s2) }) {
                        Ok(Ok(s2)) => { st.step(s2.transitions); st.trace(); for k in s2.outcomes.keys() { st.out(k); } },
                        Ok(Err(e)) => return Err(e),
                        Err(p) => return fail("panic", format!("{} pattern {} x {}: panicked: {}", t.name, c.ints[1], c.ints[2], p)),
                    }
                } }
                Ok(())
            }).unwrap().join().unwrap()
        })
    }
    fn show(&self, c: &Case) -> String { format!("{} pattern {} x {} closed {}", catalog()[c.ints[0] as usize].name, c.ints[1], c.ints[2], c.ints[3]) }
}
fn reps(tier: Tier) -> &'static [u64] { tier.q(&[7, 9, 31, 32, 33, 34, 65, 200, 20_000], &[1, 2, 7, 8, 9, 31, 32, 33, 34, 63, 64, 65, 66, 200, 2000, 20_000, 400_000]) }

pub fn c06() -> Check {
    Check { id: "C06", level: "model_checking", rule: "Every listed input is fed to every entry point of the real code under a counting allocator, with panics, endless reading, stack exhaustion and time watched.",
            suites: vec![Box::new(Raw), Box::new(Mutants), Box::new(Claims), Box::new(Deep)] }
}
