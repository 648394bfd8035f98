//! C05 truncation.

use crate::cat::*;
use crate::dec::*;
use crate::docs::*;
use crate::run::*;
use mc::ensure;
use mc::eng::*;
use mc::model::*;

/// Fields nobody knows, for what is skipped rather than decoded.
pub fn foreign(k: u64) -> Vec<Tok> {
    let t = UNUSED_TAG;
    match k {
        0 => vec![],
        1 => vec![Tok::Blob(t, vec![0x55; 5])],
        2 => vec![Tok::Struct(t), Tok::Blob(1, b"\x00\x00\x00".to_vec()), Tok::Enum(2, 300), Tok::Int(1, 300), Tok::End, Tok::Pad, Tok::End],
        3 => vec![Tok::Int(t, u64::MAX)],
        4 => vec![Tok::Blob(t, vec![0x40; 300])],
        // remainders which could pass for something else
        5 => vec![Tok::Blob(t, vec![0])],
        6 => vec![Tok::Blob(t, vec![0x40])],
        7 => vec![Tok::Blob(t, vec![]), Tok::Blob(t, vec![0, 0])],
        8 => vec![Tok::Struct(t), Tok::Blob(1, vec![0]), Tok::End, Tok::Enum(t, 0), Tok::Blob(2, vec![0xC0]), Tok::End],
        _ => vec![Tok::Struct(t), Tok::End, Tok::Blob(63, vec![0x41])],
    }
}
const NVAR: u64 = 10;

pub fn doc(t: &TyD, l: u8, i: usize, var: u64, place: u64) -> Vec<u8> {
    let b = encode(&t.sch, &(t.val)(l, i));
    if var == 0 { return b; }
    let (mut ts, _) = parse(&b);
    let at = if place == 0 { 0 } else { ts.len() - 1 };
    ts.splice(at..at, foreign(var));
    emit(&ts)
}

fn cuts(n: usize) -> Vec<usize> {
    if n <= 700 { (0..n).collect() } else { (0..80).chain((n - 80)..n).chain((80..n - 80).step_by(499)).collect() }
}

pub struct Cuts;
impl Suite for Cuts {
    fn name(&self) -> &'static str { "cuts" }
    fn bounds(&self, tier: Tier) -> String {
        format!("{} types x values of levels {} x documents {} x every cut point \
                 (documents over 700 bytes: the first and last 80 and every 499th) x {} decoding modes",
                catalog().len(), tier.q("0..2 (generated wrappers: 0)", "0..2 (generated wrappers: 0..1)"),
                tier.q("(bare; 9 kinds of skipped content in front or at the end: integer, blobs of 0, 1, 2, 5 and 300 bytes, structs, enums; level 2: bare; generated wrappers: bare, skipped struct, skipped 1-byte blob)",
                       "(bare; 9 kinds of skipped content in front or at the end: integer, blobs of 0, 1, 2, 5 and 300 bytes, structs, enums; level 2: bare)"), NMODES)
    }
    fn units(&self, _: Tier) -> usize { catalog().len() }
    fn unit(&self, u: usize, tier: Tier, cx: &mut Cx) {
        let t = &catalog()[u];
        for l in 0..(if t.core { 3 } else { tier.q(1, 2) }) {
            for i in 0..(t.n)(l) {
                if cx.past_deadline() { return; }
                for var in 0..NVAR { for place in 0..2 {
                    if var == 0 && place > 0 || var > 0 && l == 2 || !t.core && !tier.thorough() && ![0, 2, 5].contains(&var) { continue; }
                    let n = doc(t, l, i, var, place).len();
                    for c in cuts(n) { cx.run(self, Case::new("cuts", &[u as u64, l as u64, i as u64, var, place, c as u64])); }
                } }
            }
        }
    }
    fn exec(&self, c: &Case, _: &ChRef, st: &mut Stats) -> Res {
        let t = &catalog()[c.ints[0] as usize];
        let full = doc(t, c.ints[1] as u8, c.ints[2] as usize, c.ints[3], c.ints[4]);
        let b = &full[..c.ints[5] as usize];
        st.state(hash(&(c.ints[0], b)));
        for mode in 0..NMODES {
            if !supports(t, mode) { continue; }
            let lim = Lim::wide();
            if !graceful(mode) {
                let g = decode(t, mode, b, &lim);
                ensure!(g.res.is_err(), format!("prefix-accepted:{}", t.name), "{}: the first {} of {} bytes {} are accepted via {} as {}",
                        t.name, b.len(), full.len(), hx(b), MODE_NAMES[mode], sv(g.res.as_ref().unwrap()));
                st.step(1);
            }
            // the missing byte really was what was missing
            compare(t, mode, b, &lim, false, st)?;
        }
        Ok(())
    }
    fn show(&self, c: &Case) -> String {
        let t = &catalog()[c.ints[0] as usize];
        format!("{} = {} variant {} place {} cut at {}", t.name, sv(&(t.val)(c.ints[1] as u8, c.ints[2] as usize)), c.ints[3], c.ints[4], c.ints[5])
    }
}

/// Reading on after the document was cut short: everything is over.
pub struct After;
impl Suite for After {
    fn name(&self) -> &'static str { "graceful-reading-on" }
    fn bounds(&self, _: Tier) -> String {
        format!("{} types x values of level 0 x every cut point x 6 stream modes with graceful end of file or an explicit end marker in place of the rest: both must agree",
                catalog().len())
    }
    fn units(&self, _: Tier) -> usize { catalog().len() }
    fn unit(&self, u: usize, _: Tier, cx: &mut Cx) {
        let t = &catalog()[u];
        for i in 0..(t.n)(0) {
            let n = doc(t, 0, i, 2, 0).len();
            if n > 2000 { continue; }
            for c in 0..n { cx.run(self, Case::new("graceful-reading-on", &[u as u64, i as u64, c as u64])); }
        }
    }
    fn exec(&self, c: &Case, _: &ChRef, st: &mut Stats) -> Res {
        let t = &catalog()[c.ints[0] as usize];
        let full = doc(t, 0, c.ints[1] as usize, 2, 0);
        let b = &full[..c.ints[2] as usize];
        // Is this an element boundary?
        let mut lp = mc::wire::Lp::new(b, false);
        let boundary = loop {
            if lp.commit().is_err() { break false; }
            if lp.pos as usize == b.len() { break true; }
            if lp.next().is_err() { break false; }
        };
        let mut marked = b.to_vec();
        marked.push(0x40);
        st.state(hash(&(c.ints[0], b)));
        for (gm, m) in [(STREAM_COPY_GRACEFUL, STREAM_COPY), (STREAM_BORROW_GRACEFUL, STREAM_BORROW), (ENV_GRACEFUL, ENV), (ENV_SEEK_GRACEFUL, ENV_SEEK)] {
            if !supports(t, gm) { continue; }
            let lim = Lim::wide();
            let g = decode(t, gm, b, &lim);
            st.step(1);
            if !boundary {
                ensure!(g.res.is_err(), format!("graceful-inside:{}", t.name), "{}: {} ends inside an element but is accepted via {} as {}", t.name, hx(b), MODE_NAMES[gm], sv(g.res.as_ref().unwrap()));
                st.out("inside");
                continue;
            }
            let e = decode(t, m, &marked, &lim);
            match (&g.res, &e.res) {
                (Ok(x), Ok(y)) => ensure!(canon(&t.sch, x) == canon(&t.sch, y), format!("graceful-differs:{}", t.name), "{}: {}: graceful end gives {}, end marker gives {}", t.name, hx(b), sv(x), sv(y)),
                (Err(x), Err(y)) => ensure!(rk(x).0 == rk(y).0, format!("graceful-error:{}", t.name), "{}: {}: graceful end fails with {:?}, end marker with {:?}", t.name, hx(b), x, y),
                (x, y) => return fail(format!("graceful-differs:{}", t.name), format!("{}: {}: graceful end gives {:?}, end marker gives {:?}", t.name, hx(b), x, y)),
            }
            ensure!(g.eof == e.eof, format!("graceful-eof:{}", t.name), "{}: {}: eof() is {} after a graceful end and {} after a marker", t.name, hx(b), g.eof, e.eof);
            st.out("boundary");
        }
        st.trace();
        Ok(())
    }
}

pub fn c05(wide: bool) -> Check {
    let mut s: Vec<Box<dyn Suite>> = vec![Box::new(Cuts)];
    if !wide { s.push(Box::new(After)); }
    Check { id: "C05", level: "model_checking", rule: "Every value is encoded, cut at every point and decoded in every mode; the outcome is compared with the reference decoder and, without graceful end of file, must be an error.",
            suites: s }
}
