//! Documents as element lists: parsing, writing, edits, and the alphabets that
//! a schema suggests.

use mc::model::*;
use mc::wire::*;
use std::collections::BTreeSet;

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum Tok { Int(u8, u64), Blob(u8, Vec<u8>), Struct(u8), Enum(u8, u64), End, EndDoc, Exc(Vec<u8>), Pad }

pub fn put(o: &mut Vec<u8>, t: &Tok) {
    match t {
        Tok::Int(g, v) => t_int(o, *g, *v),
        Tok::Blob(g, b) => t_blob(o, *g, b),
        Tok::Struct(g) => t_struct(o, *g),
        Tok::Enum(g, d) => t_enum(o, *g, *d),
        Tok::End => o.push(0),
        Tok::EndDoc => o.push(0x40),
        Tok::Exc(b) => { o.push(0x80); put_int(o, b.len() as u64); o.extend_from_slice(b) },
        Tok::Pad => o.push(0xC0),
    }
}
pub fn emit(ts: &[Tok]) -> Vec<u8> {
    let mut o = vec![];
    for t in ts { put(&mut o, t); }
    o
}

/// The elements of a complete document and where each starts.
pub fn parse(b: &[u8]) -> (Vec<Tok>, Vec<usize>) {
    let mut lp = Lp::new(b, false);
    let (mut ts, mut at) = (vec![], vec![]);
    loop {
        if lp.commit().is_err() || lp.pos as usize >= b.len() { return (ts, at); }
        let c = |s: u64, n: u64| b[s as usize..(s + n) as usize].to_vec();
        match lp.next() {
            Err(e) => panic!("HARNESS: {:?} in valid document", e),
            Ok((ev, pos, _)) => {
                at.push(pos as usize);
                ts.push(match ev {
                    Ev::Int(t, v) => Tok::Int(t, v), Ev::Blob(t, s, n) => Tok::Blob(t, c(s, n)), Ev::Struct(t) => Tok::Struct(t),
                    Ev::Enum(t, d) => Tok::Enum(t, d), Ev::EndS => Tok::End, Ev::EndD => Tok::EndDoc, Ev::Exc(s, n) => Tok::Exc(c(s, n)),
                    Ev::Pad => Tok::Pad,
                });
            },
        }
    }
}

/// One past the last element of the subtree at `i`.
pub fn subtree(ts: &[Tok], i: usize) -> usize {
    let mut d = 0i32;
    for (k, t) in ts.iter().enumerate().skip(i) {
        match t { Tok::Struct(_) | Tok::Enum(..) => d += 1, Tok::End => d -= 1, _ => () }
        if d <= 0 { return k + 1; }
    }
    ts.len()
}

/// What a schema mentions.
#[derive(Default, Debug, Clone)]
pub struct Voc { pub tags: Vec<u8>, pub ints: BTreeSet<u64>, pub blobs: BTreeSet<Vec<u8>>, pub discs: BTreeSet<u64>, pub lens: BTreeSet<usize>, pub text: bool }

fn tag(v: &mut Voc, t: u8) { if !v.tags.contains(&t) { v.tags.push(t); } }

pub fn voc(s: &Sch) -> Voc {
    let mut v = Voc::default();
    tag(&mut v, 1);
    let mut seen = vec![];
    go(s, &mut v, &mut seen);
    return v;

    fn go_rec(r: &RecS, v: &mut Voc, seen: &mut Vec<usize>) {
        for f in &r.fields { tag(v, f.0); go(&f.2, v, seen); }
        if let Some((_, ref d)) = r.deleg { go(d, v, seen); }
    }
    fn go(s: &Sch, v: &mut Voc, seen: &mut Vec<usize>) {
        match s {
            Sch::U(b) => { v.ints.insert(0); v.ints.insert(if *b < 64 { (1 << b) - 1 } else { u64::MAX }); if *b < 64 { v.ints.insert(1 << b); } },
            Sch::I(b) => { v.ints.insert(u64::MAX >> (64 - b)); if *b < 64 { v.ints.insert(1 << b); } },
            Sch::Bool => v.ints.extend([0, 1, 2]),
            Sch::Null => v.ints.extend([0, 1]),
            Sch::Char => v.ints.extend([0x41, 0xD800, 0x10FFFF, 0x110000, 1 << 32 | 0x41]),
            Sch::Str(_) => { v.text = true; v.blobs.insert(b"a".to_vec()); v.blobs.insert(vec![0xff]); },
            Sch::Bytes(_) => { v.blobs.insert(b"a".to_vec()); },
            Sch::ByteArr(n) => { v.lens.insert(*n); if *n <= 4096 { v.blobs.insert(vec![7; *n]); v.blobs.insert(vec![7; *n + 1]); } },
            Sch::Opt(t) | Sch::Seq(t, _) | Sch::Arr(_, t) | Sch::Copied(t) => go(t, v, seen),
            Sch::Map(a, b) => { tag(v, 1); tag(v, 2); go(a, v, seen); go(b, v, seen); },
            Sch::Rec(r) => go_rec(r, v, seen),
            Sch::En(e) => {
                let p = &**e as *const EnS as usize;
                if seen.contains(&p) { return; }
                seen.push(p);
                for (d, r) in &e.vars { v.discs.insert(*d); go_rec(r, v, seen); }
                if let Some(ref c) = e.catchall { go_rec(c, v, seen); v.discs.insert(5); }
            },
            Sch::Lazy(f) => {
                let p = *f as usize;
                if seen.contains(&p) { return; }
                seen.push(p);
                go(&f(), v, seen);
            },
            Sch::Unk | Sch::UF => (),
        }
    }
}

pub const UNUSED_TAG: u8 = 50;

impl Voc {
    /// Element alphabet; `rich` adds further values.
    pub fn toks(&self, rich: bool) -> Vec<Tok> {
        let mut o = vec![Tok::End];
        let mut tags: Vec<u8> = self.tags.iter().copied().take(if rich { 16 } else { 4 }).collect();
        tags.push(UNUSED_TAG);
        for &t in &tags {
            let known = t != UNUSED_TAG;
            let mut ints = BTreeSet::new();
            ints.insert(0);
            if known {
                if rich { ints.extend(&self.ints); ints.insert(1); ints.insert(1000); }
                else { ints.extend(self.ints.iter().rev().take(1)); ints.extend(self.ints.iter().skip(1).take(2)); }
            }
            for v in ints { o.push(Tok::Int(t, v)); }
            if known {
                if self.blobs.is_empty() { o.push(Tok::Blob(t, b"a".to_vec())); }
                for b in self.blobs.iter().take(if rich { 16 } else { 3 }) { o.push(Tok::Blob(t, b.clone())); }
                if rich { o.push(Tok::Blob(t, vec![])); o.push(Tok::Blob(t, vec![0xc3])); o.push(Tok::Blob(t, b"abc".to_vec())); }
            } else if rich { o.push(Tok::Blob(t, b"\x00\x40".to_vec())); }
            o.push(Tok::Struct(t));
            if known || rich {
                for &d in self.discs.iter().take(if rich { 16 } else { 4 }) { o.push(Tok::Enum(t, d)); }
                o.push(Tok::Enum(t, 77));
            }
        }
        o.push(Tok::EndDoc);
        o.push(Tok::Pad);
        o.push(Tok::Exc(b"x".to_vec()));
        if rich { o.push(Tok::Exc(vec![])); }
        o
    }
    /// Payloads to put in place of another.
    pub fn payloads(&self, t: u8) -> Vec<Tok> {
        let mut o = vec![];
        let mut ints: BTreeSet<u64> = self.ints.clone();
        ints.extend([0, 1, 2, 127, 128, 255, 256, 65535, 65536, 1 << 32, u64::MAX - 1, u64::MAX]);
        for v in ints { o.push(Tok::Int(t, v)); }
        let mut bl = self.blobs.clone();
        bl.extend([vec![], b"a".to_vec(), b"ab".to_vec(), vec![0xff], vec![0xc3], b"\xed\xa0\x80".to_vec()]);
        for n in &self.lens { if *n > 0 && *n <= 4096 { bl.insert(vec![9; *n - 1]); } }
        for b in bl { o.push(Tok::Blob(t, b)); }
        o
    }
}
