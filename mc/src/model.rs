//! Reference semantics of the typed layer: schemas, values, an encoder and a
//! decoder, written from the documentation and independent of the code under
//! test.

use crate::wire::*;
use std::collections::btree_map::Entry;
use std::collections::{BTreeMap, BTreeSet};
use std::sync::Arc;

#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub enum Val {
    U(u64), I(i64), B(bool), C(u32), Null,
    Str(Vec<u8>), Bytes(Vec<u8>),
    List(Vec<Val>), Map(Vec<(Val, Val)>), Rec(Vec<Val>), En(u64, Vec<Val>),
    Unk(Vec<(u8, UVal)>), UF(UVal),
}

#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub enum UVal { I(u64), B(Vec<u8>), S(Vec<(u8, UVal)>), E(u64, Vec<(u8, UVal)>) }

pub type S = Arc<Sch>;

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Kind { Ordered, Set, Bag }

#[derive(Clone)]
pub enum Sch {
    U(u32), I(u32), Bool, Char, Null,
    /// zc: borrowed (hence not counted) in zero-copy style
    Str(bool), Bytes(bool),
    ByteArr(usize),
    Opt(S), Seq(S, Kind), Arr(usize, S), Map(S, S),
    Rec(Arc<RecS>), En(Arc<EnS>),
    Unk, UF,
    /// decoded in copying style whatever the style around it
    Copied(S),
    Lazy(fn() -> S),
}

#[derive(Clone, Default)]
pub struct RecS {
    pub fields: Vec<(u8, &'static str, S)>,
    pub deleg: Option<(&'static str, S)>,
    pub unk: Option<(&'static str, S)>,
    pub check: Option<fn(&[Val]) -> bool>,
    /// `()`, which unlike other structs is wrapped in body context.
    pub unit: bool,
}

pub struct EnS { pub vars: Vec<(u64, RecS)>, pub catchall: Option<RecS> }

pub fn rec(fields: Vec<(u8, &'static str, S)>) -> S {
    Arc::new(Sch::Rec(Arc::new(rs(fields))))
}
pub fn rs(fields: Vec<(u8, &'static str, S)>) -> RecS {
    RecS { fields, ..RecS::default() }
}
pub fn rs_deleg(name: &'static str, s: S) -> RecS {
    RecS { deleg: Some((name, s)), ..RecS::default() }
}
pub fn rs_unk(fields: Vec<(u8, &'static str, S)>, name: &'static str, s: S) -> RecS {
    RecS { fields, unk: Some((name, s)), ..RecS::default() }
}
pub fn recs(r: RecS) -> S { Arc::new(Sch::Rec(Arc::new(r))) }
pub fn unit() -> S { recs(RecS { unit: true, ..RecS::default() }) }

// ---------------------------------------------------------------- encoding

fn strip(s: &Sch) -> S {
    match s {
        Sch::Copied(t) => strip(t),
        Sch::Lazy(f) => strip(&f()),
        other => Arc::new(other.clone()),
    }
}

pub fn enc_uval(o: &mut Vec<u8>, tag: u8, v: &UVal) {
    match v {
        UVal::I(n) => t_int(o, tag, *n),
        UVal::B(b) => t_blob(o, tag, b),
        UVal::S(f) => { t_struct(o, tag); enc_unk(o, f) },
        UVal::E(d, f) => { t_enum(o, tag, *d); enc_unk(o, f) },
    }
}
pub fn enc_unk(o: &mut Vec<u8>, f: &[(u8, UVal)]) {
    for (t, v) in f { enc_uval(o, *t, v); }
    o.push(0);
}

fn enc_rec_body(o: &mut Vec<u8>, r: &RecS, v: &[Val]) {
    if let Some((_, ref d)) = r.deleg { return enc_body(o, d, &v[0]); }
    for (i, (tag, _, s)) in r.fields.iter().enumerate() { enc_field(o, s, *tag, &v[i]); }
    if r.unk.is_some() {
        match v[r.fields.len()] { Val::Unk(ref f) => enc_unk(o, f), ref x => panic!("HARNESS {:?}", x) }
    } else { o.push(0); }
}

pub fn enc_body(o: &mut Vec<u8>, s: &Sch, v: &Val) {
    match (s, v) {
        (Sch::Copied(t), _) => enc_body(o, t, v),
        (Sch::Lazy(f), _) => enc_body(o, &f(), v),
        (Sch::Rec(r), Val::Rec(fs)) if !r.unit => enc_rec_body(o, r, fs),
        (Sch::Unk, Val::Unk(f)) => enc_unk(o, f),
        _ => { enc_field(o, s, 1, v); o.push(0); },
    }
}

pub fn enc_field(o: &mut Vec<u8>, s: &Sch, tag: u8, v: &Val) {
    match (s, v) {
        (Sch::Copied(t), _) => enc_field(o, t, tag, v),
        (Sch::Lazy(f), _) => enc_field(o, &f(), tag, v),
        (Sch::Opt(t), Val::List(l)) | (Sch::Seq(t, _), Val::List(l)) | (Sch::Arr(_, t), Val::List(l)) =>
            for e in l { enc_elem(o, t, tag, e); },
        (Sch::Map(k, w), Val::Map(m)) => for (a, b) in m {
            t_struct(o, tag);
            enc_field(o, k, 1, a);
            enc_field(o, w, 2, b);
            o.push(0);
        },
        _ => enc_elem(o, s, tag, v),
    }
}

pub fn enc_elem(o: &mut Vec<u8>, s: &Sch, tag: u8, v: &Val) {
    match (s, v) {
        (Sch::Copied(t), _) => enc_elem(o, t, tag, v),
        (Sch::Lazy(f), _) => enc_elem(o, &f(), tag, v),
        (Sch::U(_), Val::U(n)) => t_int(o, tag, *n),
        (Sch::I(_), Val::I(n)) => t_int(o, tag, zig(*n)),
        (Sch::Bool, Val::B(b)) => t_int(o, tag, *b as u64),
        (Sch::Char, Val::C(c)) => t_int(o, tag, *c as u64),
        (Sch::Null, Val::Null) => t_int(o, tag, 0),
        (Sch::Str(_), Val::Str(b)) | (Sch::Bytes(_), Val::Bytes(b)) | (Sch::ByteArr(_), Val::Bytes(b)) =>
            t_blob(o, tag, b),
        (Sch::Rec(r), Val::Rec(fs)) => {
            if let Some((_, ref d)) = r.deleg { return enc_elem(o, d, tag, &fs[0]); }
            t_struct(o, tag);
            enc_rec_body(o, r, fs);
        },
        (Sch::En(e), Val::En(d, fs)) => {
            t_enum(o, tag, *d);
            let r = e.vars.iter().find(|x| x.0 == *d).map(|x| &x.1).or(e.catchall.as_ref()).unwrap();
            enc_rec_body(o, r, fs);
        },
        (Sch::Unk, Val::Unk(f)) => { t_struct(o, tag); enc_unk(o, f) },
        (Sch::UF, Val::UF(f)) => enc_uval(o, tag, f),
        (Sch::Opt(_), _) | (Sch::Seq(..), _) | (Sch::Arr(..), _) | (Sch::Map(..), _) => {
            t_struct(o, tag);
            enc_field(o, s, 1, v);
            o.push(0);
        },
        _ => panic!("HARNESS: value {:?} does not fit its schema", v),
    }
}

pub fn encode(s: &Sch, v: &Val) -> Vec<u8> {
    let mut o = vec![];
    enc_body(&mut o, s, v);
    o
}

/// Canonical form for comparison: sets, bags and maps sorted.
pub fn canon(s: &Sch, v: &Val) -> Val {
    match (s, v) {
        (Sch::Copied(t), _) => canon(t, v),
        (Sch::Lazy(f), _) => canon(&f(), v),
        (Sch::Opt(t), Val::List(l)) | (Sch::Arr(_, t), Val::List(l)) =>
            Val::List(l.iter().map(|x| canon(t, x)).collect()),
        (Sch::Seq(t, k), Val::List(l)) => {
            let mut r: Vec<Val> = l.iter().map(|x| canon(t, x)).collect();
            if *k != Kind::Ordered { r.sort(); }
            Val::List(r)
        },
        (Sch::Map(a, b), Val::Map(m)) => {
            let mut r: Vec<(Val, Val)> = m.iter().map(|(x, y)| (canon(a, x), canon(b, y))).collect();
            r.sort();
            Val::Map(r)
        },
        (Sch::Rec(r), Val::Rec(f)) => Val::Rec(canon_rec(r, f)),
        (Sch::En(e), Val::En(d, f)) => {
            let r = e.vars.iter().find(|x| x.0 == *d).map(|x| &x.1).or(e.catchall.as_ref()).unwrap();
            Val::En(*d, canon_rec(r, f))
        },
        _ => v.clone(),
    }
}
fn canon_rec(r: &RecS, f: &[Val]) -> Vec<Val> {
    if let Some((_, ref d)) = r.deleg { return vec![canon(d, &f[0])]; }
    let mut o: Vec<Val> = r.fields.iter().zip(f).map(|((_, _, s), v)| canon(s, v)).collect();
    if r.unk.is_some() { o.push(f[r.fields.len()].clone()); }
    o
}

// ---------------------------------------------------------------- decoding

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum EK {
    Parse(PErr),
    Exception(Vec<u8>),
    Type(&'static str, &'static str),
    Range,
    Recursion,
    UnknownField(u8, u64),
    UnknownVariant(u64),
    TooFew(u64),
    TooMany(u64),
    Missing,
    Invalid,
    InvalidMsg,
    MaxCollect,
    MaxBlob,
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct DErr { pub kind: EK, pub path: String }

impl DErr {
    /// More input could still turn this into success.
    pub fn is_eof(&self) -> bool { matches!(self.kind, EK::Parse(PErr::Eof) | EK::Parse(PErr::Trunc(_))) }
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub struct Lim { pub rec: usize, pub ignore: bool, pub blob: usize, pub coll: usize }
impl Lim {
    pub fn default() -> Lim { Lim { rec: 32, ignore: true, blob: 65536, coll: 256 } }
    pub fn wide() -> Lim { Lim { rec: 4096, ignore: true, blob: 1 << 40, coll: 1 << 40 } }
    pub fn strict() -> Lim { Lim { ignore: false, ..Lim::wide() } }
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Style { Copy, Borrow }

#[derive(Clone, Copy, Debug, Default, PartialEq, Eq)]
pub struct Usage { pub coll: usize, pub blob: usize, pub depth: usize, pub unknown: usize }

pub struct Dec<'a> {
    pub lp: Lp<'a>,
    pub lim: Lim,
    pub style: Style,
    pub used: Usage,
    /// (offset, len) of blobs that a borrowing decoder points to
    pub borrowed: Vec<(u64, u64)>,
}

#[derive(Clone)]
struct Cx { depth: usize, path: Arc<Path> }
struct Path { up: Option<Arc<Path>>, name: String, pos: u64 }
impl Cx {
    fn show(&self) -> String {
        fn go(p: &Path) -> String {
            match p.up {
                Some(ref u) => format!("{}.{}{{{}}}", go(u), p.name, p.pos),
                None => format!("{{{}}}", p.pos),
            }
        }
        go(&self.path)
    }
    fn err<T>(&self, kind: EK) -> Result<T, DErr> { Err(DErr { kind, path: self.show() }) }
}

enum Acc { One(Option<Val>), Many(Vec<Val>), Map(Vec<(Val, Val)>, BTreeMap<Val, usize>), Unk }

#[derive(Clone, Copy, Debug)]
enum Fv { Int(u64), Blob(u64, u64), Struct, Enum(u64) }
#[derive(Clone, Copy, Debug)]
struct Fd { tag: u8, pos: u64, depth: u64, v: Fv }

impl Fv {
    fn name(&self) -> &'static str {
        match self { Fv::Int(_) => "Integer", Fv::Blob(..) => "Blob", Fv::Struct => "Struct", Fv::Enum(_) => "Enum" }
    }
}

impl<'a> Dec<'a> {
    pub fn new(b: &'a [u8], graceful: bool, lim: Lim, style: Style) -> Dec<'a> {
        Dec { lp: Lp::new(b, graceful), lim, style, used: Usage::default(), borrowed: vec![] }
    }

    /// Decode one top-level value.
    pub fn top(&mut self, s: &Sch) -> Result<Val, DErr> {
        self.used.coll = 0;
        self.used.blob = 0;
        let c = Cx { depth: 0, path: Arc::new(Path { up: None, name: String::new(), pos: 0 }) };
        self.body(s, &c)
    }

    fn push(&mut self, c: &Cx, name: &str, pos: u64) -> Result<Cx, DErr> {
        if c.depth >= self.lim.rec { return c.err(EK::Recursion); }
        self.used.depth = self.used.depth.max(c.depth + 1);
        Ok(Cx { depth: c.depth + 1,
                path: Arc::new(Path { up: Some(c.path.clone()), name: name.to_string(), pos }) })
    }
    fn collect(&mut self, c: &Cx) -> Result<(), DErr> {
        if self.used.coll + 1 > self.lim.coll { return c.err(EK::MaxCollect); }
        self.used.coll += 1;
        Ok(())
    }

    fn next_field(&mut self, c: &Cx) -> Result<Option<Fd>, DErr> {
        loop {
            let (ev, pos, depth) = match self.lp.next() {
                Ok(x) => x, Err(e) => return c.err(EK::Parse(e)),
            };
            let f = |tag, v| Ok(Some(Fd { tag, pos, depth, v }));
            return match ev {
                Ev::Pad => continue,
                Ev::EndS | Ev::EndD => Ok(None),
                Ev::Exc(s, n) => {
                    // The message is read; what does not fit is left over.
                    let have = (self.lp.b.len() as u64).saturating_sub(s).min(n).min(256);
                    let m = self.lp.b[s as usize..(s + have) as usize].to_vec();
                    self.lp.pos = s + have;
                    c.err(EK::Exception(m))
                },
                Ev::Int(t, v) => f(t, Fv::Int(v)),
                Ev::Blob(t, s, n) => f(t, Fv::Blob(s, n)),
                Ev::Struct(t) => f(t, Fv::Struct),
                Ev::Enum(t, d) => f(t, Fv::Enum(d)),
            };
        }
    }

    fn skip(&mut self, c: &Cx, f: &Fd) -> Result<(), DErr> {
        if let Fv::Struct | Fv::Enum(_) = f.v {
            while self.lp.depth > f.depth {
                if let Err(e) = self.lp.next() { return c.err(EK::Parse(e)); }
            }
        }
        Ok(())
    }

    fn blob(&mut self, c: &Cx, f: &Fd) -> Result<(u64, u64), DErr> {
        match f.v { Fv::Blob(s, n) => Ok((s, n)), ref o => c.err(EK::Type("Blob", o.name())) }
    }
    fn take(&mut self, c: &Cx, s: u64, n: u64) -> Result<Vec<u8>, DErr> {
        let e = s + n;
        if e > self.lp.b.len() as u64 { return c.err(EK::Parse(PErr::Trunc(e - self.lp.b.len() as u64))); }
        self.lp.pos = e;
        Ok(self.lp.b[s as usize..e as usize].to_vec())
    }
    fn blob_bytes(&mut self, c: &Cx, f: &Fd, zc: bool) -> Result<Vec<u8>, DErr> {
        let (s, n) = self.blob(c, f)?;
        if zc && self.style == Style::Borrow {
            let r = self.take(c, s, n)?;
            self.borrowed.push((s, n));
            return Ok(r);
        }
        if n > (self.lim.blob - self.used.blob) as u64 { return c.err(EK::MaxBlob); }
        self.used.blob += n as usize;
        self.take(c, s, n)
    }
    fn enter(&mut self, c: &Cx, f: &Fd) -> Result<(), DErr> {
        match f.v { Fv::Struct => Ok(()), ref o => c.err(EK::Type("Struct", o.name())) }
    }

    fn body(&mut self, s: &Sch, c: &Cx) -> Result<Val, DErr> {
        match s {
            Sch::Lazy(f) => self.body(&f(), c),
            Sch::Copied(t) => self.copied(|d| d.body(t, c)),
            Sch::Rec(r) => Ok(Val::Rec(self.rec_body(r, c)?)),
            Sch::Unk => Ok(Val::Unk(self.unk_body(c)?)),
            _ => {
                let r = rs(vec![(1, "top", Arc::new(s.clone()))]);
                Ok(self.rec_body(&r, c)?.pop().unwrap())
            },
        }
    }

    fn copied<T>(&mut self, f: impl FnOnce(&mut Self) -> T) -> T {
        let o = self.style;
        self.style = Style::Copy;
        let r = f(self);
        self.style = o;
        r
    }

    fn push_tag(&mut self, c: &Cx, tag: u8, pos: u64) -> Result<Cx, DErr> {
        self.push(c, &format!("{:02}", tag), pos)
    }

    fn unk_body(&mut self, c: &Cx) -> Result<Vec<(u8, UVal)>, DErr> {
        let mut o = vec![];
        while let Some(f) = self.next_field(c)? {
            let sc = self.push_tag(c, f.tag, f.pos)?;
            self.collect(&sc)?;
            o.push((f.tag, self.unk_val(&sc, &f)?));
        }
        Ok(o)
    }
    fn unk_val(&mut self, c: &Cx, f: &Fd) -> Result<UVal, DErr> {
        Ok(match f.v {
            Fv::Int(n) => UVal::I(n),
            Fv::Blob(..) => UVal::B(self.blob_bytes(c, f, true)?),
            Fv::Struct => UVal::S(self.unk_body(c)?),
            Fv::Enum(d) => UVal::E(d, self.unk_body(c)?),
        })
    }

    fn rec_body(&mut self, r: &RecS, c: &Cx) -> Result<Vec<Val>, DErr> {
        let o = if let Some((n, ref d)) = r.deleg {
            let sc = self.push(c, n, self.lp.pos)?;
            vec![self.body(d, &sc)?]
        } else {
            let mut accs: Vec<Acc> = r.fields.iter().map(|x| acc(&x.2)).collect();
            let mut unk = vec![];
            while let Some(f) = self.next_field(c)? {
                if let Some(i) = r.fields.iter().position(|x| x.0 == f.tag) {
                    let sc = self.push(c, r.fields[i].1, f.pos)?;
                    self.field(&r.fields[i].2, &mut accs[i], &sc, &f)?;
                } else if let Some((_, ref us)) = r.unk {
                    let sc = self.push_tag(c, f.tag, f.pos)?;
                    self.collect(&sc)?;
                    let v = match **us {
                        Sch::Copied(_) => self.copied(|d| d.unk_val(&sc, &f))?,
                        _ => self.unk_val(&sc, &f)?,
                    };
                    unk.push((f.tag, v));
                } else if self.lim.ignore {
                    self.used.unknown += 1;
                    self.skip(c, &f)?;
                } else {
                    return c.err(EK::UnknownField(f.tag, f.pos));
                }
            }
            let mut o = vec![];
            let end = self.lp.pos;
            for (a, (_, n, s)) in accs.into_iter().zip(&r.fields) {
                let sc = self.push(c, n, end)?;
                o.push(self.finish(s, a, &sc)?);
            }
            if let Some((n, _)) = r.unk {
                self.push(c, n, end)?;
                o.push(Val::Unk(unk));
            }
            o
        };
        if let Some(ck) = r.check { if !ck(&o) { return c.err(EK::InvalidMsg); } }
        Ok(o)
    }

    fn field(&mut self, s: &Sch, a: &mut Acc, c: &Cx, f: &Fd) -> Result<(), DErr> {
        match (s, a) {
            (Sch::Lazy(g), a) => self.field(&g(), a, c, f),
            (Sch::Copied(t), a) => self.copied(|d| d.field(t, a, c, f)),
            (Sch::Seq(t, _), Acc::Many(l)) => { self.collect(c)?; l.push(self.elem(t, c, f)?); Ok(()) },
            (Sch::Map(k, v), Acc::Map(m, ix)) => {
                self.collect(c)?;
                self.enter(c, f)?;
                let mut kv = self.rec_body(&rs(vec![(1, "field_0", k.clone()), (2, "field_1", v.clone())]), c)?;
                let v = kv.pop().unwrap();
                let key = kv.pop().unwrap();
                match ix.entry(canon(k, &key)) {
                    Entry::Occupied(e) => m[*e.get()].1 = v,
                    Entry::Vacant(e) => { e.insert(m.len()); m.push((key, v)); },
                }
                Ok(())
            },
            (Sch::Arr(n, t), Acc::Many(l)) => {
                if l.len() >= *n { return c.err(EK::TooMany(*n as u64)); }
                l.push(self.elem(t, c, f)?);
                Ok(())
            },
            (Sch::Opt(t), Acc::Many(l)) => {
                if !l.is_empty() { return c.err(EK::TooMany(1)); }
                l.push(self.elem(t, c, f)?);
                Ok(())
            },
            (_, Acc::One(o)) => {
                if o.is_some() { return c.err(EK::TooMany(1)); }
                *o = Some(self.elem(s, c, f)?);
                Ok(())
            },
            _ => panic!("HARNESS: accumulator mismatch"),
        }
    }

    fn finish(&mut self, s: &Sch, a: Acc, c: &Cx) -> Result<Val, DErr> {
        match (s, a) {
            (Sch::Lazy(g), a) => self.finish(&g(), a, c),
            (Sch::Copied(t), a) => self.finish(t, a, c),
            (Sch::Seq(t, k), Acc::Many(l)) => {
                Ok(Val::List(if *k == Kind::Set {
                    let mut seen = BTreeSet::new();
                    l.into_iter().filter(|x| seen.insert(canon(t, x))).collect()
                } else { l }))
            },
            (Sch::Opt(_), Acc::Many(l)) => Ok(Val::List(l)),
            (Sch::Arr(n, _), Acc::Many(l)) => {
                if l.len() < *n {
                    return if l.is_empty() { c.err(EK::Missing) } else { c.err(EK::TooFew(*n as u64)) };
                }
                Ok(Val::List(l))
            },
            (Sch::Map(..), Acc::Map(m, _)) => Ok(Val::Map(m)),
            (Sch::ByteArr(0), Acc::One(None)) => Ok(Val::Bytes(vec![])),
            (_, Acc::One(Some(v))) => Ok(v),
            (_, Acc::One(None)) => c.err(EK::Missing),
            _ => panic!("HARNESS: accumulator mismatch"),
        }
    }

    fn int(&self, c: &Cx, f: &Fd) -> Result<u64, DErr> {
        match f.v { Fv::Int(n) => Ok(n), ref o => c.err(EK::Type("Integer", o.name())) }
    }

    fn elem(&mut self, s: &Sch, c: &Cx, f: &Fd) -> Result<Val, DErr> {
        match s {
            Sch::Lazy(g) => self.elem(&g(), c, f),
            Sch::Copied(t) => self.copied(|d| d.elem(t, c, f)),
            Sch::U(bits) => {
                let n = self.int(c, f)?;
                if *bits < 64 && n >> bits != 0 { return c.err(EK::Range); }
                Ok(Val::U(n))
            },
            Sch::I(bits) => {
                let n = unzig(self.int(c, f)?);
                let m = 1i128 << (bits - 1);
                if (n as i128) < -m || (n as i128) >= m { return c.err(EK::Range); }
                Ok(Val::I(n))
            },
            Sch::Bool => match self.int(c, f)? {
                0 => Ok(Val::B(false)), 1 => Ok(Val::B(true)), _ => c.err(EK::Range),
            },
            Sch::Null => if self.int(c, f)? == 0 { Ok(Val::Null) } else { c.err(EK::Range) },
            Sch::Char => {
                let n = self.int(c, f)?;
                if n > u32::MAX as u64 { return c.err(EK::Range); }
                if n > 0x10FFFF || (n >= 0xD800 && n < 0xE000) { return c.err(EK::InvalidMsg); }
                Ok(Val::C(n as u32))
            },
            Sch::Str(zc) => {
                let b = self.blob_bytes(c, f, *zc)?;
                if !utf8(&b) { return c.err(EK::Invalid); }
                Ok(Val::Str(b))
            },
            Sch::Bytes(zc) => Ok(Val::Bytes(self.blob_bytes(c, f, *zc)?)),
            Sch::ByteArr(n) => {
                let (st, len) = self.blob(c, f)?;
                if len != *n as u64 { return c.err(EK::InvalidMsg); }
                // read_exact: an ordinary unexpected end of file
                match self.take(c, st, len) {
                    Err(_) => c.err(EK::Parse(PErr::Eof)),
                    Ok(b) => Ok(Val::Bytes(b)),
                }
            },
            Sch::Rec(r) => {
                if let Some((n, ref d)) = r.deleg {
                    let sc = self.push(c, n, f.pos)?;
                    return Ok(Val::Rec(vec![self.elem(d, &sc, f)?]));
                }
                self.enter(c, f)?;
                Ok(Val::Rec(self.rec_body(r, c)?))
            },
            Sch::En(e) => {
                let d = match f.v { Fv::Enum(d) => d, ref o => return c.err(EK::Type("Enum", o.name())) };
                match e.vars.iter().find(|x| x.0 == d).map(|x| &x.1).or(e.catchall.as_ref()) {
                    Some(r) => Ok(Val::En(d, self.rec_body(r, c)?)),
                    None => c.err(EK::UnknownVariant(d)),
                }
            },
            Sch::Unk => { self.enter(c, f)?; Ok(Val::Unk(self.unk_body(c)?)) },
            Sch::UF => Ok(Val::UF(self.unk_val(c, f)?)),
            Sch::Opt(_) | Sch::Seq(..) | Sch::Arr(..) | Sch::Map(..) => {
                self.enter(c, f)?;
                self.body(s, c)
            },
        }
    }
}

fn acc(s: &Sch) -> Acc {
    match s {
        Sch::Lazy(f) => acc(&f()),
        Sch::Copied(t) => acc(t),
        Sch::Seq(..) | Sch::Arr(..) | Sch::Opt(_) => Acc::Many(vec![]),
        Sch::Map(..) => Acc::Map(vec![], BTreeMap::new()),
        Sch::Unk => Acc::Unk,
        _ => Acc::One(None),
    }
}

/// Hand-written UTF-8 validity (Unicode table 3-7).
pub fn utf8(b: &[u8]) -> bool {
    let mut i = 0;
    let c = |k: usize, lo: u8, hi: u8| b.get(k).map_or(false, |&x| x >= lo && x <= hi);
    while i < b.len() {
        i += match b[i] {
            0..=0x7f => 1,
            0xc2..=0xdf if c(i + 1, 0x80, 0xbf) => 2,
            0xe0 if c(i + 1, 0xa0, 0xbf) && c(i + 2, 0x80, 0xbf) => 3,
            0xe1..=0xec | 0xee..=0xef if c(i + 1, 0x80, 0xbf) && c(i + 2, 0x80, 0xbf) => 3,
            0xed if c(i + 1, 0x80, 0x9f) && c(i + 2, 0x80, 0xbf) => 3,
            0xf0 if c(i + 1, 0x90, 0xbf) && c(i + 2, 0x80, 0xbf) && c(i + 3, 0x80, 0xbf) => 4,
            0xf1..=0xf3 if c(i + 1, 0x80, 0xbf) && c(i + 2, 0x80, 0xbf) && c(i + 3, 0x80, 0xbf) => 4,
            0xf4 if c(i + 1, 0x80, 0x8f) && c(i + 2, 0x80, 0xbf) && c(i + 3, 0x80, 0xbf) => 4,
            _ => return false,
        };
    }
    true
}

pub fn stripped(s: &Sch) -> S { strip(s) }
