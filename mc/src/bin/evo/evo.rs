//! C22 documented schema evolutions.

use crate::cat::*;
use crate::retro::*;
use crate::run::*;
use crate::ty::*;
use fourleaf::adapt::Copied;
use fourleaf::de::{self, style, Config, Deserialize};
use fourleaf::fourleaf_retrofit;
use fourleaf::ser::{self, Serialize};
use fourleaf::stream::{self, Stream};
use fourleaf::unknown::UnknownFields;
use mc::ensure;
use mc::env::EnvRd;
use mc::eng::*;
use mc::model::*;
use std::collections::*;
use std::rc::Rc;
use std::sync::{Arc, OnceLock};

/// What the documentation says of one value.
#[derive(Clone, Debug, PartialEq)]
pub enum Exp { Reads(Val), Rejected, NoClaim }
use Exp::*;
type F = Arc<dyn Fn(&Val, bool) -> Exp + Send + Sync>;

pub struct Pair {
    rule: &'static str,
    name: String,
    n: fn(u8) -> usize,
    write: fn(u8, usize) -> (Val, Result<Vec<u8>, stream::Error>),
    sch: S,
    copy: fn(&[u8], &Config) -> DR,
    borrow: Option<fn(&[u8], &Config) -> DR>,
    env: Option<fn(&mut Stream<EnvRd>, &Config) -> DR>,
    f: F,
}

pub trait W: Dom + Serialize + 'static + for<'a> Deserialize<Slice<'a>, style::Copying> {}
impl<T: Dom + Serialize + 'static + for<'a> Deserialize<Slice<'a>, style::Copying>> W for T {}
pub trait R: Dom + Serialize + 'static + for<'a> Deserialize<Slice<'a>, style::Copying> + for<'a> Deserialize<Slice<'a>, style::ZeroCopy>
    + Deserialize<EnvRd, style::Copying> {}
impl<T: Dom + Serialize + 'static + for<'a> Deserialize<Slice<'a>, style::Copying> + for<'a> Deserialize<Slice<'a>, style::ZeroCopy>
    + Deserialize<EnvRd, style::Copying>> R for T {}

fn put<A: W, B: R>(v: &mut Vec<Pair>, rule: &'static str, what: &str, ctx: &str, f: F) {
    fn n<A: W>(l: u8) -> usize { values::<A>(l).len() }
    fn write<A: W>(l: u8, i: usize) -> (Val, Result<Vec<u8>, stream::Error>) { let x = &values::<A>(l)[i]; (x.val(), ser::to_vec(x)) }
    fn copy<B: R>(b: &[u8], c: &Config) -> DR { de::from_slice_copy::<B>(b, c).map(|x| x.val()) }
    v.push(Pair { rule, name: format!("{} in {}", what, ctx), n: n::<A>, write: write::<A>, sch: B::sch(), copy: copy::<B>, borrow: None, env: None, f });
}

/// In the other decoding modes as well.
fn put_all<A: W, B: R>(v: &mut Vec<Pair>, rule: &'static str, what: &str, ctx: &str, f: F) {
    fn borrow<B: R>(b: &[u8], c: &Config) -> DR { de::from_slice_borrow::<B>(b, c).map(|x| x.val()) }
    fn env<B: R>(s: &mut Stream<EnvRd>, c: &Config) -> DR { de::from_stream_copy::<_, B>(s, c).map(|x| x.val()) }
    put::<A, B>(v, rule, what, ctx, f);
    let p = v.last_mut().unwrap();
    p.borrow = Some(borrow::<B>);
    p.env = Some(env::<B>);
}

/// Apply `f` to the parts of a value.
fn parts(l: &[Val], strict: bool, f: &F, which: impl Fn(usize) -> bool) -> Result<Vec<Val>, Exp> {
    let mut o = vec![];
    let mut bad = None;
    for (i, x) in l.iter().enumerate() {
        if !which(i) { o.push(x.clone()); continue; }
        match f(x, strict) {
            Reads(y) => o.push(y),
            NoClaim => return Err(NoClaim),
            Rejected => bad = Some(Rejected),
        }
    }
    bad.map_or(Ok(o), Err)
}
fn at(k: usize, f: &F) -> F {
    let f = f.clone();
    Arc::new(move |v, s| match v {
        Val::Rec(l) => parts(l, s, &f, |i| i == k).map_or_else(|e| e, |l| Reads(Val::Rec(l))),
        Val::En(d, l) => parts(l, s, &f, |i| i == k).map_or_else(|e| e, |l| Reads(Val::En(*d, l))),
        _ => panic!("HARNESS"),
    })
}
fn each(f: &F) -> F {
    let f = f.clone();
    Arc::new(move |v, s| match v {
        Val::List(l) => parts(l, s, &f, |_| true).map_or_else(|e| e, |l| Reads(Val::List(l))),
        Val::Map(m) => {
            let k: Vec<Val> = m.iter().map(|x| x.0.clone()).collect();
            let w: Vec<Val> = m.iter().map(|x| x.1.clone()).collect();
            parts(&w, s, &f, |_| true).map_or_else(|e| e, |l| Reads(Val::Map(k.into_iter().zip(l).collect())))
        },
        _ => panic!("HARNESS"),
    })
}
/// Only where the value is a field.
fn as_field(f: &F) -> F {
    let f = f.clone();
    Arc::new(move |v, s| match v { Val::En(1, _) => NoClaim, _ => at(0, &f)(v, s) })
}

/// A change allowed for the type of a struct field.
fn field<A: W, B: R>(v: &mut Vec<Pair>, rule: &'static str, what: &str, f: impl Fn(&Val) -> Exp + Send + Sync + 'static) {
    let f: F = Arc::new(move |v, _| f(v));
    field_(v, rule, what, f, PhantomPair::<A, B>::new())
}
struct PhantomPair<A, B>(std::marker::PhantomData<(A, B)>);
impl<A, B> PhantomPair<A, B> { fn new() -> Self { PhantomPair(std::marker::PhantomData) } }
fn field_<A: W, B: R>(v: &mut Vec<Pair>, rule: &'static str, what: &str, f: F, _: PhantomPair<A, B>) {
    put_all::<(A,), (B,)>(v, rule, what, "(_,)", at(0, &f));
    put::<(u8, A), (u8, B)>(v, rule, what, "(u8, _)", at(1, &f));
    put::<Option<(A,)>, Option<(B,)>>(v, rule, what, "Option<(_,)>", each(&at(0, &f)));
    put::<(Vec<u16>, A, String), (Vec<u16>, B, String)>(v, rule, what, "(Vec<u16>, _, String)", at(1, &f));
    put_all::<Gen<A>, Gen<B>>(v, rule, what, "struct", at(0, &f));
    put::<EGen<A>, EGen<B>>(v, rule, what, "enum variant", as_field(&f));
    put::<Vec<(A,)>, Vec<(B,)>>(v, rule, what, "Vec<(_,)>", each(&at(0, &f)));
    put::<BTreeMap<u8, (A,)>, BTreeMap<u8, (B,)>>(v, rule, what, "BTreeMap<u8, (_,)>", each(&at(0, &f)));
    put::<Deleg<(A,)>, Deleg<(B,)>>(v, rule, what, "delegating struct", at(0, &at(0, &f)));
    // the value of a map entry is a field, too
    put::<BTreeMap<u8, A>, BTreeMap<u8, B>>(v, rule, what, "BTreeMap<u8, _>", each(&f));
}
/// A change allowed wherever the type occurs.
fn anywhere<A: W, B: R>(v: &mut Vec<Pair>, rule: &'static str, what: &str, f: impl Fn(&Val, bool) -> Exp + Send + Sync + 'static) {
    let f: F = Arc::new(f);
    put_all::<A, B>(v, rule, what, "top level", f.clone());
    // collections of bytes are blobs
    if !A::is_u8() && !B::is_u8() {
        put::<Vec<A>, Vec<B>>(v, rule, what, "Vec<_>", each(&f));
        put::<[A; 2], [B; 2]>(v, rule, what, "[_; 2]", each(&f));
        put::<(Vec<Vec<A>>,), (Vec<Vec<B>>,)>(v, rule, what, "Vec<Vec<_>>", at(0, &each(&each(&f))));
    }
    put::<Option<A>, Option<B>>(v, rule, what, "Option<_>", each(&f));
    put::<Deleg<A>, Deleg<B>>(v, rule, what, "delegating struct", at(0, &f));
    put::<EGen<A>, EGen<B>>(v, rule, what, "enum variant", Arc::new({ let f = f.clone(); move |v, s| match v { Val::En(300, _) => Reads(v.clone()), _ => at(0, &f)(v, s) } }));
    put::<Result<A, u8>, Result<B, u8>>(v, rule, what, "Result<_, u8>",
        Arc::new({ let f = f.clone(); move |v, s| match v { Val::En(1, _) => at(0, &f)(v, s), _ => Reads(v.clone()) } }));
    put::<Box<A>, Rc<B>>(v, rule, what, "Box to Rc", f.clone());
    field_(v, rule, what, f, PhantomPair::<A, B>::new());
}

// ------------------------------------------------------------------ versions
macro_rules! ver { ($n:ident { $([$g:tt] $f:ident: $t:ty),* $(,)? }) => {
    #[derive(Clone, Debug, PartialEq)]
    pub struct $n { $($f: $t),* }
    fourleaf_retrofit!(struct $n : {} {} { |_context, this| $([$g] $f: $t = this.$f,)* { Ok($n { $($f: $f),* }) } });
    impl Ty for $n {
        fn sch() -> S { rec(vec![$(($g, stringify!($f), <$t as Ty>::sch())),*]) }
        fn val(&self) -> Val { Val::Rec(vec![$(self.$f.val()),*]) }
    }
    impl Dom for $n {
        fn dom(l: u8) -> Vec<Self> {
            let lv = sub(l);
            let n = [$(cnt::<$t>(lv)),*].iter().copied().max().unwrap();
            let mut v = vec![];
            for k in 0..n { v.push($n { $($f: nth(lv, k)),* }); v.push($n { $($f: nth(lv, k + $g)),* }); }
            v
        }
    }
} }

ver!(Base { [1] id: u16, [2] name: String });
ver!(PlusOpt { [1] id: u16, [2] name: String, [3] note: Option<u8> });
ver!(PlusVec { [1] id: u16, [2] name: String, [7] items: Vec<u16> });
ver!(PlusStr { [1] id: u16, [2] name: String, [3] note: Option<String> });
ver!(PlusRec { [1] id: u16, [2] name: String, [3] sub: Option<Base> });
ver!(PlusEnum { [1] id: u16, [2] name: String, [3] sub: Vec<E1> });
ver!(PlusMap { [1] id: u16, [63] more: BTreeMap<u8, Vec<u16>>, [2] name: String });
ver!(PlusSet { [40] more: BTreeSet<String>, [1] id: u16, [2] name: String });
ver!(PlusMany { [4] a: Option<Vec<u16>>, [1] id: u16, [5] b: Vec<Option<u8>>, [2] name: String, [3] c: Option<Tree>, [6] d: Option<()> });
ver!(Shuffled { [2] name: String, [1] id: u16 });
ver!(NoName { [1] id: u16 });
ver!(NoId { [2] name: String });
ver!(AllNew { [9] x: Option<u8>, [10] y: Vec<u16> });
ver!(Wide { [1] id: u64, [2] name: Vec<String>, [3] note: Option<u8> });
ver!(Narrow { [2] name: Option<String>, [1] id: u8 });
ver!(ReqNote { [1] id: u16, [2] name: String, [3] note: u8 });

/// `Base` which keeps what it does not know.
#[derive(Clone, Debug, PartialEq)]
pub struct Keeps { id: u16, name: String, rest: UnknownFields<'static> }
fourleaf_retrofit!(struct Keeps : {} {} {
    |_context, this|
    [1] id: u16 = this.id,
    [2] name: String = this.name,
    (?) rest: Copied<UnknownFields<'static>> = &this.rest,
    { Ok(Keeps { id: id, name: name, rest: rest.0 }) }
});
impl Ty for Keeps {
    fn sch() -> S { recs(rs_unk(vec![(1, "id", u16::sch()), (2, "name", String::sch())], "rest", Copied::<UnknownFields>::sch())) }
    fn val(&self) -> Val { Val::Rec(vec![self.id.val(), self.name.val(), self.rest.val()]) }
}
impl Dom for Keeps {
    fn dom(l: u8) -> Vec<Self> {
        unks(3, l).iter().enumerate().map(|(k, u)| Keeps { id: nth(sub(l), k), name: nth(sub(l), k), rest: unk_mk(u) }).collect()
    }
}

/// The documentation's example: a mandatory field papered over.
#[derive(Clone, Debug, PartialEq)]
pub struct Msg1 { target: u64 }
fourleaf_retrofit!(struct Msg1 : {} {} { |_context, this| [1] target: u64 = this.target, { Ok(Msg1 { target: target }) } });
impl Ty for Msg1 { fn sch() -> S { rec(vec![(1, "target", u64::sch())]) } fn val(&self) -> Val { Val::Rec(vec![self.target.val()]) } }
impl Dom for Msg1 { fn dom(l: u8) -> Vec<Self> { u64::dom(l).into_iter().map(|target| Msg1 { target }).collect() } }
#[derive(Clone, Debug, PartialEq)]
pub struct Msg2 { target: u64, frobnicate: bool }
fourleaf_retrofit!(struct Msg2 : {} {} {
    |_context, this|
    [1] target: u64 = this.target,
    [2] frobnicate: Option<bool> = Some(this.frobnicate),
    { Ok(Msg2 { target: target, frobnicate: frobnicate.unwrap_or(false) }) }
});
// The value is told as the fields on the wire: the flag always is, so the
// document lacking it is compared by the rule below only.
impl Ty for Msg2 {
    fn sch() -> S { rec(vec![(1, "target", u64::sch()), (2, "frobnicate", Option::<bool>::sch())]) }
    fn val(&self) -> Val { Val::Rec(vec![self.target.val(), Val::List(vec![self.frobnicate.val()])]) }
}
impl Dom for Msg2 {
    fn dom(l: u8) -> Vec<Self> { u64::dom(l).into_iter().flat_map(|target| [true, false].map(|frobnicate| Msg2 { target, frobnicate })).collect() }
}

#[derive(Clone, Debug, PartialEq)]
pub enum En1 { A(u8), B { x: Option<u16> }, C }
fourleaf_retrofit!(enum En1 : {} {} {
    |_context|
    [1] En1::A(a) => { [1] a: u8 = a, { Ok(En1::A(a)) } },
    [2] En1::B { x } => { [1] x: Option<u16> = x, { Ok(En1::B { x: x }) } },
    [3] En1::C => { { Ok(En1::C) } },
});
impl Ty for En1 {
    fn sch() -> S {
        a(Sch::En(Arc::new(EnS { vars: vec![(1, rs(vec![(1, "a", u8::sch())])), (2, rs(vec![(1, "x", Option::<u16>::sch())])), (3, rs(vec![]))], catchall: None })))
    }
    fn val(&self) -> Val {
        match *self { En1::A(a) => Val::En(1, vec![a.val()]), En1::B { ref x } => Val::En(2, vec![x.val()]), En1::C => Val::En(3, vec![]) }
    }
}
impl Dom for En1 {
    fn dom(l: u8) -> Vec<Self> {
        if l == 0 { return vec![En1::B { x: Some(1) }, En1::C]; }
        let mut v = vec![En1::C];
        for x in u8::dom(1) { v.push(En1::A(x)); }
        for x in Option::<u16>::dom(1) { v.push(En1::B { x }); }
        v
    }
}
/// `En1` with further variants, further fields and a wider integer.
#[derive(Clone, Debug, PartialEq)]
pub enum En2 { A(u32, Vec<u16>), B { x: Vec<u16>, y: Option<String> }, C(Option<u8>), D, E(Vec<u16>), F(Base) }
fourleaf_retrofit!(enum En2 : {} {} {
    |_context|
    [0] En2::D => { { Ok(En2::D) } },
    [3] En2::C(c) => { [5] c: Option<u8> = c, { Ok(En2::C(c)) } },
    [1] En2::A(a, ref b) => { [2] b: Vec<u16> = b, [1] a: u32 = a, { Ok(En2::A(a, b)) } },
    [2] En2::B { ref x, ref y } => { [1] x: Vec<u16> = x, [2] y: Option<String> = y, { Ok(En2::B { x: x, y: y }) } },
    [4] En2::E(ref e) => { (*) e: Vec<u16> = e, { Ok(En2::E(e)) } },
    [18446744073709551615] En2::F(ref f) => { [1] f: Base = f, { Ok(En2::F(f)) } },
});
impl Ty for En2 {
    fn sch() -> S {
        a(Sch::En(Arc::new(EnS { vars: vec![
            (0, rs(vec![])), (3, rs(vec![(5, "c", Option::<u8>::sch())])), (1, rs(vec![(2, "b", Vec::<u16>::sch()), (1, "a", u32::sch())])),
            (2, rs(vec![(1, "x", Vec::<u16>::sch()), (2, "y", Option::<String>::sch())])), (4, rs_deleg("e", Vec::<u16>::sch())),
            (u64::MAX, rs(vec![(1, "f", Base::sch())]))], catchall: None })))
    }
    fn val(&self) -> Val {
        match *self {
            En2::D => Val::En(0, vec![]), En2::C(c) => Val::En(3, vec![c.val()]), En2::A(a, ref b) => Val::En(1, vec![b.val(), a.val()]),
            En2::B { ref x, ref y } => Val::En(2, vec![x.val(), y.val()]), En2::E(ref e) => Val::En(4, vec![e.val()]), En2::F(ref f) => Val::En(u64::MAX, vec![f.val()]),
        }
    }
}
impl Dom for En2 {
    fn dom(l: u8) -> Vec<Self> {
        if l == 0 { return vec![En2::A(1, vec![]), En2::D]; }
        let mut v = vec![En2::D];
        for k in 0..5 {
            v.push(En2::A(nth(1, k), nth(1, k))); v.push(En2::A(nth(1, k), vec![]));
            v.push(En2::B { x: nth(1, k), y: nth(1, k + 5) }); v.push(En2::B { x: nth(1, k), y: None }); v.push(En2::E(nth(1, k)));
        }
        for c in Option::<u8>::dom(1) { v.push(En2::C(c)); }
        for f in Base::dom(0) { v.push(En2::F(f)); }
        v
    }
}
/// `En1` with a catch-all.
#[derive(Clone, Debug, PartialEq)]
pub enum EnU { A(u8), B { x: Option<u16> }, C, Other(u64, UnknownFields<'static>) }
fourleaf_retrofit!(enum EnU : {} {} {
    |_context|
    [1] EnU::A(a) => { [1] a: u8 = a, { Ok(EnU::A(a)) } },
    [2] EnU::B { x } => { [1] x: Option<u16> = x, { Ok(EnU::B { x: x }) } },
    [3] EnU::C => { { Ok(EnU::C) } },
    (?) EnU::Other(d, ref u) => {
        (=) d: u64 = d,
        (?) u: Copied<UnknownFields<'static>> = u,
        { Ok(EnU::Other(d, u.0)) }
    },
});
impl Ty for EnU {
    fn sch() -> S {
        a(Sch::En(Arc::new(EnS { vars: vec![(1, rs(vec![(1, "a", u8::sch())])), (2, rs(vec![(1, "x", Option::<u16>::sch())])), (3, rs(vec![]))],
                                 catchall: Some(rs_unk(vec![], "u", Copied::<UnknownFields>::sch())) })))
    }
    fn val(&self) -> Val {
        match *self {
            EnU::A(a) => Val::En(1, vec![a.val()]), EnU::B { ref x } => Val::En(2, vec![x.val()]), EnU::C => Val::En(3, vec![]),
            EnU::Other(d, ref u) => Val::En(d, vec![u.val()]),
        }
    }
}
impl Dom for EnU { fn dom(l: u8) -> Vec<Self> { unks(1, l).iter().map(|u| EnU::Other(9, unk_mk(u))).collect() } }

// ------------------------------------------------------------------ rules
fn same(v: &Val) -> Exp { Reads(v.clone()) }
fn fits_u(bits: u32) -> impl Fn(&Val) -> Exp { move |v| match v { Val::U(n) if bits == 64 || n >> bits == 0 => same(v), _ => Rejected } }
fn fits_i(bits: u32) -> impl Fn(&Val) -> Exp {
    move |v| match v { Val::I(n) if (*n as i128) >= -(1i128 << (bits - 1)) && (*n as i128) < 1i128 << (bits - 1) => same(v), _ => Rejected }
}
fn one(v: &Val) -> Exp { Reads(Val::List(vec![v.clone()])) }
fn items(v: &Val) -> &[Val] { match v { Val::List(l) => l, Val::Rec(l) => l, Val::En(_, l) => l, _ => panic!("HARNESS") } }
fn only(v: &Val) -> Exp { match items(v) { [x] => same(x), _ => Rejected } }
fn upto(n: usize) -> impl Fn(&Val) -> Exp { move |v| if items(v).len() <= n { same(v) } else { Rejected } }
fn exactly(n: usize) -> impl Fn(&Val) -> Exp { move |v| if items(v).len() == n { same(v) } else { Rejected } }
fn unique(v: &Val) -> Exp {
    let mut o: Vec<Val> = vec![];
    for x in items(v) { if !o.contains(x) { o.push(x.clone()); } }
    Reads(Val::List(o))
}
fn unmap(v: &Val) -> Exp { match v { Val::Map(m) => Reads(Val::List(m.iter().map(|(k, w)| Val::Rec(vec![k.clone(), w.clone()])).collect())), _ => panic!("HARNESS") } }
fn remap(v: &Val) -> Exp {
    let mut m: Vec<(Val, Val)> = vec![];
    for x in items(v) {
        let kv = items(x);
        match m.iter_mut().find(|y| y.0 == kv[0]) { Some(y) => y.1 = kv[1].clone(), None => m.push((kv[0].clone(), kv[1].clone())) }
    }
    Reads(Val::Map(m))
}
fn none() -> Val { Val::List(vec![]) }
/// Fields of the old value by position, `None` for an absent one.
fn pick(idx: &'static [Option<usize>]) -> impl Fn(&Val, bool) -> Exp + Send + Sync {
    move |v, _| Reads(Val::Rec(idx.iter().map(|i| i.map_or_else(none, |i| items(v)[i].clone())).collect()))
}
/// Same, but the given fields are unknown to the reader; empty ones leave no
/// trace.
fn drop(idx: &'static [Option<usize>], gone: &'static [usize]) -> impl Fn(&Val, bool) -> Exp + Send + Sync {
    move |v, strict| {
        if strict && gone.iter().any(|&g| match items(v)[g] { Val::List(ref l) => !l.is_empty(), Val::Map(ref m) => !m.is_empty(), _ => true }) { return Rejected; }
        pick(idx)(v, strict)
    }
}
fn to_uval(v: &Val) -> UVal {
    match v {
        Val::U(n) => UVal::I(*n), Val::B(b) => UVal::I(*b as u64), Val::Str(b) | Val::Bytes(b) => UVal::B(b.clone()),
        _ => panic!("HARNESS: {:?}", v),
    }
}

macro_rules! ints { ($v:ident, $kind:ident: $($a:ty => $($b:ty),*;)*) => { $( $( {
    let bits = <$b>::BITS;
    let rule = if <$a>::BITS < bits { "integer widened" } else { "integer narrowed" };
    anywhere::<$a, $b>(&mut $v, rule, concat!(stringify!($a), " to ", stringify!($b)), move |x, _| $kind(bits)(x));
} )* )* } }

fn pairs() -> Vec<Pair> {
    let mut v: Vec<Pair> = vec![];
    ints! { v, fits_u: u8 => u16, u32, u64, usize; u16 => u8, u32, u64; u32 => u8, u16, u64, usize; u64 => u8, u16, u32, usize; usize => u8, u32, u64; }
    ints! { v, fits_i: i8 => i16, i32, i64, isize; i16 => i8, i32, i64; i32 => i8, i16, i64, isize; i64 => i8, i16, i32, isize; isize => i8, i32, i64; }

    // single to collection, and back
    let r = "single to collection";
    macro_rules! singles { ($($t:ty),*) => { $(
        field::<$t, Option<$t>>(&mut v, r, concat!(stringify!($t), " to Option"), one);
        field::<$t, Vec<$t>>(&mut v, r, concat!(stringify!($t), " to Vec"), one);
        field::<$t, LinkedList<$t>>(&mut v, r, concat!(stringify!($t), " to LinkedList"), one);
        field::<$t, VecDeque<$t>>(&mut v, r, concat!(stringify!($t), " to VecDeque"), one);
        field::<$t, [$t; 1]>(&mut v, r, concat!(stringify!($t), " to [_; 1]"), one);
        field::<Option<$t>, $t>(&mut v, "collection to single", concat!("Option to ", stringify!($t)), only);
        field::<Vec<$t>, $t>(&mut v, "collection to single", concat!("Vec to ", stringify!($t)), only);
        field::<[$t; 2], $t>(&mut v, "collection to single", concat!("[_; 2] to ", stringify!($t)), only);
        field::<Option<$t>, Vec<$t>>(&mut v, "cardinality widened", concat!("Option to Vec of ", stringify!($t)), same);
        field::<[$t; 2], Vec<$t>>(&mut v, "cardinality widened", concat!("[_; 2] to Vec of ", stringify!($t)), same);
        field::<[$t; 1], Option<$t>>(&mut v, "cardinality widened", concat!("[_; 1] to Option of ", stringify!($t)), same);
        field::<LinkedList<$t>, VecDeque<$t>>(&mut v, "cardinality widened", concat!("LinkedList to VecDeque of ", stringify!($t)), same);
        field::<Vec<$t>, Option<$t>>(&mut v, "cardinality narrowed", concat!("Vec to Option of ", stringify!($t)), upto(1));
        field::<Vec<$t>, [$t; 2]>(&mut v, "cardinality narrowed", concat!("Vec to [_; 2] of ", stringify!($t)), exactly(2));
        field::<Vec<$t>, [$t; 3]>(&mut v, "cardinality narrowed", concat!("Vec to [_; 3] of ", stringify!($t)), exactly(3));
        field::<[$t; 3], [$t; 2]>(&mut v, "cardinality narrowed", concat!("[_; 3] to [_; 2] of ", stringify!($t)), |_| Rejected);
        field::<Option<$t>, [$t; 1]>(&mut v, "cardinality narrowed", concat!("Option to [_; 1] of ", stringify!($t)), exactly(1));
    )* } }
    singles!(u16, bool, String, Vec<u8>, [u8; 3], Base, E1, (u8, u16), Tree, Gen<Vec<u16>>, Deleg<Vec<u16>>, Box<i32>);
    // a byte, whose collections are blobs unless boxed
    field::<u8, Option<u8>>(&mut v, r, "u8 to Option", one);
    field::<u8, Vec<Box<u8>>>(&mut v, r, "u8 to Vec<Box>", one);
    field::<Option<u8>, Vec<Box<u8>>>(&mut v, "cardinality widened", "Option<u8> to Vec<Box<u8>>", same);
    // sets and maps
    field::<u16, BTreeSet<u16>>(&mut v, r, "u16 to BTreeSet", one);
    field::<String, HashSet<String, H>>(&mut v, r, "String to HashSet", one);
    field::<(u8, u16), BTreeMap<u8, u16>>(&mut v, r, "(u8, u16) to BTreeMap", |x| remap(&Val::List(vec![x.clone()])));
    field::<BTreeMap<u8, u16>, (u8, u16)>(&mut v, "collection to single", "BTreeMap to (u8, u16)", |x| match unmap(x) { Reads(l) => only(&l), e => e });
    field::<Vec<u16>, BTreeSet<u16>>(&mut v, "collection kind", "Vec to BTreeSet", unique);
    field::<Vec<String>, HashSet<String, H>>(&mut v, "collection kind", "Vec to HashSet", unique);
    field::<BTreeSet<u16>, Vec<u16>>(&mut v, "collection kind", "BTreeSet to Vec", same);
    field::<Vec<u16>, BinaryHeap<u16>>(&mut v, "collection kind", "Vec to BinaryHeap", same);
    field::<BTreeMap<u8, u16>, Vec<(u8, u16)>>(&mut v, "collection kind", "BTreeMap to Vec", unmap);
    field::<Vec<(u8, u16)>, BTreeMap<u8, u16>>(&mut v, "collection kind", "Vec to BTreeMap", remap);
    field::<Vec<(String, Vec<u16>)>, HashMap<String, Vec<u16>, H>>(&mut v, "collection kind", "Vec to HashMap", remap);
    field::<BTreeMap<String, Vec<u16>>, HashMap<String, Vec<u16>, H>>(&mut v, "collection kind", "BTreeMap to HashMap", same);

    // fields of maps, results and nested collections evolve, too
    field::<BTreeMap<u8, u16>, BTreeMap<u16, u64>>(&mut v, "integer widened", "inside BTreeMap", same);
    field::<BTreeMap<u8, u16>, BTreeMap<u8, Vec<u16>>>(&mut v, r, "map value to Vec", |x| match x {
        Val::Map(m) => Reads(Val::Map(m.iter().map(|(k, w)| (k.clone(), Val::List(vec![w.clone()]))).collect())), _ => panic!("HARNESS") });
    field::<Vec<Base>, Vec<PlusVec>>(&mut v, "field added", "inside Vec", |x| Reads(Val::List(items(x).iter().map(|y| {
        let mut l = items(y).to_vec(); l.push(none()); Val::Rec(l) }).collect())));

    // fields added and deleted
    let add = "field added";
    anywhere::<Base, PlusOpt>(&mut v, add, "Option<u8>", pick(&[Some(0), Some(1), None]));
    anywhere::<Base, PlusVec>(&mut v, add, "Vec<u16>", pick(&[Some(0), Some(1), None]));
    anywhere::<Base, PlusStr>(&mut v, add, "Option<String>", pick(&[Some(0), Some(1), None]));
    anywhere::<Base, PlusRec>(&mut v, add, "Option<struct>", pick(&[Some(0), Some(1), None]));
    anywhere::<Base, PlusEnum>(&mut v, add, "Vec<enum>", pick(&[Some(0), Some(1), None]));
    anywhere::<Base, PlusMap>(&mut v, add, "BTreeMap", |x, _| Reads(Val::Rec(vec![items(x)[0].clone(), Val::Map(vec![]), items(x)[1].clone()])));
    anywhere::<Base, PlusSet>(&mut v, add, "BTreeSet", pick(&[None, Some(0), Some(1)]));
    anywhere::<Base, PlusMany>(&mut v, add, "several", pick(&[None, Some(0), None, Some(1), None, None]));
    anywhere::<Base, ReqNote>(&mut v, "required field added", "u8", |_, _| Rejected);
    anywhere::<NoName, Base>(&mut v, "required field added", "String", |_, _| Rejected);
    anywhere::<Base, Shuffled>(&mut v, "fields reordered", "two", pick(&[Some(1), Some(0)]));
    anywhere::<(u16, String), Base>(&mut v, "fields reordered", "tuple to struct", pick(&[Some(0), Some(1)]));
    let del = "field deleted";
    anywhere::<PlusOpt, Base>(&mut v, del, "Option<u8>", drop(&[Some(0), Some(1)], &[2]));
    anywhere::<PlusVec, Base>(&mut v, del, "Vec<u16>", drop(&[Some(0), Some(1)], &[2]));
    anywhere::<PlusStr, Base>(&mut v, del, "Option<String>", drop(&[Some(0), Some(1)], &[2]));
    anywhere::<PlusRec, Base>(&mut v, del, "Option<struct>", drop(&[Some(0), Some(1)], &[2]));
    anywhere::<PlusEnum, Base>(&mut v, del, "Vec<enum>", drop(&[Some(0), Some(1)], &[2]));
    anywhere::<PlusMap, Base>(&mut v, del, "BTreeMap", drop(&[Some(0), Some(2)], &[1]));
    anywhere::<PlusSet, Base>(&mut v, del, "BTreeSet", drop(&[Some(1), Some(2)], &[0]));
    anywhere::<PlusMany, Base>(&mut v, del, "several", drop(&[Some(1), Some(3)], &[0, 2, 4, 5]));
    anywhere::<Base, NoName>(&mut v, del, "String", drop(&[Some(0)], &[1]));
    anywhere::<Base, NoId>(&mut v, del, "u16", drop(&[Some(1)], &[0]));
    anywhere::<ReqNote, Base>(&mut v, del, "u8", drop(&[Some(0), Some(1)], &[2]));
    anywhere::<Base, SEmpty>(&mut v, del, "everything", drop(&[], &[0, 1]));
    anywhere::<Base, AllNew>(&mut v, del, "everything, others added", drop(&[None, None], &[0, 1]));
    anywhere::<PlusOpt, PlusVec>(&mut v, "several changes", "one deleted, one added", drop(&[Some(0), Some(1), None], &[2]));
    anywhere::<PlusMany, PlusMap>(&mut v, "several changes", "four deleted, one added", |x, s| match drop(&[Some(1), Some(3)], &[0, 2, 4, 5])(x, s) {
        Reads(y) => Reads(Val::Rec(vec![items(&y)[0].clone(), Val::Map(vec![]), items(&y)[1].clone()])), e => e });
    anywhere::<PlusOpt, Wide>(&mut v, "several changes", "widened twice", |x, _| {
        let l = items(x); Reads(Val::Rec(vec![l[0].clone(), Val::List(vec![l[1].clone()]), l[2].clone()])) });
    anywhere::<Wide, PlusOpt>(&mut v, "several changes", "narrowed twice", |x, _| {
        let l = items(x);
        match (fits_u(16)(&l[0]), only(&l[1])) { (Reads(a), Reads(b)) => Reads(Val::Rec(vec![a, b, l[2].clone()])), _ => Rejected } });
    anywhere::<Wide, Narrow>(&mut v, "several changes", "narrowed twice, deleted, reordered", |x, s| {
        let l = items(x);
        match (upto(1)(&l[1]), fits_u(8)(&l[0])) { (Reads(a), Reads(b)) if !s || items(&l[2]).is_empty() => Reads(Val::Rec(vec![a, b])), _ => Rejected } });
    anywhere::<Narrow, Wide>(&mut v, "several changes", "widened twice, added, reordered", |x, _| {
        let l = items(x); Reads(Val::Rec(vec![l[1].clone(), l[0].clone(), none()])) });
    // a catch-all accepts what was deleted, whatever the configuration
    anywhere::<PlusStr, Keeps>(&mut v, "deleted field kept", "Option<String>", |x, _| {
        let l = items(x);
        Reads(Val::Rec(vec![l[0].clone(), l[1].clone(), Val::Unk(items(&l[2]).iter().map(|y| (3, to_uval(y))).collect())])) });
    anywhere::<PlusVec, Keeps>(&mut v, "deleted field kept", "Vec<u16>", |x, _| {
        let l = items(x);
        Reads(Val::Rec(vec![l[0].clone(), l[1].clone(), Val::Unk(items(&l[2]).iter().map(|y| (7, to_uval(y))).collect())])) });
    anywhere::<PlusRec, Keeps>(&mut v, "deleted field kept", "Option<struct>", |x, _| {
        let l = items(x);
        Reads(Val::Rec(vec![l[0].clone(), l[1].clone(), Val::Unk(items(&l[2]).iter().map(|y|
            (3, UVal::S(items(y).iter().enumerate().map(|(i, z)| (i as u8 + 1, to_uval(z))).collect()))).collect())])) });
    anywhere::<Keeps, Base>(&mut v, del, "catch-all", |x, s| match items(x)[2] { Val::Unk(ref u) if s && !u.is_empty() => Rejected, _ => pick(&[Some(0), Some(1)])(x, s) });
    // papered over
    anywhere::<Msg1, Msg2>(&mut v, "papered over", "mandatory flag", |x, _| Reads(Val::Rec(vec![items(x)[0].clone(), Val::List(vec![Val::B(false)])])));
    anywhere::<Msg2, Msg1>(&mut v, del, "papered over flag", drop(&[Some(0)], &[1]));

    // enum variants
    anywhere::<En1, En2>(&mut v, "variant added", "three, others extended", |x, _| match x {
        Val::En(1, l) => Reads(Val::En(1, vec![none(), l[0].clone()])), Val::En(2, l) => Reads(Val::En(2, vec![l[0].clone(), none()])),
        Val::En(d, _) => Reads(Val::En(*d, vec![none()])), _ => panic!("HARNESS") });
    anywhere::<En2, En1>(&mut v, "variant removed", "three, others reduced", |x, s| match x {
        Val::En(1, l) => match fits_u(8)(&l[1]) { Reads(n) if !s || items(&l[0]).is_empty() => Reads(Val::En(1, vec![n])), _ => Rejected },
        Val::En(2, l) => if items(&l[0]).len() <= 1 && (!s || items(&l[1]).is_empty()) { Reads(Val::En(2, vec![l[0].clone()])) } else { Rejected },
        Val::En(3, l) => if s && !items(&l[0]).is_empty() { Rejected } else { Reads(Val::En(3, vec![])) },
        _ => Rejected });
    anywhere::<En1, EnU>(&mut v, "variant added", "catch-all", |x, _| same(x));
    anywhere::<EnU, En1>(&mut v, "variant removed", "catch-all", |x, _| match x { Val::En(d, _) if *d > 3 => Rejected, _ => NoClaim });
    anywhere::<En2, EnU>(&mut v, "unknown variant kept", "catch-all", |x, s| match x {
        Val::En(1, l) => match fits_u(8)(&l[1]) { Reads(n) if !s || items(&l[0]).is_empty() => Reads(Val::En(1, vec![n])), _ => Rejected },
        Val::En(2, l) => if items(&l[0]).len() <= 1 && (!s || items(&l[1]).is_empty()) { Reads(Val::En(2, vec![l[0].clone()])) } else { Rejected },
        Val::En(3, l) => if s && !items(&l[0]).is_empty() { Rejected } else { Reads(Val::En(3, vec![])) },
        Val::En(0, _) => Reads(Val::En(0, vec![Val::Unk(vec![])])),
        Val::En(4, l) => Reads(Val::En(4, vec![Val::Unk(items(&l[0]).iter().map(|y| (1, to_uval(y))).collect())])),
        Val::En(d, l) => Reads(Val::En(*d, vec![Val::Unk(vec![(1, UVal::S(items(&l[0]).iter().enumerate().map(|(i, z)| (i as u8 + 1, to_uval(z))).collect()))])])),
        _ => panic!("HARNESS") });
    anywhere::<Result<u8, u8>, Result<u32, Option<u8>>>(&mut v, "variant fields", "Result", |x, _| match x {
        Val::En(2, l) => Reads(Val::En(2, vec![Val::List(l.clone())])), _ => NoClaim });
    v
}
fn all() -> &'static [Pair] {
    static P: OnceLock<Vec<Pair>> = OnceLock::new();
    P.get_or_init(pairs)
}

const RULES: [&str; 17] = ["integer widened", "integer narrowed", "single to collection", "collection to single", "cardinality widened", "cardinality narrowed",
    "collection kind", "field added", "required field added", "fields reordered", "field deleted", "several changes", "deleted field kept", "papered over",
    "variant added", "variant removed", "unknown variant kept"];

struct Evolutions;
impl Suite for Evolutions {
    fn name(&self) -> &'static str { "evolutions" }
    fn bounds(&self, tier: Tier) -> String {
        format!("{} pairs of schemas (writer, reader in some context), grouped under the rules: {}; all values of level {} of the writer; 4 decoding modes x {{ignore, reject unknown fields}}",
                all().len(), RULES.join(", "), tier.q("0..1", "0..2"))
    }
    fn units(&self, _: Tier) -> usize { all().len() }
    fn unit(&self, u: usize, tier: Tier, cx: &mut Cx) {
        let p = &all()[u];
        for l in 0..tier.q(2, 3) { for i in 0..(p.n)(l) {
            cx.run(self, Case::new("evolutions", &[u as u64, l as u64, i as u64]));
            if cx.past_deadline() { return; }
        } }
    }
    fn exec(&self, c: &Case, _: &ChRef, st: &mut Stats) -> Res {
        let p = &all()[c.ints[0] as usize];
        let (l, i) = (c.ints[1] as u8, c.ints[2] as usize);
        let (w, b) = (p.write)(l, i);
        let b = match b { Ok(b) => b, Err(e) => return fail("write", format!("{}: cannot write {}: {:?}", p.name, sv(&w), e)) };
        st.state(hash(&(c.ints[0], &b)));
        for mode in [SLICE_COPY, SLICE_BORROW, ENV, ENV_SEEK] { for lim in [Lim::wide(), Lim::strict()] {
            let want = (p.f)(&w, !lim.ignore);
            let cf = conf(&lim);
            let (res, pos) = match mode {
                SLICE_COPY => ((p.copy)(&b, &cf), None),
                SLICE_BORROW => match p.borrow { Some(f) => (f(&b, &cf), None), None => continue },
                _ => {
                    let e = EnvRd::plain(&b);
                    let mut s = if mode == ENV { Stream::new(e) } else { Stream::new_seek(e) };
                    let r = match p.env { Some(f) => f(&mut s, &cf), None => continue };
                    (r, Some(s.pos()))
                },
            };
            st.step(1);
            let ctx = || format!("{} ({}): {} written as {}, read via {} (ignore_unknown_fields={})", p.rule, p.name, sv(&w), hx(&b), MODE_NAMES[mode], lim.ignore);
            match (&want, &res) {
                (NoClaim, _) => st.out("no claim"),
                (Reads(v), Ok(r)) => {
                    ensure!(canon(&p.sch, r) == canon(&p.sch, v), format!("value:{}:{}", p.rule, p.name), "{}: got {}, must be {}", ctx(), sv(r), sv(v));
                    if let Some(q) = pos { ensure!(q == b.len() as u64, format!("position:{}", p.name), "{}: {} bytes consumed", ctx(), q); }
                    st.out(RULES.iter().copied().find(|r| *r == p.rule).unwrap_or("read"));
                },
                (Reads(v), Err(e)) => return fail(format!("refused:{}:{}", p.rule, p.name), format!("{}: refused ({}), must be {}", ctx(), e, sv(v))),
                (Rejected, Ok(r)) => return fail(format!("misread:{}:{}", p.rule, p.name), format!("{}: read as {}, must be refused", ctx(), sv(r))),
                (Rejected, Err(_)) => st.out("refused"),
            }
            st.trace();
        } }
        Ok(())
    }
    fn show(&self, c: &Case) -> String { let p = &all()[c.ints[0] as usize]; format!("{}: {}, value {:?}", p.rule, p.name, &c.ints[1..]) }
}

pub fn c22() -> Check {
    Check { id: "C22", level: "model_checking",
            rule: "What one schema wrote is read with another; the outcome must be the one the documented rule gives for that value.",
            suites: vec![Box::new(Evolutions)] }
}
