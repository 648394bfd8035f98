//! Types declared with `fourleaf_retrofit!`, of every documented shape.

use crate::ty::*;
use fourleaf::adapt::Copied;
use fourleaf::unknown::UnknownFields;
use fourleaf::{fourleaf_retrofit, Deserialize, Serialize};
use mc::model::*;
use std::borrow::Cow;
use std::collections::BTreeMap;
use std::io::Read;
use std::sync::Arc;

fn vals(l: u8, n: usize) -> std::ops::Range<usize> { 0..if l == 0 { 2 } else { n } }
fn en(vars: Vec<(u64, RecS)>, catchall: Option<RecS>) -> S { a(Sch::En(Arc::new(EnS { vars, catchall }))) }

// ------------------------------------------------------------ plain structs
#[derive(Clone, Debug, PartialEq)]
pub struct S1 { pub a: u8, pub b: Vec<u16>, pub c: Option<String> }
fourleaf_retrofit!(struct S1 : {} {} {
    |_context, this|
    [1] a: u8 = this.a,
    [2] b: Vec<u16> = this.b,
    [3] c: Option<String> = this.c,
    { Ok(S1 { a: a, b: b, c: c }) }
});
impl Ty for S1 {
    fn sch() -> S { rec(vec![(1, "a", u8::sch()), (2, "b", Vec::<u16>::sch()), (3, "c", Option::<String>::sch())]) }
    fn val(&self) -> Val { Val::Rec(vec![self.a.val(), self.b.val(), self.c.val()]) }
}
impl Dom for S1 {
    fn dom(l: u8) -> Vec<S1> { vals(l, 9).map(|k| S1 { a: nth(sub(l), k), b: nth(sub(l), k), c: nth(sub(l), k + 1) }).collect() }
}

/// Declaration order unlike tag order, all tag extremes.
#[derive(Clone, Debug, PartialEq)]
pub struct STags { pub a: u64, pub b: i32, pub c: bool, pub d: Vec<u8>, pub e: [u16; 2] }
fourleaf_retrofit!(struct STags : {} {} {
    |_context, this|
    [63] a: u64 = this.a,
    [1] b: i32 = this.b,
    [40] c: bool = this.c,
    [62] d: Vec<u8> = this.d,
    [32] e: [u16; 2] = this.e,
    { Ok(STags { a: a, b: b, c: c, d: d, e: e }) }
});
impl Ty for STags {
    fn sch() -> S {
        rec(vec![(63, "a", u64::sch()), (1, "b", i32::sch()), (40, "c", bool::sch()), (62, "d", Vec::<u8>::sch()), (32, "e", <[u16; 2]>::sch())])
    }
    fn val(&self) -> Val { Val::Rec(vec![self.a.val(), self.b.val(), self.c.val(), self.d.val(), self.e.val()]) }
}
impl Dom for STags {
    fn dom(l: u8) -> Vec<STags> {
        vals(l, 9).map(|k| STags { a: nth(sub(l), k), b: nth(sub(l), k), c: nth(sub(l), k), d: nth(sub(l), k), e: nth(sub(l), k) }).collect()
    }
}

#[derive(Clone, Debug, PartialEq)]
pub struct SEmpty;
fourleaf_retrofit!(struct SEmpty : {} {} { |_context, _this| { Ok(SEmpty) } });
impl Ty for SEmpty { fn sch() -> S { rec(vec![]) } fn val(&self) -> Val { Val::Rec(vec![]) } }
impl Dom for SEmpty { fn dom(_: u8) -> Vec<SEmpty> { vec![SEmpty] } }

/// Generic struct: a field, and another one after it.
#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord)]
pub struct Gen<T> { pub x: T, pub tail: u16 }
fourleaf_retrofit!(struct Gen : {
    impl<T: Serialize> Serialize for Gen<T>
} {
    impl<R: Read, STYLE, T: Deserialize<R, STYLE>> Deserialize<R, STYLE> for Gen<T>
} {
    |_context, this|
    [5] x: T = this.x,
    [4] tail: u16 = this.tail,
    { Ok(Gen { x: x, tail: tail }) }
});
impl<T: Ty> Ty for Gen<T> {
    fn sch() -> S { rec(vec![(5, "x", T::sch()), (4, "tail", u16::sch())]) }
    fn val(&self) -> Val { Val::Rec(vec![self.x.val(), self.tail.val()]) }
    fn ptrs(&self, o: &mut Vec<(usize, usize)>) { self.x.ptrs(o) }
}
impl<T: Dom> Dom for Gen<T> {
    fn dom(l: u8) -> Vec<Self> { T::dom(sub(l)).into_iter().enumerate().map(|(k, x)| Gen { x, tail: nth(sub(l), k) }).collect() }
}

/// The highest tags there are, every kind of occurrence.
#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord)]
pub struct High<T> { pub a: T, pub o: Option<T>, pub v: Vec<T>, pub z: u8 }
fourleaf_retrofit!(struct High : {
    impl<T: Serialize> Serialize for High<T>
} {
    impl<R: Read, STYLE, T: Deserialize<R, STYLE>> Deserialize<R, STYLE> for High<T>
} {
    |_context, this|
    [32] o: Option<T> = this.o,
    [33] v: Vec<T> = this.v,
    [62] z: u8 = this.z,
    [63] a: T = this.a,
    { Ok(High { a: a, o: o, v: v, z: z }) }
});
impl<T: Ty> Ty for High<T> {
    fn sch() -> S { rec(vec![(32, "o", Option::<T>::sch()), (33, "v", Vec::<T>::sch()), (62, "z", u8::sch()), (63, "a", T::sch())]) }
    fn val(&self) -> Val { Val::Rec(vec![self.o.val(), self.v.val(), self.z.val(), self.a.val()]) }
    fn ptrs(&self, o: &mut Vec<(usize, usize)>) { self.o.ptrs(o); self.v.ptrs(o); self.a.ptrs(o) }
}
impl<T: Dom> Dom for High<T> {
    fn dom(l: u8) -> Vec<Self> {
        T::dom(sub(l)).into_iter().enumerate().map(|(k, a)| High {
            a, o: if l == 0 || k % 2 == 0 { Some(nth(sub(l), k + 1)) } else { None },
            v: (0..if l == 0 { 1 } else { k % 3 }).map(|i| nth(sub(l), k + i)).collect(), z: nth(0, k) }).collect()
    }
}
/// Five levels down.
pub type Deep<T> = Gen<Gen<Gen<Gen<Gen<T>>>>>;

/// Delegation.
#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord)]
pub struct Deleg<T>(pub T);
fourleaf_retrofit!(struct Deleg : {
    impl<T: Serialize> Serialize for Deleg<T>
} {
    impl<R: Read, STYLE, T: Deserialize<R, STYLE>> Deserialize<R, STYLE> for Deleg<T>
} {
    |_context, this|
    (*) inner: T = this.0,
    { Ok(Deleg(inner)) }
});
impl<T: Ty> Ty for Deleg<T> {
    fn sch() -> S { recs(rs_deleg("inner", T::sch())) }
    fn val(&self) -> Val { Val::Rec(vec![self.0.val()]) }
    fn ptrs(&self, o: &mut Vec<(usize, usize)>) { self.0.ptrs(o) }
}
impl<T: Dom> Dom for Deleg<T> {
    fn dom(l: u8) -> Vec<Self> { T::dom(l).into_iter().map(Deleg).collect() }
}

/// Constructor which validates.
#[derive(Clone, Debug, PartialEq)]
pub struct Even(pub u16, pub Option<u8>);
fourleaf_retrofit!(struct Even : {} {} {
    |context, this|
    [1] n: u16 = this.0,
    [7] m: Option<u8> = this.1,
    { if n % 2 == 0 { Ok(Even(n, m)) } else {
        Err(fourleaf::de::Error::InvalidValueMsg(context.to_string(), "odd"))
    } }
});
impl Ty for Even {
    fn sch() -> S {
        recs(RecS { check: Some(|v| matches!(v[0], Val::U(n) if n % 2 == 0)),
                    ..rs(vec![(1, "n", u16::sch()), (7, "m", Option::<u8>::sch())]) })
    }
    fn val(&self) -> Val { Val::Rec(vec![self.0.val(), self.1.val()]) }
}
impl Dom for Even { fn dom(l: u8) -> Vec<Even> { vals(l, 4).map(|k| Even([0, 2, 128, 65534][k], nth(sub(l), k))).collect() } }

// ------------------------------------------------------------ enums
#[derive(Clone, Debug, PartialEq)]
pub enum E1 { Unit, Tup(u32, u64), Str { foo: Vec<u16>, bar: Option<u8> }, Big(String), Zero }
fourleaf_retrofit!(enum E1 : {} {} {
    |_context|
    [1] E1::Unit => { { Ok(E1::Unit) } },
    [2] E1::Tup(a, b) => {
        [1] a: u32 = a,
        [2] b: u64 = b,
        { Ok(E1::Tup(a, b)) }
    },
    [200] E1::Str { ref foo, bar } => {
        [2] foo: Vec<u16> = foo,
        [1] bar: Option<u8> = bar,
        { Ok(E1::Str { foo: foo, bar: bar }) }
    },
    [18446744073709551615] E1::Big(ref s) => {
        [63] s: String = s,
        { Ok(E1::Big(s)) }
    },
    [0] E1::Zero => { { Ok(E1::Zero) } },
});
impl Ty for E1 {
    fn sch() -> S {
        en(vec![(1, rs(vec![])), (2, rs(vec![(1, "a", u32::sch()), (2, "b", u64::sch())])),
                (200, rs(vec![(2, "foo", Vec::<u16>::sch()), (1, "bar", Option::<u8>::sch())])),
                (u64::MAX, rs(vec![(63, "s", String::sch())])), (0, rs(vec![]))], None)
    }
    fn val(&self) -> Val {
        match *self {
            E1::Unit => Val::En(1, vec![]), E1::Tup(a, b) => Val::En(2, vec![a.val(), b.val()]),
            E1::Str { ref foo, ref bar } => Val::En(200, vec![foo.val(), bar.val()]),
            E1::Big(ref s) => Val::En(u64::MAX, vec![s.val()]), E1::Zero => Val::En(0, vec![]),
        }
    }
}
impl Dom for E1 {
    fn dom(l: u8) -> Vec<E1> {
        if l == 0 { return vec![E1::Tup(1, u64::MAX), E1::Unit]; }
        let mut v = vec![E1::Unit, E1::Zero, E1::Big("big".into()), E1::Big("".into())];
        for k in 0..5 { v.push(E1::Tup(nth(1, k), nth(1, k + 1))); v.push(E1::Str { foo: nth(1, k), bar: nth(1, k + 1) }); }
        v
    }
}

#[derive(Clone, Debug, PartialEq)]
pub enum EGen<T> { D(T), F(T, u8), Unit }
fourleaf_retrofit!(enum EGen : {
    impl<T: Serialize> Serialize for EGen<T>
} {
    impl<R: Read, STYLE, T: Deserialize<R, STYLE>> Deserialize<R, STYLE> for EGen<T>
} {
    |_context|
    [1] EGen::D(ref d) => { (*) d: T = d, { Ok(EGen::D(d)) } },
    [2] EGen::F(ref f, g) => {
        [1] f: T = f,
        [2] g: u8 = g,
        { Ok(EGen::F(f, g)) }
    },
    [300] EGen::Unit => { { Ok(EGen::Unit) } },
});
impl<T: Ty> Ty for EGen<T> {
    fn sch() -> S {
        en(vec![(1, rs_deleg("d", T::sch())), (2, rs(vec![(1, "f", T::sch()), (2, "g", u8::sch())])), (300, rs(vec![]))], None)
    }
    fn val(&self) -> Val {
        match *self {
            EGen::D(ref d) => Val::En(1, vec![d.val()]), EGen::F(ref f, ref g) => Val::En(2, vec![f.val(), g.val()]),
            EGen::Unit => Val::En(300, vec![]),
        }
    }
    fn ptrs(&self, o: &mut Vec<(usize, usize)>) { match *self { EGen::D(ref d) | EGen::F(ref d, _) => d.ptrs(o), _ => () } }
}
impl<T: Dom> Dom for EGen<T> {
    fn dom(l: u8) -> Vec<Self> {
        if l == 0 { return vec![EGen::D(first()), EGen::F(first(), 1)]; }
        let mut v = vec![EGen::Unit];
        for x in T::dom(1) { v.push(EGen::D(x)); }
        for x in T::dom(1) { v.push(EGen::F(x, 9)); }
        v
    }
}

// ------------------------------------------------------------ unknown-preserving
#[derive(Clone, Debug, PartialEq)]
pub struct UStruct { pub foo: u32, pub bar: Option<u8>, pub unknown: UnknownFields<'static> }
fourleaf_retrofit!(struct UStruct : {} {} {
    |_context, this|
    [1] foo: u32 = this.foo,
    [2] bar: Option<u8> = this.bar,
    (?) unknown: Copied<UnknownFields<'static>> = &this.unknown,
    { Ok(UStruct { foo: foo, bar: bar, unknown: unknown.0 }) }
});
impl Ty for UStruct {
    fn sch() -> S { recs(rs_unk(vec![(1, "foo", u32::sch()), (2, "bar", Option::<u8>::sch())], "unknown", Copied::<UnknownFields>::sch())) }
    fn val(&self) -> Val { Val::Rec(vec![self.foo.val(), self.bar.val(), self.unknown.val()]) }
}
impl Dom for UStruct {
    fn dom(l: u8) -> Vec<Self> {
        unks(3, l).iter().enumerate().map(|(k, u)| UStruct { foo: nth(sub(l), k), bar: nth(sub(l), k + 1), unknown: unk_mk(u) }).collect()
    }
}

#[derive(Clone, Debug, PartialEq)]
pub struct UOnly(pub UnknownFields<'static>);
fourleaf_retrofit!(struct UOnly : {} {} {
    |_context, this|
    (?) rest: Copied<UnknownFields<'static>> = &this.0,
    { Ok(UOnly(rest.0)) }
});
impl Ty for UOnly {
    fn sch() -> S { recs(rs_unk(vec![], "rest", Copied::<UnknownFields>::sch())) }
    fn val(&self) -> Val { Val::Rec(vec![self.0.val()]) }
}
impl Dom for UOnly { fn dom(l: u8) -> Vec<Self> { unks(1, l).iter().map(|u| UOnly(unk_mk(u))).collect() } }

#[derive(Clone, Debug, PartialEq)]
pub enum UEnum { Unit, Foo(u16, UnknownFields<'static>), Unknown(u64, UnknownFields<'static>) }
fourleaf_retrofit!(enum UEnum : {} {} {
    |_context|
    [1] UEnum::Unit => { { Ok(UEnum::Unit) } },
    [2] UEnum::Foo(n, ref unknown) => {
        [3] n: u16 = n,
        (?) unknown: Copied<UnknownFields<'static>> = unknown,
        { Ok(UEnum::Foo(n, unknown.0)) }
    },
    (?) UEnum::Unknown(discriminant, ref fields) => {
        (=) discriminant: u64 = discriminant,
        (?) fields: Copied<UnknownFields<'static>> = fields,
        { Ok(UEnum::Unknown(discriminant, fields.0)) }
    },
});
impl Ty for UEnum {
    fn sch() -> S {
        let u = Copied::<UnknownFields>::sch;
        en(vec![(1, rs(vec![])), (2, rs_unk(vec![(3, "n", u16::sch())], "unknown", u()))], Some(rs_unk(vec![], "fields", u())))
    }
    fn val(&self) -> Val {
        match *self {
            UEnum::Unit => Val::En(1, vec![]), UEnum::Foo(n, ref u) => Val::En(2, vec![n.val(), u.val()]),
            UEnum::Unknown(d, ref u) => Val::En(d, vec![u.val()]),
        }
    }
}
impl Dom for UEnum {
    fn dom(l: u8) -> Vec<Self> {
        if l == 0 { return vec![UEnum::Foo(1, unk_mk(&unks(4, 0)[0])), UEnum::Unknown(9, unk_mk(&unks(1, 0)[0]))]; }
        let mut v = vec![UEnum::Unit];
        for (k, u) in unks(4, 1).iter().enumerate() { v.push(UEnum::Foo(nth(1, k), unk_mk(u))); }
        for (k, u) in unks(1, 1).iter().enumerate() { v.push(UEnum::Unknown([0, 3, 128, u64::MAX][k % 4], unk_mk(u))); }
        v
    }
}

/// Catch-all variant that keeps the discriminant and ordinary fields.
#[derive(Clone, Debug, PartialEq)]
pub enum UVar { A(u8), Other(u64, Option<u16>) }
fourleaf_retrofit!(enum UVar : {} {} {
    |_context|
    [1] UVar::A(a) => { [1] a: u8 = a, { Ok(UVar::A(a)) } },
    (?) UVar::Other(d, x) => {
        (=) d: u64 = d,
        [1] x: Option<u16> = x,
        { Ok(UVar::Other(d, x)) }
    },
});
impl Ty for UVar {
    fn sch() -> S { en(vec![(1, rs(vec![(1, "a", u8::sch())]))], Some(rs(vec![(1, "x", Option::<u16>::sch())]))) }
    fn val(&self) -> Val {
        match *self { UVar::A(a) => Val::En(1, vec![a.val()]), UVar::Other(d, ref x) => Val::En(d, vec![x.val()]) }
    }
}
impl Dom for UVar {
    fn dom(l: u8) -> Vec<Self> {
        let mut v = vec![UVar::A(1), UVar::Other(7, Some(1))];
        if l > 0 { for k in 0..5 { v.push(UVar::A(nth(1, k))); v.push(UVar::Other([0, 2, 255, 1 << 40, u64::MAX][k], nth(1, k))); } }
        v
    }
}

// ------------------------------------------------------------ recursive
#[derive(Clone, Debug, PartialEq)]
pub struct Tree { pub v: u8, pub kids: Vec<Tree> }
fourleaf_retrofit!(struct Tree : {} {} {
    |_context, this|
    [1] v: u8 = this.v,
    [2] kids: Vec<Tree> = this.kids,
    { Ok(Tree { v: v, kids: kids }) }
});
impl Ty for Tree {
    fn sch() -> S { rec(vec![(1, "v", u8::sch()), (2, "kids", a(Sch::Seq(a(Sch::Lazy(Tree::sch)), Kind::Ordered)))]) }
    fn val(&self) -> Val { Val::Rec(vec![self.v.val(), self.kids.val()]) }
}
fn leaf(v: u8) -> Tree { Tree { v, kids: vec![] } }
impl Dom for Tree {
    fn dom(l: u8) -> Vec<Self> {
        let mut v = vec![Tree { v: 1, kids: vec![leaf(2)] }, leaf(0)];
        if l > 0 {
            v.push(Tree { v: 1, kids: vec![leaf(2), Tree { v: 3, kids: vec![leaf(4), leaf(5)] }, leaf(6)] });
            let mut t = leaf(9);
            for i in 0..6 { t = Tree { v: i, kids: vec![t] }; }
            v.push(t);
        }
        v
    }
}

#[derive(Clone, Debug, PartialEq)]
pub struct Link { pub v: u16, pub next: Option<Box<Link>> }
fourleaf_retrofit!(struct Link : {} {} {
    |_context, this|
    [1] v: u16 = this.v,
    [2] next: Option<Box<Link>> = this.next,
    { Ok(Link { v: v, next: next }) }
});
impl Ty for Link {
    fn sch() -> S { rec(vec![(1, "v", u16::sch()), (2, "next", a(Sch::Opt(a(Sch::Lazy(Link::sch)))))]) }
    fn val(&self) -> Val { Val::Rec(vec![self.v.val(), self.next.val()]) }
}
impl Dom for Link {
    fn dom(l: u8) -> Vec<Self> {
        let mut v = vec![];
        for n in if l == 0 { vec![2, 1] } else { vec![1, 2, 3, 8] } {
            let mut x = Link { v: 7, next: None };
            for i in 1..n { x = Link { v: i * 100, next: Some(Box::new(x)) }; }
            v.push(x);
        }
        v
    }
}

/// Recursion through delegation to a collection.
#[derive(Clone, Debug, PartialEq)]
pub struct Nest(pub Vec<Nest>);
fourleaf_retrofit!(struct Nest : {} {} {
    |_context, this|
    (*) inner: Vec<Nest> = this.0,
    { Ok(Nest(inner)) }
});
impl Ty for Nest {
    fn sch() -> S { recs(rs_deleg("inner", a(Sch::Seq(a(Sch::Lazy(Nest::sch)), Kind::Ordered)))) }
    fn val(&self) -> Val { Val::Rec(vec![self.0.val()]) }
}
impl Dom for Nest {
    fn dom(l: u8) -> Vec<Self> {
        let mut v = vec![Nest(vec![Nest(vec![])]), Nest(vec![])];
        if l > 0 { v.push(Nest(vec![Nest(vec![]), Nest(vec![Nest(vec![])]), Nest(vec![])])); }
        v
    }
}

/// Recursion through an enum and a map.
#[derive(Clone, Debug, PartialEq)]
pub enum Json { Null, Num(i64), Text(String), List(Vec<Json>), Obj(BTreeMap<String, Json>) }
fourleaf_retrofit!(enum Json : {} {} {
    |_context|
    [0] Json::Null => { { Ok(Json::Null) } },
    [1] Json::Num(n) => { [1] n: i64 = n, { Ok(Json::Num(n)) } },
    [2] Json::Text(ref s) => { [1] s: String = s, { Ok(Json::Text(s)) } },
    [3] Json::List(ref v) => { [1] v: Vec<Json> = v, { Ok(Json::List(v)) } },
    [4] Json::Obj(ref m) => { [1] m: BTreeMap<String, Json> = m, { Ok(Json::Obj(m)) } },
});
impl Ty for Json {
    fn sch() -> S {
        let me = || a(Sch::Lazy(Json::sch));
        en(vec![(0, rs(vec![])), (1, rs(vec![(1, "n", i64::sch())])), (2, rs(vec![(1, "s", String::sch())])),
                (3, rs(vec![(1, "v", a(Sch::Seq(me(), Kind::Ordered)))])), (4, rs(vec![(1, "m", a(Sch::Map(String::sch(), me())))]))], None)
    }
    fn val(&self) -> Val {
        match *self {
            Json::Null => Val::En(0, vec![]), Json::Num(n) => Val::En(1, vec![n.val()]), Json::Text(ref s) => Val::En(2, vec![s.val()]),
            Json::List(ref v) => Val::En(3, vec![v.val()]), Json::Obj(ref m) => Val::En(4, vec![m.val()]),
        }
    }
}
impl Dom for Json {
    fn dom(l: u8) -> Vec<Self> {
        let o = |k: &str, v: Json| -> Json { Json::Obj(std::iter::once((k.to_string(), v)).collect()) };
        let mut v = vec![Json::List(vec![Json::Num(-5), Json::Null]), Json::Null];
        if l > 0 {
            v.push(Json::Num(i64::MIN)); v.push(Json::Text("t".into())); v.push(Json::List(vec![]));
            v.push(o("k", Json::List(vec![o("x", Json::Text("".into())), Json::Null, Json::Num(1)])));
        }
        v
    }
}

// ------------------------------------------------------------ lifetimes
/// Zero-copy capable struct with an unknown-field catch-all.
#[derive(Clone, Debug, PartialEq)]
pub struct Zc<'a> { pub id: u16, pub data: Cow<'a, [u8]>, pub name: Option<Cow<'a, str>>, pub own: String, pub rest: UnknownFields<'a> }
fourleaf_retrofit!(struct Zc : {
    impl<'a> Serialize for Zc<'a>
} {
    impl<'a, R: Read, STYLE> Deserialize<R, STYLE> for Zc<'a>
    where Cow<'a, [u8]>: Deserialize<R, STYLE>, Cow<'a, str>: Deserialize<R, STYLE>
} {
    |_context, this|
    [1] id: u16 = this.id,
    [2] data: Cow<'a, [u8]> = this.data,
    [3] name: Option<Cow<'a, str>> = this.name,
    [4] own: String = this.own,
    (?) rest: UnknownFields<'a> = this.rest,
    { Ok(Zc { id: id, data: data, name: name, own: own, rest: rest }) }
});
impl<'a> Ty for Zc<'a> {
    fn sch() -> S {
        recs(rs_unk(vec![(1, "id", u16::sch()), (2, "data", Cow::<[u8]>::sch()), (3, "name", Option::<Cow<str>>::sch()), (4, "own", String::sch())],
                    "rest", UnknownFields::sch()))
    }
    fn val(&self) -> Val { Val::Rec(vec![self.id.val(), self.data.val(), self.name.val(), self.own.val(), self.rest.val()]) }
    fn ptrs(&self, o: &mut Vec<(usize, usize)>) { self.data.ptrs(o); self.name.ptrs(o); self.rest.ptrs(o); }
}
impl Dom for Zc<'static> {
    fn dom(l: u8) -> Vec<Self> {
        unks(5, l).iter().enumerate().map(|(k, u)| Zc {
            id: nth(sub(l), k), data: nth(sub(l), k), name: nth(sub(l), k + 1), own: nth(sub(l), k), rest: unk_mk(u),
        }).collect()
    }
}

#[derive(Clone, Debug, PartialEq)]
pub enum ZcE<'a> { A(Cow<'a, str>), B(Copied<Cow<'static, [u8]>>), Other(u64, UnknownFields<'a>) }
fourleaf_retrofit!(enum ZcE : {
    impl<'a> Serialize for ZcE<'a>
} {
    impl<'a, R: Read, STYLE> Deserialize<R, STYLE> for ZcE<'a>
    where Cow<'a, [u8]>: Deserialize<R, STYLE>, Cow<'a, str>: Deserialize<R, STYLE>
} {
    |_context|
    [1] ZcE::A(ref s) => { [1] s: Cow<'a, str> = s, { Ok(ZcE::A(s)) } },
    [2] ZcE::B(ref b) => { (*) b: Copied<Cow<'static, [u8]>> = b, { Ok(ZcE::B(b)) } },
    (?) ZcE::Other(d, ref u) => {
        (=) d: u64 = d,
        (?) u: UnknownFields<'a> = u,
        { Ok(ZcE::Other(d, u)) }
    },
});
impl<'a> Ty for ZcE<'a> {
    fn sch() -> S {
        en(vec![(1, rs(vec![(1, "s", Cow::<str>::sch())])), (2, rs_deleg("b", Copied::<Cow<[u8]>>::sch()))],
           Some(rs_unk(vec![], "u", UnknownFields::sch())))
    }
    fn val(&self) -> Val {
        match *self {
            ZcE::A(ref s) => Val::En(1, vec![s.val()]), ZcE::B(ref b) => Val::En(2, vec![b.val()]),
            ZcE::Other(d, ref u) => Val::En(d, vec![u.val()]),
        }
    }
    fn ptrs(&self, o: &mut Vec<(usize, usize)>) {
        match *self { ZcE::A(ref s) => s.ptrs(o), ZcE::B(ref b) => b.0.ptrs(o), ZcE::Other(_, ref u) => u.ptrs(o) }
    }
}
impl Dom for ZcE<'static> {
    fn dom(l: u8) -> Vec<Self> {
        if l == 0 { return vec![ZcE::A(Cow::Borrowed("zc")), ZcE::Other(5, unk_mk(&unks(1, 0)[0]))]; }
        let mut v = vec![];
        for k in 0..3 { v.push(ZcE::A(nth(1, k))); v.push(ZcE::B(Copied(nth(1, k)))); }
        for u in unks(1, 1) { v.push(ZcE::Other(77, unk_mk(&u))); }
        v
    }
}
