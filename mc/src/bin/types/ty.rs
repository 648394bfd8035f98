//! How each supported Rust type maps to the reference schemas and values, and
//! its boundary-value domain.

use fourleaf::adapt::Copied;
use fourleaf::unknown::{UnknownField, UnknownFields};
use mc::eng::Fx;
use mc::model::*;
use std::borrow::Cow;
use std::collections::*;
use std::hash::{BuildHasherDefault, Hash};
use std::marker::PhantomData;
use std::net::*;
use std::rc::Rc;
use std::sync::Arc;
use std::time::Duration;

pub trait Ty: Sized {
    fn sch() -> S;
    fn val(&self) -> Val;
    /// (address, length) of everything borrowed from the input
    fn ptrs(&self, _o: &mut Vec<(usize, usize)>) {}
    fn is_u8() -> bool { false }
}

/// Boundary values; level 0 is tiny, 1 moderate, 2 includes size thresholds.
pub trait Dom: Ty {
    fn dom(l: u8) -> Vec<Self>;
    fn from_u8(_: u8) -> Self { panic!("HARNESS: not u8") }
}

pub type H = BuildHasherDefault<Fx>;

pub fn a(s: Sch) -> S { Arc::new(s) }
pub fn sub(l: u8) -> u8 { l.min(1) }
pub fn first<T: Dom>() -> T { T::dom(0).swap_remove(0) }
pub fn nth<T: Dom>(l: u8, k: usize) -> T {
    let mut d = T::dom(l);
    let n = d.len();
    d.swap_remove(k % n)
}
pub fn cnt<T: Dom>(l: u8) -> usize { T::dom(l).len() }

macro_rules! uints { ($($t:ty, $bits:expr;)*) => { $(
    impl Ty for $t {
        fn sch() -> S { a(Sch::U($bits)) }
        fn val(&self) -> Val { Val::U(*self as u64) }
        fn is_u8() -> bool { $bits == 8 }
    }
    impl Dom for $t {
        fn from_u8(x: u8) -> $t { x as $t }
        fn dom(l: u8) -> Vec<$t> {
            if l == 0 { return vec![1, <$t>::MAX]; }
            let mut v: Vec<$t> = vec![0, 1, 127, 128, <$t>::MAX];
            if l == 1 { return v; }
            for k in 0..$bits {
                let p: $t = 1 << k;
                v.push(p); v.push(p - 1); v.push(p | 1);
            }
            v.sort(); v.dedup();
            v
        }
    }
)* } }
uints! { u8, 8; u16, 16; u32, 32; u64, 64; usize, 64; }

macro_rules! sints { ($($t:ty, $bits:expr;)*) => { $(
    impl Ty for $t {
        fn sch() -> S { a(Sch::I($bits)) }
        fn val(&self) -> Val { Val::I(*self as i64) }
    }
    impl Dom for $t {
        fn dom(l: u8) -> Vec<$t> {
            if l == 0 { return vec![-1, <$t>::MIN]; }
            let mut v: Vec<$t> = vec![0, -1, 1, 63, 64, -64, -65, <$t>::MAX, <$t>::MIN];
            if l == 1 { return v; }
            for k in 0..$bits - 1 {
                let p: $t = 1 << k;
                v.push(p); v.push(p - 1); v.push(-p); v.push(-p - 1); v.push(1 - p);
            }
            v.sort(); v.dedup();
            v
        }
    }
)* } }
sints! { i8, 8; i16, 16; i32, 32; i64, 64; isize, 64; }

impl Ty for bool {
    fn sch() -> S { a(Sch::Bool) }
    fn val(&self) -> Val { Val::B(*self) }
}
impl Dom for bool { fn dom(_: u8) -> Vec<bool> { vec![true, false] } }

impl Ty for char {
    fn sch() -> S { a(Sch::Char) }
    fn val(&self) -> Val { Val::C(*self as u32) }
}
impl Dom for char {
    fn dom(l: u8) -> Vec<char> {
        if l == 0 { return vec!['x', '\u{10FFFF}']; }
        vec!['\0', 'x', '\u{7f}', '\u{80}', '\u{7ff}', '\u{800}', '\u{3fff}', '\u{4000}', '\u{D7FF}', '\u{E000}',
             '\u{FFFF}', '\u{10000}', '\u{10FFFF}']
    }
}

const SIZES: [usize; 20] = [0, 1, 2, 3, 127, 128, 129, 255, 256, 257, 300, 4095, 4096, 8191, 8192, 8193,
                            16383, 16384, 65535, 65536];

fn text(n: usize) -> String { (0..n).map(|i| (b'!' + (i % 90) as u8) as char).collect() }
fn octets(n: usize) -> Vec<u8> { (0..n).map(|i| (i * 37 + i / 251) as u8).collect() }

impl Ty for String {
    fn sch() -> S { a(Sch::Str(false)) }
    fn val(&self) -> Val { Val::Str(self.as_bytes().to_vec()) }
}
impl Dom for String {
    fn dom(l: u8) -> Vec<String> {
        if l == 0 { return vec!["a".into(), "".into()]; }
        let mut v: Vec<String> = vec!["".into(), "a".into(), "\0".into(), "h\u{e9}\u{20ac}\u{10348}\u{10FFFF}".into(), text(130)];
        if l > 1 { v.extend(SIZES.iter().map(|&n| text(n))); }
        v
    }
}

impl Ty for () {
    fn sch() -> S { unit() }
    fn val(&self) -> Val { Val::Rec(vec![]) }
}
impl Dom for () { fn dom(_: u8) -> Vec<()> { vec![()] } }

impl<T: ?Sized> Ty for PhantomData<T> {
    fn sch() -> S { a(Sch::Null) }
    fn val(&self) -> Val { Val::Null }
}
impl<T: ?Sized> Dom for PhantomData<T> { fn dom(_: u8) -> Vec<Self> { vec![PhantomData] } }

fn bytes_of<T: Ty>(i: &mut dyn Iterator<Item = &T>) -> Vec<u8> {
    i.map(|x| match x.val() { Val::U(n) => n as u8, _ => panic!("HARNESS") }).collect()
}

impl<T: Ty> Ty for Vec<T> {
    fn sch() -> S { if T::is_u8() { a(Sch::Bytes(false)) } else { a(Sch::Seq(T::sch(), Kind::Ordered)) } }
    fn val(&self) -> Val {
        if T::is_u8() { Val::Bytes(bytes_of(&mut self.iter())) } else { Val::List(self.iter().map(|x| x.val()).collect()) }
    }
    fn ptrs(&self, o: &mut Vec<(usize, usize)>) { for x in self { x.ptrs(o); } }
}
/// Lists over a domain: empty, one by one, all together.
pub fn lists<T: Dom>(l: u8) -> Vec<Vec<T>> {
    if l == 0 { return vec![vec![first()], vec![]]; }
    let mut v: Vec<Vec<T>> = vec![vec![]];
    for x in T::dom(sub(l)) { v.push(vec![x]); }
    v.push(T::dom(sub(l)));
    v.push(vec![nth(0, 0), nth(0, 1), nth(0, 0)]);
    if l > 1 {
        let d = cnt::<T>(1);
        if d <= 40 { for i in 0..d { for j in 0..d { v.push(vec![nth(1, i), nth(1, j)]); } } }
        // Lengths at which counters, batches and buffers could turn over, and
        // (for sets) many distinct small elements.
        for n in LENGTHS { v.push((0..n).map(|i| nth(0, i)).collect()); }
        v.push((0..200).map(|i| nth(1, i)).collect());
        let small = |x: &T| matches!(x.val(), Val::U(..) | Val::I(..) | Val::C(..));
        if small(&first::<T>()) { v.push(T::dom(2)); }
    }
    v
}
const LENGTHS: [usize; 12] = [15, 16, 17, 31, 63, 64, 65, 127, 128, 129, 255, 256];
impl<T: Dom> Dom for Vec<T> {
    fn dom(l: u8) -> Vec<Vec<T>> {
        if T::is_u8() {
            let mk = |n: usize| -> Vec<T> { octets(n).into_iter().map(T::from_u8).collect() };
            let mut v = vec![vec![first()], vec![]];
            if l > 0 { v.push(T::dom(1)); v.push(mk(130)); }
            if l > 1 { v.push(T::dom(2)); v.extend(SIZES.iter().map(|&n| mk(n))); }
            return v;
        }
        lists(l)
    }
}

macro_rules! seqs { ($($t:ident [$($b:ident),*], $k:expr;)*) => { $(
    impl<T: Ty $(+ $b)*> Ty for $t<T> {
        fn sch() -> S { a(Sch::Seq(T::sch(), $k)) }
        fn val(&self) -> Val { Val::List(self.iter().map(|x| x.val()).collect()) }
        fn ptrs(&self, o: &mut Vec<(usize, usize)>) { for x in self.iter() { x.ptrs(o); } }
    }
    impl<T: Dom $(+ $b)*> Dom for $t<T> {
        fn dom(l: u8) -> Vec<Self> { lists(l).into_iter().map(|x| x.into_iter().collect()).collect() }
    }
)* } }
seqs! { LinkedList [], Kind::Ordered; VecDeque [], Kind::Ordered; BTreeSet [Ord], Kind::Set; BinaryHeap [Ord], Kind::Bag; }

impl<T: Ty + Eq + Hash> Ty for HashSet<T, H> {
    fn sch() -> S { a(Sch::Seq(T::sch(), Kind::Set)) }
    fn val(&self) -> Val { Val::List(self.iter().map(|x| x.val()).collect()) }
}
impl<T: Dom + Eq + Hash> Dom for HashSet<T, H> {
    fn dom(l: u8) -> Vec<Self> { lists(l).into_iter().map(|x| x.into_iter().collect()).collect() }
}

impl<T: Ty> Ty for Option<T> {
    fn sch() -> S { a(Sch::Opt(T::sch())) }
    fn val(&self) -> Val { Val::List(self.iter().map(|x| x.val()).collect()) }
    fn ptrs(&self, o: &mut Vec<(usize, usize)>) { for x in self { x.ptrs(o); } }
}
impl<T: Dom> Dom for Option<T> {
    fn dom(l: u8) -> Vec<Self> {
        let mut v: Vec<Self> = T::dom(sub(l)).into_iter().map(Some).collect();
        if l == 0 { v.truncate(1); }
        v.push(None);
        v
    }
}

impl<T: Ty, const N: usize> Ty for [T; N] {
    fn sch() -> S { if T::is_u8() { a(Sch::ByteArr(N)) } else { a(Sch::Arr(N, T::sch())) } }
    fn val(&self) -> Val {
        if T::is_u8() { Val::Bytes(bytes_of(&mut self.iter())) } else { Val::List(self.iter().map(|x| x.val()).collect()) }
    }
    fn ptrs(&self, o: &mut Vec<(usize, usize)>) { for x in self { x.ptrs(o); } }
}
impl<T: Dom, const N: usize> Dom for [T; N] {
    fn dom(l: u8) -> Vec<Self> {
        let lv = sub(l);
        let n = if N == 0 || N > 64 { 1 } else { cnt::<T>(lv) };
        let mut v = vec![];
        for k in 0..n {
            let mut d: Vec<T> = vec![];
            let mut i = 0;
            while d.len() < N {
                let mut c = T::dom(lv);
                let r = (k + i) % c.len();
                c.rotate_left(r);
                for x in c { if d.len() < N { d.push(x); } }
                i += 1;
            }
            v.push(d.try_into().ok().unwrap());
        }
        v
    }
}

macro_rules! maps { ($($t:ty, [$($b:ident),*];)*) => { $(
    impl<K: Ty $(+ $b)*, V: Ty> Ty for $t {
        fn sch() -> S { a(Sch::Map(K::sch(), V::sch())) }
        fn val(&self) -> Val { Val::Map(self.iter().map(|(k, v)| (k.val(), v.val())).collect()) }
        fn ptrs(&self, o: &mut Vec<(usize, usize)>) { for (k, v) in self { k.ptrs(o); v.ptrs(o); } }
    }
    impl<K: Dom $(+ $b)*, V: Dom> Dom for $t {
        fn dom(l: u8) -> Vec<Self> {
            if l == 0 { return vec![std::iter::once((first(), first())).collect(), std::iter::empty::<(K, V)>().collect()]; }
            let mut v: Vec<Self> = vec![std::iter::empty::<(K, V)>().collect()];
            for x in V::dom(1) { v.push(std::iter::once((first(), x)).collect()); }
            for x in K::dom(1) { v.push(std::iter::once((x, first())).collect()); }
            v.push(K::dom(1).into_iter().enumerate().map(|(i, k)| (k, nth(1, i))).collect());
            if l > 1 && matches!(first::<K>().val(), Val::U(..) | Val::I(..) | Val::C(..)) {
                v.push(K::dom(2).into_iter().enumerate().map(|(i, k)| (k, nth(1, i))).collect());
            }
            v
        }
    }
)* } }
maps! { BTreeMap<K, V>, [Ord]; HashMap<K, V, H>, [Eq, Hash]; }

macro_rules! boxes { ($($t:ident),*) => { $(
    impl<T: Ty> Ty for $t<T> {
        fn sch() -> S { T::sch() }
        fn val(&self) -> Val { (**self).val() }
        fn ptrs(&self, o: &mut Vec<(usize, usize)>) { (**self).ptrs(o); }
    }
    impl<T: Dom> Dom for $t<T> {
        fn dom(l: u8) -> Vec<Self> { T::dom(l).into_iter().map($t::new).collect() }
    }
)* } }
boxes!(Box, Rc, Arc);

impl<T: Ty> Ty for Copied<T> {
    fn sch() -> S { a(Sch::Copied(T::sch())) }
    fn val(&self) -> Val { self.0.val() }
}
impl<T: Dom> Dom for Copied<T> {
    fn dom(l: u8) -> Vec<Self> { T::dom(l).into_iter().map(Copied).collect() }
}

fn place<T: ?Sized>(x: &T) -> (usize, usize) { (x as *const T as *const u8 as usize, std::mem::size_of_val(x)) }

impl<'a> Ty for &'a [u8] {
    fn sch() -> S { a(Sch::Bytes(true)) }
    fn val(&self) -> Val { Val::Bytes(self.to_vec()) }
    fn ptrs(&self, o: &mut Vec<(usize, usize)>) { o.push(place(*self)); }
}
impl<'a> Ty for &'a str {
    fn sch() -> S { a(Sch::Str(true)) }
    fn val(&self) -> Val { Val::Str(self.as_bytes().to_vec()) }
    fn ptrs(&self, o: &mut Vec<(usize, usize)>) { o.push(place(*self)); }
}
impl<'a> Ty for Cow<'a, [u8]> {
    fn sch() -> S { a(Sch::Bytes(true)) }
    fn val(&self) -> Val { Val::Bytes(self.to_vec()) }
    fn ptrs(&self, o: &mut Vec<(usize, usize)>) { if let Cow::Borrowed(b) = *self { o.push(place(b)); } }
}
impl<'a> Ty for Cow<'a, str> {
    fn sch() -> S { a(Sch::Str(true)) }
    fn val(&self) -> Val { Val::Str(self.as_bytes().to_vec()) }
    fn ptrs(&self, o: &mut Vec<(usize, usize)>) { if let Cow::Borrowed(b) = *self { o.push(place(b)); } }
}
impl Dom for Cow<'static, [u8]> {
    fn dom(l: u8) -> Vec<Self> { Vec::<u8>::dom(l).into_iter().map(Cow::Owned).collect() }
}
impl Dom for Cow<'static, str> {
    fn dom(l: u8) -> Vec<Self> { String::dom(l).into_iter().map(Cow::Owned).collect() }
}
macro_rules! cows { ($($t:ty),*) => { $(
    impl Ty for Cow<'static, $t> {
        fn sch() -> S { <$t>::sch() }
        fn val(&self) -> Val { (**self).val() }
    }
    impl Dom for Cow<'static, $t> {
        fn dom(l: u8) -> Vec<Self> { <$t>::dom(l).into_iter().map(Cow::Owned).collect() }
    }
)* } }
cows!(u32, Vec<u16>, (u8, u16), Option<u8>, ());

macro_rules! tuples { ($($($t:ident $i:tt),* ;)*) => { $(
    impl<$($t: Ty),*> Ty for ($($t,)*) {
        fn sch() -> S { rec(vec![$(($i + 1, concat!("field_", $i), $t::sch())),*]) }
        fn val(&self) -> Val { Val::Rec(vec![$(self.$i.val()),*]) }
        fn ptrs(&self, o: &mut Vec<(usize, usize)>) { $(self.$i.ptrs(o);)* }
    }
    impl<$($t: Dom),*> Dom for ($($t,)*) {
        fn dom(l: u8) -> Vec<Self> {
            let lv = sub(l);
            let m = [$(cnt::<$t>(lv)),*].iter().cloned().max().unwrap();
            let mut v: Vec<Self> = (0..m).map(|k| ($(nth::<$t>(lv, k + $i),)*)).collect();
            if l > 0 { for k in 0..m { v.push(($(nth::<$t>(lv, k * ($i + 1)),)*)); } }
            if l > 1 {
                // all combinations, of the largest domains for which that is feasible
                for lv in [1u8, 0] {
                    let n = [$(cnt::<$t>(lv)),*];
                    let total = n.iter().fold(1usize, |a, &b| a.saturating_mul(b));
                    if total > 2500 { continue; }
                    for k in 0..total {
                        let mut k = k;
                        let mut d = [0usize; 16];
                        for (j, &b) in n.iter().enumerate() { d[j] = k % b; k /= b; }
                        v.push(($(nth::<$t>(lv, d[$i]),)*));
                    }
                    break;
                }
            }
            v
        }
    }
)* } }
tuples! {
    A0 0;
    A0 0, A1 1;
    A0 0, A1 1, A2 2;
    A0 0, A1 1, A2 2, A3 3;
    A0 0, A1 1, A2 2, A3 3, A4 4;
    A0 0, A1 1, A2 2, A3 3, A4 4, A5 5;
    A0 0, A1 1, A2 2, A3 3, A4 4, A5 5, A6 6;
    A0 0, A1 1, A2 2, A3 3, A4 4, A5 5, A6 6, A7 7;
    A0 0, A1 1, A2 2, A3 3, A4 4, A5 5, A6 6, A7 7, A8 8;
    A0 0, A1 1, A2 2, A3 3, A4 4, A5 5, A6 6, A7 7, A8 8, A9 9;
    A0 0, A1 1, A2 2, A3 3, A4 4, A5 5, A6 6, A7 7, A8 8, A9 9, A10 10;
    A0 0, A1 1, A2 2, A3 3, A4 4, A5 5, A6 6, A7 7, A8 8, A9 9, A10 10, A11 11;
    A0 0, A1 1, A2 2, A3 3, A4 4, A5 5, A6 6, A7 7, A8 8, A9 9, A10 10, A11 11, A12 12;
    A0 0, A1 1, A2 2, A3 3, A4 4, A5 5, A6 6, A7 7, A8 8, A9 9, A10 10, A11 11, A12 12, A13 13;
    A0 0, A1 1, A2 2, A3 3, A4 4, A5 5, A6 6, A7 7, A8 8, A9 9, A10 10, A11 11, A12 12, A13 13, A14 14;
    A0 0, A1 1, A2 2, A3 3, A4 4, A5 5, A6 6, A7 7, A8 8, A9 9, A10 10, A11 11, A12 12, A13 13, A14 14, A15 15;
}

impl<T: Ty, E: Ty> Ty for Result<T, E> {
    fn sch() -> S {
        a(Sch::En(Arc::new(EnS { vars: vec![(1, rs_deleg("t", T::sch())), (2, rs_deleg("e", E::sch()))], catchall: None })))
    }
    fn val(&self) -> Val {
        match *self { Ok(ref t) => Val::En(1, vec![t.val()]), Err(ref e) => Val::En(2, vec![e.val()]) }
    }
    fn ptrs(&self, o: &mut Vec<(usize, usize)>) { match *self { Ok(ref t) => t.ptrs(o), Err(ref e) => e.ptrs(o) } }
}
impl<T: Dom, E: Dom> Dom for Result<T, E> {
    fn dom(l: u8) -> Vec<Self> {
        if l == 0 { return vec![Ok(first()), Err(first())]; }
        let mut v: Vec<Self> = T::dom(1).into_iter().map(Ok).collect();
        v.extend(E::dom(1).into_iter().map(Err));
        v
    }
}

impl Ty for Duration {
    fn sch() -> S {
        recs(RecS { check: Some(|v| matches!(v[1], Val::U(n) if n < 1_000_000_000)),
                    ..rs(vec![(1, "secs", u64::sch()), (2, "nsecs", u32::sch())]) })
    }
    fn val(&self) -> Val { Val::Rec(vec![Val::U(self.as_secs()), Val::U(self.subsec_nanos() as u64)]) }
}
impl Dom for Duration {
    fn dom(l: u8) -> Vec<Self> {
        if l == 0 { return vec![Duration::new(3, 4), Duration::new(u64::MAX, 999_999_999)]; }
        let mut v = vec![];
        for s in [0, 1, 128, u64::MAX] { for n in [0, 1, 999, 1_000_000, 999_999_999] { v.push(Duration::new(s, n)); } }
        v
    }
}

fn ip4(b: [u8; 4]) -> Val { Val::Rec(vec![Val::Bytes(b.to_vec())]) }
fn ip6(b: [u8; 16]) -> Val { Val::Rec(vec![Val::Bytes(b.to_vec())]) }
impl Ty for Ipv4Addr {
    fn sch() -> S { recs(rs_deleg("octets", <[u8; 4]>::sch())) }
    fn val(&self) -> Val { ip4(self.octets()) }
}
impl Dom for Ipv4Addr {
    fn dom(l: u8) -> Vec<Self> {
        let mut v = vec![Ipv4Addr::new(127, 0, 0, 1), Ipv4Addr::new(1, 2, 3, 4)];
        if l > 0 { v.push(Ipv4Addr::new(0, 0, 0, 0)); v.push(Ipv4Addr::new(255, 254, 253, 252)); }
        v
    }
}
impl Ty for Ipv6Addr {
    fn sch() -> S { recs(rs_deleg("octets", <[u8; 16]>::sch())) }
    fn val(&self) -> Val { ip6(self.octets()) }
}
impl Dom for Ipv6Addr {
    fn dom(l: u8) -> Vec<Self> {
        let mut b = [0u8; 16];
        for i in 0..16 { b[i] = i as u8 * 16 + 15 - i as u8; }
        let mut v = vec![Ipv6Addr::from(b), Ipv6Addr::LOCALHOST];
        if l > 0 { v.push(Ipv6Addr::from([0xff; 16])); v.push(Ipv6Addr::from([0; 16])); }
        v
    }
}
fn ipaddr_s() -> S {
    a(Sch::En(Arc::new(EnS { vars: vec![(4, rs_deleg("ip", Ipv4Addr::sch())), (6, rs_deleg("ip", Ipv6Addr::sch()))], catchall: None })))
}
impl Ty for IpAddr {
    fn sch() -> S { ipaddr_s() }
    fn val(&self) -> Val {
        match *self { IpAddr::V4(ref x) => Val::En(4, vec![x.val()]), IpAddr::V6(ref x) => Val::En(6, vec![x.val()]) }
    }
}
impl Dom for IpAddr {
    fn dom(l: u8) -> Vec<Self> {
        Ipv4Addr::dom(l).into_iter().map(IpAddr::V4).chain(Ipv6Addr::dom(l).into_iter().map(IpAddr::V6)).collect()
    }
}
impl Ty for SocketAddrV4 {
    fn sch() -> S { rec(vec![(1, "ip", Ipv4Addr::sch()), (2, "port", u16::sch())]) }
    fn val(&self) -> Val { Val::Rec(vec![self.ip().val(), Val::U(self.port() as u64)]) }
}
impl Dom for SocketAddrV4 {
    fn dom(l: u8) -> Vec<Self> {
        u16::dom(sub(l)).into_iter().enumerate().map(|(i, p)| SocketAddrV4::new(nth(sub(l), i), p)).collect()
    }
}
impl Ty for SocketAddrV6 {
    fn sch() -> S { rec(vec![(1, "ip", Ipv6Addr::sch()), (2, "port", u16::sch()), (3, "flowinfo", u32::sch()), (4, "scope_id", u32::sch())]) }
    fn val(&self) -> Val {
        Val::Rec(vec![self.ip().val(), Val::U(self.port() as u64), Val::U(self.flowinfo() as u64), Val::U(self.scope_id() as u64)])
    }
}
impl Dom for SocketAddrV6 {
    fn dom(l: u8) -> Vec<Self> {
        let n = cnt::<u32>(sub(l));
        (0..n * 2).map(|i| SocketAddrV6::new(nth(sub(l), i), nth(sub(l), i + 1), nth(sub(l), i + 2), nth(sub(l), i * 3 + 1))).collect()
    }
}
impl Ty for SocketAddr {
    fn sch() -> S {
        a(Sch::En(Arc::new(EnS { vars: vec![(4, rs_deleg("v4", SocketAddrV4::sch())), (6, rs_deleg("v6", SocketAddrV6::sch()))], catchall: None })))
    }
    fn val(&self) -> Val {
        match *self { SocketAddr::V4(ref x) => Val::En(4, vec![x.val()]), SocketAddr::V6(ref x) => Val::En(6, vec![x.val()]) }
    }
}
impl Dom for SocketAddr {
    fn dom(l: u8) -> Vec<Self> {
        SocketAddrV4::dom(l).into_iter().map(SocketAddr::V4).chain(SocketAddrV6::dom(l).into_iter().map(SocketAddr::V6)).collect()
    }
}

pub fn unk_val(u: &UnknownFields) -> Vec<(u8, UVal)> { u.0.iter().map(|(t, f)| (*t, uf_val(f))).collect() }
pub fn uf_val(f: &UnknownField) -> UVal {
    match *f {
        UnknownField::Integer(n) => UVal::I(n),
        UnknownField::Blob(ref b) => UVal::B(b.to_vec()),
        UnknownField::Struct(ref s) => UVal::S(unk_val(s)),
        UnknownField::Enum(d, ref s) => UVal::E(d, unk_val(s)),
    }
}
pub fn unk_mk(v: &[(u8, UVal)]) -> UnknownFields<'static> { UnknownFields(v.iter().map(|(t, f)| (*t, uf_mk(f))).collect()) }
pub fn uf_mk(f: &UVal) -> UnknownField<'static> {
    match *f {
        UVal::I(n) => UnknownField::Integer(n),
        UVal::B(ref b) => UnknownField::Blob(Cow::Owned(b.clone())),
        UVal::S(ref s) => UnknownField::Struct(unk_mk(s)),
        UVal::E(d, ref s) => UnknownField::Enum(d, unk_mk(s)),
    }
}
fn uf_ptrs(f: &UnknownField, o: &mut Vec<(usize, usize)>) {
    match *f {
        UnknownField::Blob(Cow::Borrowed(b)) => o.push(place(b)),
        UnknownField::Struct(ref s) | UnknownField::Enum(_, ref s) => for x in &s.0 { uf_ptrs(&x.1, o); },
        _ => (),
    }
}
/// Unknown content whose tags lie outside `1..lo`.
pub fn unks(lo: u8, l: u8) -> Vec<Vec<(u8, UVal)>> {
    use UVal::*;
    if l == 0 { return vec![vec![(lo, I(300))], vec![]]; }
    vec![
        vec![],
        vec![(lo, I(0))], vec![(63, I(u64::MAX))], vec![(lo, B(vec![]))], vec![(lo + 1, B(b"\x00\x41bytes".to_vec()))],
        vec![(lo, S(vec![]))], vec![(lo, E(0, vec![]))], vec![(lo, E(u64::MAX, vec![(1, I(1)), (1, B(vec![7]))]))],
        vec![(lo, S(vec![(1, I(5)), (2, S(vec![(63, E(3, vec![(1, B(b"x".to_vec()))]))])), (1, I(6))])), (lo, I(1)), (lo + 1, I(2)), (lo, I(3))],
    ]
}
impl<'a> Ty for UnknownFields<'a> {
    fn sch() -> S { a(Sch::Unk) }
    fn val(&self) -> Val { Val::Unk(unk_val(self)) }
    fn ptrs(&self, o: &mut Vec<(usize, usize)>) { for x in &self.0 { uf_ptrs(&x.1, o); } }
}
impl Dom for UnknownFields<'static> {
    fn dom(l: u8) -> Vec<Self> { unks(1, l).iter().map(|x| unk_mk(x)).collect() }
}
impl<'a> Ty for UnknownField<'a> {
    fn sch() -> S { a(Sch::UF) }
    fn val(&self) -> Val { Val::UF(uf_val(self)) }
    fn ptrs(&self, o: &mut Vec<(usize, usize)>) { uf_ptrs(self, o); }
}
impl Dom for UnknownField<'static> {
    fn dom(l: u8) -> Vec<Self> {
        unks(1, l).iter().flat_map(|x| x.iter().map(|y| uf_mk(&y.1)).collect::<Vec<_>>()).collect()
    }
}
