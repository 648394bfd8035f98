//! The catalog: every supported type (composites included) behind a table of
//! functions which run the real code.

use crate::retro::*;
use crate::ty::*;
use fourleaf::adapt::Copied;
use fourleaf::de::{self, style, Config, Deserialize};
use fourleaf::io::TransparentCursor;
use fourleaf::ser::{self, Serialize};
use fourleaf::stream::{self, Stream};
use fourleaf::unknown::{UnknownField, UnknownFields};
use mc::env::{EnvRd, EnvWr};
use mc::model::*;
use std::any::{Any, TypeId};
use std::borrow::Cow;
use std::cell::RefCell;
use std::collections::*;
use std::marker::PhantomData;
use std::net::*;
use std::rc::Rc;
use std::sync::Arc;
use std::sync::OnceLock;
use std::time::Duration;

pub type DR = Result<Val, de::Error>;
pub type SR<T> = Result<T, stream::Error>;
pub type Slice<'a> = TransparentCursor<&'a [u8]>;

pub struct TyD {
    pub name: &'static str,
    pub sch: S,
    pub n: fn(u8) -> usize,
    pub val: fn(u8, usize) -> Val,
    pub to_vec: fn(u8, usize) -> SR<Vec<u8>>,
    /// the value itself instead of a reference
    pub to_vec_own: fn(u8, usize) -> SR<Vec<u8>>,
    pub to_writer: Option<fn(u8, usize, EnvWr) -> SR<()>>,
    pub to_stream: Option<fn(u8, usize, &mut Stream<EnvWr>) -> SR<()>>,
    pub slice_copy: fn(&[u8], &Config) -> DR,
    pub stream_copy: for<'a> fn(&mut Stream<Slice<'a>>, &Config) -> DR,
    pub slice_borrow: Option<fn(&[u8], &Config) -> DR>,
    pub stream_borrow: Option<for<'a> fn(&mut Stream<Slice<'a>>, &Config) -> DR>,
    pub reader: Option<fn(EnvRd, &Config) -> DR>,
    pub env: Option<fn(&mut Stream<EnvRd>, &Config) -> DR>,
    /// decode, and encode the decoded value again
    pub rewrite: fn(&[u8], &Config) -> Result<SR<Vec<u8>>, de::Error>,
    /// one of the hand-picked types rather than a generated wrapper
    pub core: bool,
    /// forms of the value which can only be written
    pub views: Option<fn(u8, usize) -> crate::views::Seen>,
}

thread_local! { static CACHE: RefCell<HashMap<(TypeId, u8), Box<dyn Any>>> = RefCell::new(HashMap::new()); }

pub fn values<T: Dom + 'static>(l: u8) -> Rc<Vec<T>> {
    let k = (TypeId::of::<T>(), l);
    if let Some(x) = CACHE.with(|c| c.borrow().get(&k).map(|x| x.downcast_ref::<Rc<Vec<T>>>().unwrap().clone())) { return x; }
    let v = Rc::new(T::dom(l));
    CACHE.with(|c| c.borrow_mut().insert(k, Box::new(v.clone())));
    v
}

fn n<T: Dom + 'static>(l: u8) -> usize { values::<T>(l).len() }
fn val<T: Dom + 'static>(l: u8, i: usize) -> Val { values::<T>(l)[i].val() }
fn to_vec<T: Dom + Serialize + 'static>(l: u8, i: usize) -> SR<Vec<u8>> { ser::to_vec(&values::<T>(l)[i]) }
fn to_vec_own<T: Dom + Serialize + 'static>(l: u8, i: usize) -> SR<Vec<u8>> { ser::to_vec(T::dom(l).swap_remove(i)) }
fn to_writer<T: Dom + Serialize + 'static>(l: u8, i: usize, w: EnvWr) -> SR<()> { ser::to_writer(w, &values::<T>(l)[i]) }
fn to_stream<T: Dom + Serialize + 'static>(l: u8, i: usize, s: &mut Stream<EnvWr>) -> SR<()> { ser::to_stream(s, &values::<T>(l)[i]) }
fn slice_copy<T>(b: &[u8], c: &Config) -> DR where T: Ty + for<'a> Deserialize<Slice<'a>, style::Copying> {
    de::from_slice_copy::<T>(b, c).map(|x| x.val())
}
fn slice_borrow<T>(b: &[u8], c: &Config) -> DR where T: Ty + for<'a> Deserialize<Slice<'a>, style::ZeroCopy> {
    de::from_slice_borrow::<T>(b, c).map(|x| x.val())
}
fn stream_copy<T>(s: &mut Stream<Slice>, c: &Config) -> DR where T: Ty + for<'a> Deserialize<Slice<'a>, style::Copying> {
    de::from_stream_copy::<_, T>(s, c).map(|x| x.val())
}
fn stream_borrow<T>(s: &mut Stream<Slice>, c: &Config) -> DR where T: Ty + for<'a> Deserialize<Slice<'a>, style::ZeroCopy> {
    de::from_stream_borrow::<_, T>(s, c).map(|x| x.val())
}
fn reader<T: Ty + Deserialize<EnvRd, style::Copying>>(r: EnvRd, c: &Config) -> DR { de::from_reader::<_, T>(r, c).map(|x| x.val()) }
fn env<T: Ty + Deserialize<EnvRd, style::Copying>>(s: &mut Stream<EnvRd>, c: &Config) -> DR { de::from_stream_copy::<_, T>(s, c).map(|x| x.val()) }
fn rewrite<T>(b: &[u8], c: &Config) -> Result<SR<Vec<u8>>, de::Error> where T: Serialize + for<'a> Deserialize<Slice<'a>, style::Copying> {
    de::from_slice_copy::<T>(b, c).map(|x| ser::to_vec(&x))
}

pub fn lite<T>(name: &'static str) -> TyD where T: Dom + Serialize + 'static + for<'a> Deserialize<Slice<'a>, style::Copying> {
    TyD {
        name, sch: T::sch(), n: n::<T>, val: val::<T>, to_vec: to_vec::<T>, to_vec_own: to_vec_own::<T>, to_writer: None,
        to_stream: None, slice_copy: slice_copy::<T>, stream_copy: stream_copy::<T>, slice_borrow: None,
        stream_borrow: None, reader: None, env: None, rewrite: rewrite::<T>, core: false, views: None,
    }
}
/// No borrowing style.
pub fn own<T>(name: &'static str) -> TyD
where T: Dom + Serialize + 'static + for<'a> Deserialize<Slice<'a>, style::Copying> + Deserialize<EnvRd, style::Copying> {
    TyD { to_writer: Some(to_writer::<T>), to_stream: Some(to_stream::<T>), reader: Some(reader::<T>), env: Some(env::<T>), core: true, views: Some(crate::views::views::<T>), ..lite::<T>(name) }
}
pub fn full<T>(name: &'static str) -> TyD
where T: Dom + Serialize + 'static + for<'a> Deserialize<Slice<'a>, style::Copying> + Deserialize<EnvRd, style::Copying>
    + for<'a> Deserialize<Slice<'a>, style::ZeroCopy> {
    TyD { slice_borrow: Some(slice_borrow::<T>), stream_borrow: Some(stream_borrow::<T>), ..own::<T>(name) }
}

macro_rules! put { ($v:ident, $f:ident: $($t:ty),* $(,)?) => { $( $v.push($f::<$t>(crate::cat::tidy(stringify!($t)))); )* } }

/// Type names independent of how the macro was reached.
pub fn tidy(s: &'static str) -> &'static str {
    if !s.contains(" <") && !s.contains(" >") { return s; }
    Box::leak(s.replace(" < ", "<").replace(" >", ">").replace("& '", "&'").into_boxed_str())
}

pub fn catalog() -> &'static [TyD] {
    static C: OnceLock<Vec<TyD>> = OnceLock::new();
    C.get_or_init(crate::build)
}
/// Index by name.
pub fn find(name: &str) -> usize {
    catalog().iter().position(|t| t.name == name).unwrap_or_else(|| panic!("HARNESS: no type {}", name))
}

/// Types that borrow from the input, with their copying counterparts.
pub struct LtD {
    pub name: &'static str,
    pub sch: S,
    pub borrow: fn(&[u8], &Config) -> (DR, Vec<(usize, usize)>),
    /// also the stream position afterwards
    pub borrow_stream: for<'a> fn(&mut Stream<Slice<'a>>, &Config) -> (DR, Vec<(usize, usize)>),
    pub borrow_plain: for<'a> fn(&mut Stream<&'a [u8]>, &Config) -> (DR, Vec<(usize, usize)>),
    pub borrow_cursor: for<'a> fn(&mut Stream<std::io::Cursor<&'a [u8]>>, &Config) -> (DR, Vec<(usize, usize)>),
    pub copy: fn(&[u8], &Config) -> DR,
    /// addresses of "borrowed" content of the copying decode: must be none
    pub copy_ptrs: fn(&[u8], &Config) -> Vec<(usize, usize)>,
    pub doms: fn(u8) -> Vec<Vec<u8>>,
}

macro_rules! lt { ($v:ident: $($name:expr => $a:lifetime $b:ty, $c:ty;)*) => { $( {
    fn borrow<$a>(b: &$a [u8], c: &Config) -> (DR, Vec<(usize, usize)>) {
        let mut o = vec![];
        let r = de::from_slice_borrow::<$b>(b, c).map(|x| { x.ptrs(&mut o); x.val() });
        (r, o)
    }
    fn borrow_stream<$a>(s: &mut Stream<Slice<$a>>, c: &Config) -> (DR, Vec<(usize, usize)>) {
        let mut o = vec![];
        let r = de::from_stream_borrow::<_, $b>(s, c).map(|x| { x.ptrs(&mut o); x.val() });
        (r, o)
    }
    fn borrow_plain<$a>(s: &mut Stream<&$a [u8]>, c: &Config) -> (DR, Vec<(usize, usize)>) {
        let mut o = vec![];
        let r = de::from_stream_borrow::<_, $b>(s, c).map(|x| { x.ptrs(&mut o); x.val() });
        (r, o)
    }
    fn borrow_cursor<$a>(s: &mut Stream<std::io::Cursor<&$a [u8]>>, c: &Config) -> (DR, Vec<(usize, usize)>) {
        let mut o = vec![];
        let r = de::from_stream_borrow::<_, $b>(s, c).map(|x| { x.ptrs(&mut o); x.val() });
        (r, o)
    }
    fn bsch<$a>(_: &$a u8) -> S { <$b as Ty>::sch() }
    fn copy_ptrs(b: &[u8], c: &Config) -> Vec<(usize, usize)> {
        let mut o = vec![];
        if let Ok(x) = de::from_slice_copy::<$c>(b, c) { x.ptrs(&mut o); }
        o
    }
    fn doms(l: u8) -> Vec<Vec<u8>> { <$c>::dom(l).iter().map(|x| ser::to_vec(x).unwrap()).collect() }
    $v.push(LtD { name: $name, sch: bsch(&0), borrow, borrow_stream, borrow_plain, borrow_cursor, copy: slice_copy::<$c>, copy_ptrs, doms });
} )* } }

fn build_lt() -> Vec<LtD> {
    let mut v = vec![];
    lt! { v:
        "&str" => 'a &'a str, String;
        "&[u8]" => 'a &'a [u8], Vec<u8>;
        "Cow<str>" => 'a Cow<'a, str>, Cow<'static, str>;
        "Cow<[u8]>" => 'a Cow<'a, [u8]>, Cow<'static, [u8]>;
        "Vec<&[u8]>" => 'a Vec<&'a [u8]>, Vec<Vec<u8>>;
        "Option<&str>" => 'a Option<&'a str>, Option<String>;
        "(&[u8], String, &str)" => 'a (&'a [u8], String, &'a str), (Vec<u8>, String, String);
        "BTreeMap<&str, &[u8]>" => 'a BTreeMap<&'a str, &'a [u8]>, BTreeMap<String, Vec<u8>>;
        "[&[u8]; 2]" => 'a [&'a [u8]; 2], [Vec<u8>; 2];
        "Result<&str, &[u8]>" => 'a Result<&'a str, &'a [u8]>, Result<String, Vec<u8>>;
        "Box<&str>" => 'a Box<&'a str>, Box<String>;
        "UnknownFields" => 'a UnknownFields<'a>, UnknownFields<'static>;
        "Vec<UnknownField>" => 'a Vec<UnknownField<'a>>, Vec<UnknownField<'static>>;
        "(Copied<Cow<[u8]>>, Cow<[u8]>)" => 'a (Copied<Cow<'static, [u8]>>, Cow<'a, [u8]>), (Copied<Cow<'static, [u8]>>, Cow<'static, [u8]>);
        "(Copied<UnknownFields>, UnknownField)" => 'a ([Copied<UnknownFields<'static>>; 1], UnknownField<'a>), ([Copied<UnknownFields<'static>>; 1], UnknownField<'static>);
        "(Vec<u8>, Cow<[u8]>, [u8; 2])" => 'a (Vec<u8>, Cow<'a, [u8]>, [u8; 2]), (Vec<u8>, Cow<'static, [u8]>, [u8; 2]);
        "Zc" => 'a Zc<'a>, Zc<'static>;
        "ZcE" => 'a ZcE<'a>, ZcE<'static>;
        "Vec<Zc>" => 'a Vec<Zc<'a>>, Vec<Zc<'static>>;
        "Gen<Cow<str>>" => 'a Gen<Cow<'a, str>>, Gen<Cow<'static, str>>;
        "EGen<Cow<[u8]>>" => 'a EGen<Cow<'a, [u8]>>, EGen<Cow<'static, [u8]>>;
        "Deleg<Cow<[u8]>>" => 'a Deleg<Cow<'a, [u8]>>, Deleg<Cow<'static, [u8]>>;
        "UStruct" => 'a (UStruct, &'a [u8]), (UStruct, Vec<u8>);
        "S1" => 'a S1, S1;
        "BTreeMap<Cow<str>, Vec<u16>>" => 'a BTreeMap<Cow<'a, str>, Vec<u16>>, BTreeMap<Cow<'static, str>, Vec<u16>>;
    }
    v
}
pub fn borrowing() -> &'static [LtD] {
    static C: OnceLock<Vec<LtD>> = OnceLock::new();
    C.get_or_init(build_lt)
}
