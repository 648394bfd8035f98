//! The generated part of the catalog: every wrapper around every base type.

use crate::cat::*;
use crate::retro::*;
use crate::ty::*;
use fourleaf::adapt::Copied;
use fourleaf::unknown::{UnknownField, UnknownFields};
use std::borrow::Cow;
use std::collections::*;
use std::marker::PhantomData;
use std::net::*;
use std::rc::Rc;
use std::sync::Arc;
use std::time::Duration;

/// Wrappers around one base type.
macro_rules! wrap { ($v:ident: $($b:ty),* $(,)?) => { $(
    put!($v, lite: ($b,), (u8, $b), ($b, u16), Vec<$b>, Option<$b>, [$b; 2], BTreeMap<u8, $b>, Result<$b, u8>,
         Gen<$b>, Deleg<$b>, EGen<$b>, Box<$b>, Rc<$b>, Arc<$b>, Copied<$b>, LinkedList<$b>, VecDeque<$b>,
         Vec<Vec<$b>>, Option<Option<$b>>, (Vec<$b>, u8), (Option<$b>, $b), Vec<Option<$b>>, Option<Vec<$b>>, Vec<($b,)>,
         [Vec<$b>; 2], Deleg<Vec<$b>>, (Deleg<Option<$b>>, u8), Box<Vec<Box<$b>>>, Gen<Gen<$b>>, HashMap<u16, Vec<$b>, H>,
         BTreeMap<u8, Option<$b>>, Gen<[$b; 2]>, Option<[$b; 3]>, EGen<Vec<$b>>, (Copied<Box<$b>>, Copied<Vec<$b>>),
         High<$b>, Deep<$b>, Gen<Gen<(Gen<Vec<$b>>, u8)>>);
)* } }

macro_rules! arrays { ($v:ident: $($n:expr),*) => { $( put!($v, lite: [u16; $n], ([u8; $n], u8), Option<[u16; $n]>, Vec<[u16; $n]>, Vec<[u8; $n]>, Option<[u8; $n]>, BTreeMap<u8, [u8; $n]>); )* } }

pub fn build() -> Vec<TyD> {
    let mut v: Vec<TyD> = vec![];
    arrays!(v: 0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25, 26, 27, 28, 29, 30, 31, 32,
            64, 128, 256);
    wrap!(v: u8, u16, i32, u64, bool, char, String, (), PhantomData<u8>, Vec<u8>, Vec<u16>, [u8; 3], [u16; 2], Option<u8>, Option<()>,
          BTreeMap<u8, u16>, BTreeSet<u16>, (u8, u16), Duration, IpAddr, Ipv4Addr, SocketAddr, Result<u8, String>, S1, Deleg<Vec<u16>>, E1,
          UStruct, UEnum, Box<u32>, Copied<Vec<u8>>);
    v
}
