//! The hand-picked part of the catalog.

use crate::cat::*;
use crate::retro::*;
use crate::ty::*;
use fourleaf::adapt::Copied;
use fourleaf::unknown::{UnknownField, UnknownFields};
use std::borrow::Cow;
use std::collections::*;
use std::marker::PhantomData;
use std::net::*;
use std::rc::Rc;
use std::sync::Arc;
use std::time::Duration;

macro_rules! byte_arrays { ($v:ident: $($n:expr),*) => { $( put!($v, full: [u8; $n]); )* } }

pub fn build() -> Vec<TyD> {
    let mut v: Vec<TyD> = vec![];
    put!(v, full: u8, u16, u32, u64, usize, i8, i16, i32, i64, isize, bool, char, String, (), PhantomData<u8>,
         Vec<u8>, Vec<u16>, Vec<String>, Vec<bool>, Vec<()>, Vec<Vec<u8>>, Vec<Box<u8>>, Option<u8>, Option<String>, Option<()>,
         Option<Vec<u16>>, Option<Vec<u8>>, Option<Option<u8>>, Vec<Option<u16>>, Vec<Vec<u16>>,
         LinkedList<u16>, LinkedList<u8>, VecDeque<String>, VecDeque<u8>, BTreeSet<u16>, BTreeSet<u8>, BTreeSet<Vec<u16>>, BTreeSet<String>,
         HashSet<u16, H>, HashSet<String, H>, HashSet<Option<u8>, H>, BinaryHeap<u16>, BinaryHeap<String>,
         BTreeMap<u8, u16>, BTreeMap<String, Vec<u16>>, BTreeMap<u16, Option<u8>>, BTreeMap<Option<u8>, Vec<u8>>,
         BTreeMap<u8, BTreeMap<u8, u8>>, BTreeMap<Vec<u16>, [u8; 2]>, BTreeMap<(u8, u8), bool>,
         HashMap<u8, u16, H>, HashMap<String, String, H>, HashMap<u16, Option<u16>, H>,
         [u16; 2], [String; 2], [[u8; 2]; 2], [[u16; 2]; 3], [Option<u8>; 2], [Vec<u8>; 2], [(); 2], Vec<[u8; 3]>, Option<[u8; 4]>,
         (u8,), (u8, u16), (u8, Option<u8>), (Option<u8>, Vec<u16>, String), (Vec<u8>, Vec<u16>, [u8; 2]), ((u8, u8), (u16,), ()),
         (Vec<u16>, Vec<u16>), (BTreeMap<u8, u8>, BTreeSet<u8>), (i8, bool, char, PhantomData<String>),
         Box<u32>, Rc<String>, Arc<Vec<u16>>, Box<(u8, Box<u16>)>, Copied<String>, Copied<Vec<u16>>,
         Duration, Ipv4Addr, Ipv6Addr, IpAddr, SocketAddrV4, SocketAddrV6, SocketAddr, Vec<IpAddr>, Option<Duration>,
         Result<u8, String>, Result<Vec<u16>, ()>, Result<(), u8>, Result<(u8, u8), Option<u8>>, Vec<Result<u8, u8>>,
         S1, STags, SEmpty, Even, Vec<S1>, Option<S1>, Vec<SEmpty>, Gen<u32>, Gen<Vec<u8>>, Gen<Vec<u16>>, Gen<Option<Gen<u8>>>,
         Deleg<u8>, Deleg<Vec<u8>>, Deleg<Vec<u16>>, Deleg<S1>, Deleg<Option<u8>>, Deleg<()>, (Deleg<Vec<u16>>, u8), Deleg<Deleg<u16>>,
         E1, Vec<E1>, Option<E1>, (E1, E1), EGen<u8>, EGen<Vec<u16>>, EGen<Option<u8>>, EGen<()>, EGen<S1>, EGen<Vec<u8>>, EGen<[u8; 2]>,
         UStruct, UOnly, UEnum, UVar, Vec<UStruct>, (UStruct, u8), Gen<UEnum>, Deleg<UStruct>, Vec<UVar>,
         Copied<UnknownFields<'static>>, Vec<Copied<UnknownFields<'static>>>, [Copied<UnknownFields<'static>>; 1],
         (Copied<UnknownField<'static>>, u8), Vec<Copied<UnknownField<'static>>>,
         Tree, Link, Nest, Json, Vec<Json>,
         High<u8>, High<Vec<u8>>, High<String>, High<(u8, bool)>, High<[u16; 2]>, High<UStruct>, High<EGen<u8>>, Deep<u8>, Deep<UStruct>, Deep<UEnum>, Vec<Vec<Vec<(Vec<u16>,)>>>,
         Vec<[u8; 64]>, Option<[u8; 64]>, [[u8; 64]; 2], BTreeMap<u8, [u8; 64]>, Vec<[bool; 64]>, Option<[bool; 64]>,
         (u8, u16, u32, u64), (u8, u16, u32, u64, String),
         (u8, u16, u32, u64, String, bool), (u8, u16, u32, u64, String, bool, i8),
         (u8, u16, u32, u64, String, bool, i8, i16), (u8, u16, u32, u64, String, bool, i8, i16, i32),
         (u8, u16, u32, u64, String, bool, i8, i16, i32, i64), (u8, u16, u32, u64, String, bool, i8, i16, i32, i64, u8),
         (u8, u16, u32, u64, String, bool, i8, i16, i32, i64, u8, char),
         (u8, u16, u32, u64, String, bool, i8, i16, i32, i64, u8, char, [u8; 2]),
         (u8, u16, u32, u64, String, bool, i8, i16, i32, i64, u8, char, [u8; 2], Vec<u16>),
         (u8, u16, u32, u64, String, bool, i8, i16, i32, i64, u8, char, [u8; 2], Vec<u16>, Option<u8>),
         (u8, u16, u32, u64, String, bool, i8, i16, i32, i64, u8, char, [u8; 2], Vec<u16>, Option<u8>, (u8, u8)));
    put!(v, own: UnknownFields<'static>, Vec<UnknownFields<'static>>, [UnknownFields<'static>; 1], UnknownField<'static>,
         Option<UnknownField<'static>>, BTreeMap<u8, UnknownField<'static>>,
         Cow<'static, [u8]>, Cow<'static, str>, Cow<'static, u32>, Cow<'static, Vec<u16>>, Cow<'static, (u8, u16)>, Cow<'static, Option<u8>>,
         Cow<'static, ()>, Vec<Cow<'static, str>>, (Cow<'static, [u8]>, Cow<'static, Vec<u16>>, u8), Zc<'static>, ZcE<'static>, Vec<Zc<'static>>);
    byte_arrays!(v: 0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25, 26, 27, 28, 29, 30, 31, 32,
                 64, 128, 256, 512, 1024, 2048, 4096, 8192, 16384, 32768, 65536);
    put!(v, lite: [u16; 512], [u16; 1024], [u64; 2048], [bool; 4096], [u8; 131072], ([bool; 64], [i8; 128]));
    v
}

