//! C02 (second part): forms which can only be written, not read (references,
//! slices, shared slices, boxed strings), encode as what they refer to.

use crate::cat::*;
use crate::ty::*;
use fourleaf::ser::{self, Serialize};
use mc::ensure;
use mc::eng::*;
use mc::model::*;
use std::collections::*;
use std::rc::Rc;
use std::sync::Arc;

/// (form, documented bytes, bytes written)
pub type Seen = Vec<(&'static str, Vec<u8>, SR<Vec<u8>>)>;

fn seq(s: S) -> S { a(Sch::Seq(s, Kind::Ordered)) }
fn opt(s: &S) -> S { a(Sch::Opt(s.clone())) }
fn tup(s: Vec<S>) -> S { rec(s.into_iter().enumerate().map(|(i, s)| (i as u8 + 1, "", s)).collect()) }

pub fn views<T: Dom + Serialize + 'static>(l: u8, i: usize) -> Seen {
    let vs = values::<T>(l);
    let x = &vs[i];
    let (s, v) = (T::sch(), x.val());
    let mut o: Seen = vec![];
    let mut own = T::dom(l).swap_remove(i);
    {
        let mut put = |n: &'static str, s: S, v: Val, b: SR<Vec<u8>>| o.push((n, encode(&s, &v), b));
        put("&&&T", s.clone(), v.clone(), ser::to_vec(&&&x));
        put("&mut &mut T", s.clone(), v.clone(), ser::to_vec(&mut &mut own));
        put("(&T, &mut T, &&T)", tup(vec![s.clone(); 3]), Val::Rec(vec![v.clone(); 3]), ser::to_vec((x, &mut own, &x)));
        put("Vec<&T>", seq(s.clone()), Val::List(vec![v.clone(); 2]), ser::to_vec(vec![x, x]));
        put("[&&T; 2]", seq(s.clone()), Val::List(vec![v.clone(); 2]), ser::to_vec([&x, &x]));
        put("(VecDeque<&T>, LinkedList<&T>)", tup(vec![seq(s.clone()); 2]), Val::Rec(vec![Val::List(vec![v.clone(); 2]); 2]),
            ser::to_vec((vec![x, x].into_iter().collect::<VecDeque<_>>(), vec![x, x].into_iter().collect::<LinkedList<_>>())));
        put("Option<&T>", opt(&s), Val::List(vec![v.clone()]), ser::to_vec(Some(x)));
        put("(Vec<Option<&T>>,)", tup(vec![seq(opt(&s))]), Val::Rec(vec![Val::List(vec![Val::List(vec![v.clone()]), Val::List(vec![])])]),
            ser::to_vec((vec![Some(x), None],)));
        put("Vec<(&T, &mut u8)>", seq(tup(vec![s.clone(), a(Sch::U(8))])), Val::List(vec![Val::Rec(vec![v.clone(), Val::U(7)])]), ser::to_vec(vec![(x, &mut 7u8)]));
        put("BTreeMap<&u8, &T>", a(Sch::Map(a(Sch::U(8)), s.clone())), Val::Map(vec![(Val::U(3), v.clone())]),
            ser::to_vec(Some((&3u8, x)).into_iter().collect::<BTreeMap<_, _>>()));
    }
    // slices of every length up to 3 which start at the value
    for n in 0..4 {
        if i + n > vs.len() { break; }
        let sl: &[T] = &vs[i..i + n];
        let fresh = || -> Vec<T> { let mut d = T::dom(l); d.drain(..i); d.truncate(n); d };
        let list = |x: &[T]| -> (S, Val) {
            if T::is_u8() { (a(Sch::Bytes(false)), Val::Bytes(x.iter().map(|x| if let Val::U(n) = x.val() { n as u8 } else { panic!("HARNESS") }).collect())) }
            else { (seq(s.clone()), Val::List(x.iter().map(|x| x.val()).collect())) }
        };
        let (ls, lv) = list(sl);
        let mut put = |n: &'static str, s: S, v: Val, b: SR<Vec<u8>>| o.push((n, encode(&s, &v), b));
        put("&[T]", ls.clone(), lv.clone(), ser::to_vec(sl));
        put("&mut [T]", ls.clone(), lv.clone(), ser::to_vec(&mut fresh()[..]));
        put("&Vec<T>", ls.clone(), lv.clone(), ser::to_vec(&fresh()));
        put("Box<[T]>", ls.clone(), lv.clone(), ser::to_vec(fresh().into_boxed_slice()));
        put("Rc<[T]>", ls.clone(), lv.clone(), ser::to_vec(Rc::<[T]>::from(fresh())));
        put("(Arc<[T]>, &[T], Box<[T]>)", tup(vec![ls.clone(); 3]), Val::Rec(vec![lv.clone(); 3]), ser::to_vec((Arc::<[T]>::from(fresh()), sl, fresh().into_boxed_slice())));
        put("Vec<&[T]>", seq(ls.clone()), Val::List(vec![lv.clone(); 2]), ser::to_vec(vec![sl, sl]));
        put("&[Box<[T]>]", seq(ls.clone()), Val::List(vec![lv.clone()]), ser::to_vec(&[fresh().into_boxed_slice()][..]));
        put("(Option<&[T]>,)", tup(vec![opt(&ls)]), Val::Rec(vec![Val::List(vec![lv.clone()])]), ser::to_vec((Some(sl),)));
        put("BTreeMap<u8, &[T]>", a(Sch::Map(a(Sch::U(8)), ls.clone())), Val::Map(vec![(Val::U(3), lv.clone())]),
            ser::to_vec(Some((3u8, sl)).into_iter().collect::<BTreeMap<_, _>>()));
        put("&[&T]", seq(s.clone()), Val::List(sl.iter().map(|x| x.val()).collect()), ser::to_vec(&sl.iter().collect::<Vec<&T>>()[..]));
    }
    o
}

fn texts(i: usize) -> Seen {
    let d = String::dom(2);
    let x: &str = &d[i];
    let (s, v) = (String::sch(), d[i].val());
    vec![
        ("&str", encode(&s, &v), ser::to_vec(x)),
        ("&&str", encode(&s, &v), ser::to_vec(&x)),
        ("Box<str>", encode(&s, &v), ser::to_vec(Box::<str>::from(x))),
        ("Rc<str>", encode(&s, &v), ser::to_vec(Rc::<str>::from(x))),
        ("Arc<str>", encode(&s, &v), ser::to_vec(Arc::<str>::from(x))),
        ("&mut String", encode(&s, &v), ser::to_vec(&mut x.to_owned())),
        ("Vec<&str>", encode(&seq(s.clone()), &Val::List(vec![v.clone(); 2])), ser::to_vec(vec![x, x])),
        ("&[Box<str>]", encode(&seq(s.clone()), &Val::List(vec![v.clone()])), ser::to_vec(&[Box::<str>::from(x)][..])),
        ("BTreeMap<&str, Option<&str>>", encode(&a(Sch::Map(s.clone(), opt(&s))), &Val::Map(vec![(v.clone(), Val::List(vec![v.clone()]))])),
         ser::to_vec(Some((x, Some(x))).into_iter().collect::<BTreeMap<_, _>>())),
        ("BTreeSet<Arc<str>>", encode(&a(Sch::Seq(s.clone(), Kind::Set)), &Val::List(vec![v.clone()])), ser::to_vec(Some(Arc::<str>::from(x)).into_iter().collect::<BTreeSet<_>>())),
        ("(&str, Rc<str>)", encode(&tup(vec![s.clone(); 2]), &Val::Rec(vec![v.clone(); 2])), ser::to_vec((x, Rc::<str>::from(x)))),
    ]
}

/// Bare unknown fields are documented not to be usable as fields.
fn shown(t: &TyD) -> bool { t.views.is_some() && !t.name.starts_with("UnknownFields<") && !t.name.starts_with("Copied<UnknownFields<") }

pub struct Views;
impl Suite for Views {
    fn name(&self) -> &'static str { "write-only-forms" }
    fn bounds(&self, tier: Tier) -> String {
        format!("{} types x all values of levels 0..{} x 10 forms by reference and 11 forms over slices of 0..3 values; 11 forms of str x all strings of level 2; byte for byte",
                catalog().iter().filter(|t| shown(t)).count(), tier.q("1", "1, and 2 where the encoding is up to 3000 bytes"))
    }
    fn units(&self, _: Tier) -> usize { catalog().len() + 1 }
    fn unit(&self, u: usize, tier: Tier, cx: &mut Cx) {
        if u == catalog().len() {
            for i in 0..String::dom(2).len() { cx.run(self, Case::new("write-only-forms", &[u as u64, 2, i as u64])); }
            return;
        }
        let t = &catalog()[u];
        if !shown(t) { return; }
        for l in 0..tier.q(2, 3) { for i in 0..(t.n)(l) {
            if l == 2 && encode(&t.sch, &(t.val)(l, i)).len() > 3000 { continue; }
            cx.run(self, Case::new("write-only-forms", &[u as u64, l as u64, i as u64]));
            if cx.past_deadline() { return; }
        } }
    }
    fn exec(&self, c: &Case, _: &ChRef, st: &mut Stats) -> Res {
        let (u, l, i) = (c.ints[0] as usize, c.ints[1] as u8, c.ints[2] as usize);
        let (name, r) = if u == catalog().len() { ("str", texts(i)) } else { (catalog()[u].name, (catalog()[u].views.unwrap())(l, i)) };
        for (form, want, got) in r {
            st.state(hash(&(u, form, &want)));
            match got {
                Ok(b) => ensure!(b == want, format!("form:{}:{}", form, name), "{} with T={} must be encoded as {} but is {}", form, name, hx(&want), hx(&b)),
                Err(x) => return fail(format!("form:{}:{}", form, name), format!("{} with T={} cannot be encoded: {}", form, name, x)),
            }
            st.step(want.len() as u64);
            st.out("identical");
        }
        st.trace();
        Ok(())
    }
    fn show(&self, c: &Case) -> String {
        let u = c.ints[0] as usize;
        if u == catalog().len() { format!("str value {}", c.ints[2]) } else { format!("{} value {} of level {}", catalog()[u].name, c.ints[2], c.ints[1]) }
    }
}
