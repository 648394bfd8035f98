//! C09 unknown fields and padding, C10 preservation.

use crate::cat::*;
use crate::dec::*;
use crate::docs::*;
use crate::retro::*;
use crate::run::*;
use crate::ty::*;
use fourleaf::unknown::{UnknownField, UnknownFields};
use fourleaf::{de, ser};
use mc::ensure;
use mc::eng::*;
use mc::model::*;
use std::borrow::Cow;

/// Well-formed things which may stand at any element boundary.
fn fragments(rich: bool) -> Vec<Vec<Tok>> {
    use Tok::*;
    let t = UNUSED_TAG;
    let mut o = vec![
        vec![Pad], vec![Int(t, 0)], vec![Int(t, u64::MAX)], vec![Blob(t, vec![])], vec![Blob(t, b"\x00\x40\x80\xC0\x41".to_vec())],
        vec![Struct(t), End], vec![Enum(t, 0), End],
        // known tags, padding and exceptions inside
        vec![Struct(t), Int(1, 9), Blob(2, b"\x00".to_vec()), Pad, Int(1, 9), End],
        vec![Enum(t, 1), Exc(b"\x00no".to_vec()), Struct(1), Struct(2), Pad, Enum(1, u64::MAX), End, End, Int(3, 1), End, End],
        vec![Pad, Int(t, 3), Pad, Blob(t, vec![0; 300]), Pad],
    ];
    if rich {
        o.push(vec![Pad; 5]);
        o.push(vec![Struct(t), Blob(1, vec![0x40; 70]), End, Int(t, 1)]);
        o.push([vec![Struct(t)], vec![Struct(1); 40], vec![End; 41]].concat());
        o.push([vec![Enum(t, 5)], vec![Enum(1, 1); 40], vec![Exc(vec![0xC0; 260])], vec![End; 41]].concat());
        o.push(vec![Int(t, 1), Int(t, 1), Int(t - 1, 2), Blob(t, vec![1])]);
        o.push(vec![Exc(b"stop".to_vec())]);
    }
    o
}

/// No catch-all which would keep what it does not know.
fn keeps_unknown(s: &Sch, seen: &mut Vec<usize>) -> bool {
    match s {
        Sch::Opt(t) | Sch::Seq(t, _) | Sch::Arr(_, t) | Sch::Copied(t) => keeps_unknown(t, seen),
        Sch::Map(a, b) => keeps_unknown(a, seen) || keeps_unknown(b, seen),
        Sch::Rec(r) => rec_keeps(r, seen),
        Sch::En(e) => e.vars.iter().any(|v| rec_keeps(&v.1, seen)) || e.catchall.as_ref().map_or(false, |r| rec_keeps(r, seen)),
        Sch::Lazy(f) => { let p = *f as usize; if seen.contains(&p) { return false; } seen.push(p); keeps_unknown(&f(), seen) },
        Sch::Unk | Sch::UF => true,
        _ => false,
    }
}
fn rec_keeps(r: &RecS, seen: &mut Vec<usize>) -> bool {
    r.unk.is_some() || r.fields.iter().any(|f| keeps_unknown(&f.2, seen)) || r.deleg.as_ref().map_or(false, |d| keeps_unknown(&d.1, seen))
}
fn is_unknown(f: &[Tok]) -> bool { f.iter().any(|t| *t != Tok::Pad) }

pub struct Insert { pub wide: bool }
impl Insert {
    fn one(&self, cx: &mut Cx, u: usize, l: u8, i: usize, ins: &[(usize, usize)]) {
        let mut n = vec![u as u64, l as u64, i as u64];
        for x in ins { n.push(x.0 as u64); n.push(x.1 as u64); }
        cx.run(self, Case::new("insertions", &n));
    }
}
fn rep(f: &[Tok], k: usize) -> Vec<Tok> { (0..k).flat_map(|_| f.iter().cloned()).collect() }
/// Foreign content big enough for counters and buffers to turn over.
fn heavy() -> Vec<(String, Vec<u8>)> {
    use Tok::*;
    let t = UNUSED_TAG;
    let mut o: Vec<(String, Vec<u8>)> = vec![];
    let mut p = |n: String, f: &[&[Tok]]| o.push((n, f.iter().flat_map(|x| emit(x)).collect()));
    for k in [100, 127, 255, 256, 257, 1030, 70_000] {
        p(format!("{} nested structs", k), &[&[Struct(t)], &vec![Struct(1); k - 1], &[Int(1, 5), Blob(2, vec![0; 3])], &vec![End; k]]);
        p(format!("{} nested enums, padded", k), &[&vec![Enum(t, 1); k], &[Pad], &rep(&[End, Pad], k)]);
        p(format!("{} nested structs with siblings", k), &[&rep(&[Struct(t), Int(1, 7), Blob(1, vec![0x40])], k), &rep(&[End, Int(1, 1)], k - 1), &[End]]);
    }
    for k in [255, 256, 70_000] {
        p(format!("{} paddings", k), &[&vec![Pad; k]]);
        p(format!("{} integers", k), &[&vec![Int(t, 300); k]]);
        p(format!("{} blobs", k), &[&vec![Blob(t, vec![0, 0x40]); k]]);
        p(format!("{} structs", k), &[&rep(&[Struct(t), Int(1, 1), End], k)]);
    }
    for k in [4095, 4096, 8191, 8192, 8193, 65535, 65536, 65537, (1 << 20) + 1, (1 << 24) + 1] {
        p(format!("blob of {}", k), &[&[Blob(t, vec![0; k])]]);
        p(format!("blob of {} in a struct", k), &[&[Struct(t), Blob(1, vec![0x40; k]), Pad, End]]);
    }
    assert_eq!(o.len(), NHEAVY);
    o
}
const NHEAVY: usize = 21 + 12 + 20;
/// What the quick tier uses of them.
const BRIEF: [usize; 11] = [9, 15, 17, 19, 25, 29, 30, 42, 47, 50, 51];
pub struct Heavy;
impl Suite for Heavy {
    fn name(&self) -> &'static str { "heavy-insertions" }
    fn bounds(&self, tier: Tier) -> String {
        format!("{} types x values of level {} x {} large foreign fragments ({}) at every element boundary (quick tier: first, middle, last; documents of up to 12 elements) x 2 modes x {{ignore, reject}}",
                catalog().len(), tier.q("0 (the first)", "0..1"), tier.q(BRIEF.len(), NHEAVY), heavy().iter().enumerate().filter(|x| tier.thorough() || BRIEF.contains(&x.0)).map(|x| x.1.0.clone()).collect::<Vec<_>>().join(", "))
    }
    fn units(&self, _: Tier) -> usize { catalog().len() }
    fn unit(&self, u: usize, tier: Tier, cx: &mut Cx) {
        let t = &catalog()[u];
        for l in 0..tier.q(1, 2) { for i in 0..(t.n)(l) {
            if tier == Tier::Quick && i > 0 { break; }
            let n = parse(&encode(&t.sch, &(t.val)(l, i))).0.len();
            if n > 12 { continue; }
            for k in 0..n { for f in 0..NHEAVY {
                if tier == Tier::Quick && (![0, n / 2, n - 1].contains(&k) || !BRIEF.contains(&f)) { continue; }
                // the very big ones say little about the type
                if tier == Tier::Quick && u % 16 != 0 && f >= NHEAVY - 4 { continue; }
                cx.run(self, Case::new(self.name(), &[u as u64, l as u64, i as u64, k as u64, f as u64]));
                if cx.past_deadline() { return; }
            } }
        } }
    }
    fn exec(&self, c: &Case, _: &ChRef, st: &mut Stats) -> Res {
        let t = &catalog()[c.ints[0] as usize];
        let v = (t.val)(c.ints[1] as u8, c.ints[2] as usize);
        let ts = parse(&encode(&t.sch, &v)).0;
        let k = c.ints[3] as usize;
        let f = { thread_local! { static H: Vec<(String, Vec<u8>)> = heavy(); } H.with(|h| h[c.ints[4] as usize].1.clone()) };
        let mut b = emit(&ts[..k]);
        b.extend_from_slice(&f);
        b.extend_from_slice(&emit(&ts[k..]));
        let n = b.len() as u64;
        b.extend_from_slice(TAIL);
        st.state(hash(&c.ints[..]));
        let keeps = keeps_unknown(&t.sch, &mut vec![]);
        for mode in [STREAM_COPY, ENV] {
            if !supports(t, mode) { continue; }
            compare(t, mode, &b, &Lim::strict(), true, st)?;
            compare(t, mode, &b, &Lim::wide(), true, st)?;
            if keeps { continue; }
            let g = decode(t, mode, &b, &Lim::wide());
            match g.res {
                Ok(ref r) => ensure!(canon(&t.sch, r) == canon(&t.sch, &v), format!("disturbed:{}", t.name), "{} with {} inserted at {} reads as {}", t.name, heavy()[c.ints[4] as usize].0, k, sv(r)),
                Err(ref e) => return fail(format!("refused:{}", t.name), format!("{} with {} inserted at {} is refused: {}", t.name, heavy()[c.ints[4] as usize].0, k, e)),
            }
            if let Some(p) = g.pos { ensure!(p == n, format!("moved:{}", t.name), "{} ends at {} instead of {}", t.name, p, n); }
            st.out("undisturbed");
        }
        Ok(())
    }
    fn show(&self, c: &Case) -> String {
        let t = &catalog()[c.ints[0] as usize];
        format!("{} = {} with {} at element {}", t.name, sv(&(t.val)(c.ints[1] as u8, c.ints[2] as usize)), heavy()[c.ints[4] as usize].0, c.ints[3])
    }
}

impl Suite for Insert {
    fn name(&self) -> &'static str { "insertions" }
    fn bounds(&self, tier: Tier) -> String {
        format!("{} types x values of level {} x {} well-formed fragments (padding, every wire type with a foreign tag, nested, with known tags, padding and exceptions inside) \
                 inserted at every element boundary of the document{} x 5 modes x {{ignore, reject}}; documents up to 300 bytes",
                catalog().len(), if self.wide { tier.q("0", "0..1") } else { "0..1" }, fragments(true).len(), tier.q("; for level 0 also at every pair of boundaries (4 fragments)", "; also at every pair of boundaries"))
    }
    fn units(&self, _: Tier) -> usize { catalog().len() }
    fn unit(&self, u: usize, tier: Tier, cx: &mut Cx) {
        let t = &catalog()[u];
        for l in 0..(if self.wide { tier.q(1, 2) } else { 2 }) { for i in 0..(t.n)(l) {
            let b = encode(&t.sch, &(t.val)(l, i));
            if b.len() > 300 { continue; }
            let n = parse(&b).0.len();
            let nf = fragments(true).len();
            for k in 0..n { for f in 0..nf { self.one(cx, u, l, i, &[(k, f)]); } }
            if n <= 20 && !self.wide && (l == 0 || tier.thorough()) {
                let fs: Vec<usize> = if tier.thorough() { (0..nf).collect() } else { vec![0, 2, 8, 10] };
                for k in 0..n { for j in k..n { for &f in &fs { for &g in &fs { self.one(cx, u, l, i, &[(k, f), (j, g)]); } } } }
            }
            if cx.past_deadline() { return; }
        } }
    }
    fn exec(&self, c: &Case, _: &ChRef, st: &mut Stats) -> Res {
        let t = &catalog()[c.ints[0] as usize];
        let v = (t.val)(c.ints[1] as u8, c.ints[2] as usize);
        let fr = fragments(true);
        let (orig, at) = parse(&encode(&t.sch, &v));
        let mut ts = orig.clone();
        let mut unknown = None;
        let mut exc = false;
        for p in c.ints[3..].chunks(2).rev() {
            let f = &fr[p[1] as usize];
            if f[0] == Tok::Exc(b"stop".to_vec()) { exc = true; }
            if is_unknown(f) { unknown = Some((p[0] as usize, f)); }
            ts.splice(p[0] as usize..p[0] as usize, f.iter().cloned());
        }
        let b = emit(&ts);
        let n = b.len() as u64;
        st.state(hash(&(c.ints[0], &b)));
        let mut with_tail = b.clone();
        with_tail.extend_from_slice(TAIL);
        let keeps = keeps_unknown(&t.sch, &mut vec![]);
        for mode in [STREAM_COPY, STREAM_COPY_GRACEFUL, STREAM_BORROW, ENV, ENV_SEEK] {
            if !supports(t, mode) { continue; }
            for lim in [Lim::wide(), Lim::strict()] {
                let want = compare(t, mode, &with_tail, &lim, true, st)?;
                // Independently of the reference decoder:
                if keeps || exc { continue; }
                let g = decode(t, mode, &with_tail, &lim);
                let what = || format!("{}: {} with {:?} inserted ({}) via {}", t.name, sv(&v), &c.ints[3..], hx(&b), MODE_NAMES[mode]);
                if lim.ignore || unknown.is_none() {
                    if !lim.ignore && want.is_err() { continue; } // F9
                    match g.res {
                        Ok(ref r) => ensure!(canon(&t.sch, r) == canon(&t.sch, &v), format!("disturbed:{}", t.name), "{} reads as {}", what(), sv(r)),
                        Err(ref e) => return fail(format!("refused:{}", t.name), format!("{} is refused: {}", what(), e)),
                    }
                    if let Some(p) = g.pos { ensure!(p == n, format!("moved:{}", t.name), "{} ends at {} instead of {}", what(), p, n); }
                    st.out("undisturbed");
                } else {
                    let (k, f) = unknown.unwrap();
                    let lead = f.iter().take_while(|x| **x == Tok::Pad).count();
                    // offset of the first foreign field, allowing for what was inserted before it
                    let mut off = at[k] + lead;
                    for p in c.ints[3..].chunks(2) {
                        let g = &fr[p[1] as usize];
                        if !is_unknown(g) && (p[0] as usize) <= k && c.ints.len() > 5 { off += emit(g).len(); } else { break; }
                    }
                    match g.res {
                        Err(de::Error::UnknownField(_, tag, pos)) => {
                            // () is known to refuse its own field 1 (see C01)
                            if tag == 1 && want.is_err() { continue; }
                            ensure!(tag == UNUSED_TAG && pos == off as u64, format!("unknown-field:{}", t.name), "{} reported as unknown field {} at {} instead of {} at {}", what(), tag, pos, UNUSED_TAG, off);
                        },
                        ref o => return fail(format!("unknown-accepted:{}", t.name), format!("{} must be refused as unknown field, got {:?}", what(), o)),
                    }
                    st.out("refused");
                }
            }
        }
        Ok(())
    }
    fn show(&self, c: &Case) -> String {
        let t = &catalog()[c.ints[0] as usize];
        format!("{} = {} insert {:?}", t.name, sv(&(t.val)(c.ints[1] as u8, c.ints[2] as usize)), &c.ints[3..])
    }
}

/// Which tags count as known.
pub struct Tags;
impl Suite for Tags {
    fn name(&self) -> &'static str { "every-tag" }
    fn bounds(&self, _: Tier) -> String {
        format!("{} types x values of level 0 x a field with each of the 63 tags and each wire type inserted at every element boundary x 3 modes x {{ignore, reject}}, against the reference; documents up to 60 bytes", catalog().len())
    }
    fn units(&self, _: Tier) -> usize { catalog().len() }
    fn unit(&self, u: usize, _: Tier, cx: &mut Cx) {
        let t = &catalog()[u];
        for i in 0..(t.n)(0) {
            let b = encode(&t.sch, &(t.val)(0, i));
            if b.len() > 60 { continue; }
            let ts = parse(&b).0;
            for k in 0..ts.len() { for tag in 1..64 {
                for m in [vec![Tok::Int(tag, 1)], vec![Tok::Blob(tag, b"a".to_vec())], vec![Tok::Struct(tag), Tok::End], vec![Tok::Enum(tag, 1), Tok::End]] {
                    let mut r = ts.clone();
                    r.splice(k..k, m);
                    cx.run(self, Case::b("every-tag", &[u as u64], &emit(&r)));
                }
            } }
        }
    }
    fn exec(&self, c: &Case, _: &ChRef, st: &mut Stats) -> Res {
        let t = &catalog()[c.ints[0] as usize];
        st.state(hash(&(c.ints[0], &c.bytes)));
        for mode in [STREAM_COPY, STREAM_BORROW, ENV] {
            if !supports(t, mode) { continue; }
            for lim in [Lim::wide(), Lim::strict()] { compare(t, mode, &c.bytes, &lim, false, st)?; }
        }
        Ok(())
    }
    fn show(&self, c: &Case) -> String { format!("{} from {}", catalog()[c.ints[0] as usize].name, hx(&c.bytes)) }
}

pub fn c09(wide: bool) -> Check {
    let mut s: Vec<Box<dyn Suite>> = vec![Box::new(Insert { wide })];
    if !wide { s.push(Box::new(Tags)); s.push(Box::new(Heavy)); }
    crate::extra("C09", &mut s);
    Check { id: "C09", level: "model_checking", rule: "Fragments are inserted at every boundary of every document; the value and position must be those of the document without them, or the error must name the fragment.", suites: s }
}

// ------------------------------------------------------------------ C10
struct Keep {
    name: &'static str,
    sch: S,
    /// decode (copying or borrowing), optionally edit the known fields, encode
    run: fn(&[u8], bool, bool, &de::Config) -> Result<Vec<u8>, String>,
    /// the same edit on a reference value
    edit: fn(&mut Val),
    known: &'static [u8],
    doms: fn(u8) -> Vec<Vec<u8>>,
}
macro_rules! keep { ($($name:expr, $a:lifetime, $t:ty, $own:ty, $known:expr, |$x:ident| $ed:expr, |$y:ident| $ev:expr;)*) => { vec![$( {
    fn run<$a>(b: &$a [u8], borrow: bool, edit: bool, c: &de::Config) -> Result<Vec<u8>, String> {
        let r: Result<$t, de::Error> = if borrow { de::from_slice_borrow::<$t>(b, c) } else { de::from_slice_copy::<$own>(b, c) };
        let mut v = r.map_err(|e| format!("{:?}", e))?;
        { let $x = &mut v; if edit { $ed; } let _ = $x; }
        ser::to_vec(&v).map_err(|e| format!("HARNESS {:?}", e))
    }
    fn edit(v: &mut Val) { let $y = v; $ev; }
    fn doms(l: u8) -> Vec<Vec<u8>> { <$own>::dom(l).iter().map(|x| encode(&<$own>::sch(), &x.val())).collect() }
    fn bsch<$a>(_: &$a u8) -> S { <$t as Ty>::sch() }
    Keep { name: $name, sch: bsch(&0), run, edit, known: $known, doms }
} ),*] } }
fn fld(v: &mut Val, i: usize) -> &mut Val { match v { Val::Rec(f) => &mut f[i], Val::En(_, f) => &mut f[i], _ => panic!("HARNESS") } }

fn keeps() -> Vec<Keep> {
    keep! {
        "UStruct", 'a, UStruct, UStruct, &[1, 2], |x| { x.foo = 70000; x.bar = Some(200); }, |v| { *fld(v, 0) = Val::U(70000); *fld(v, 1) = Val::List(vec![Val::U(200)]); };
        "UOnly", 'a, UOnly, UOnly, &[], |x| x.0 .0.push((9, UnknownField::Integer(1))), |v| if let Val::Unk(f) = fld(v, 0) { f.push((9, UVal::I(1))) };
        "UEnum", 'a, UEnum, UEnum, &[], |x| if let UEnum::Foo(ref mut n, _) = *x { *n = 999; }, |v| if let Val::En(2, f) = v { f[0] = Val::U(999); };
        "UVar", 'a, UVar, UVar, &[], |x| if let UVar::Other(_, ref mut n) = *x { *n = None; }, |v| if let Val::En(d, f) = v { if *d != 1 { f[0] = Val::List(vec![]); } };
        "Zc", 'a, Zc<'a>, Zc<'static>, &[1, 2, 3, 4], |x| { x.id = 4096; x.data = Cow::Owned(vec![9; 200]); x.name = None; x.own.push('!'); },
            |v| { *fld(v, 0) = Val::U(4096); *fld(v, 1) = Val::Bytes(vec![9; 200]); *fld(v, 2) = Val::List(vec![]); if let Val::Str(s) = fld(v, 3) { s.push(b'!'); } };
        "ZcE", 'a, ZcE<'a>, ZcE<'static>, &[], |x| if let ZcE::A(ref mut s) = *x { *s = Cow::Borrowed("new"); }, |v| if let Val::En(1, f) = v { f[0] = Val::Str(b"new".to_vec()); };
        "UnknownFields", 'a, UnknownFields<'a>, UnknownFields<'static>, &[], |x| x.0.insert(0, (63, UnknownField::Blob(Cow::Borrowed(b"q")))), |v| if let Val::Unk(f) = v { f.insert(0, (63, UVal::B(b"q".to_vec()))) };
        "Vec<UStruct>", 'a, Vec<UStruct>, Vec<UStruct>, &[], |x| for s in x.iter_mut() { s.foo = 3; }, |v| if let Val::List(l) = v { for s in l { *fld(s, 0) = Val::U(3); } };
        "(UStruct, u8)", 'a, (UStruct, u8), (UStruct, u8), &[], |x| { x.0.bar = None; x.1 = 7; }, |v| { *fld(fld(v, 0), 1) = Val::List(vec![]); *fld(v, 1) = Val::U(7); };
        "High<UStruct>", 'a, High<UStruct>, High<UStruct>, &[], |x| { x.a.foo = 6; x.o = None; }, |v| { *fld(fld(v, 3), 0) = Val::U(6); *fld(v, 0) = Val::List(vec![]); };
        "Deep<UStruct>", 'a, Deep<UStruct>, Deep<UStruct>, &[], |x| x.x.x.x.x.x.foo = 8, |v| *fld(fld(fld(fld(fld(fld(v, 0), 0), 0), 0), 0), 0) = Val::U(8);
        "Deep<UEnum>", 'a, Deep<UEnum>, Deep<UEnum>, &[], |x| x.tail = 8, |v| *fld(v, 1) = Val::U(8);
        "Gen<UEnum>", 'a, Gen<UEnum>, Gen<UEnum>, &[], |x| x.tail = 5, |v| *fld(v, 1) = Val::U(5);
        "Deleg<UStruct>", 'a, Deleg<UStruct>, Deleg<UStruct>, &[], |x| x.0.foo = 0, |v| *fld(fld(v, 0), 0) = Val::U(0);
        "EGen<UStruct>", 'a, EGen<UStruct>, EGen<UStruct>, &[], |x| if let EGen::D(ref mut s) = *x { s.foo = 1; }, |v| if let Val::En(1, f) = v { *fld(&mut f[0], 0) = Val::U(1); };
        "Vec<Zc>", 'a, Vec<Zc<'a>>, Vec<Zc<'static>>, &[], |x| for s in x.iter_mut() { s.id = 1; }, |v| if let Val::List(l) = v { for s in l { *fld(s, 0) = Val::U(1); } };
        "BTreeMap<u8, UEnum>", 'a, std::collections::BTreeMap<u8, UEnum>, std::collections::BTreeMap<u8, UEnum>, &[], |x| { x.remove(&1); }, |v| if let Val::Map(m) = v { m.retain(|e| e.0 != Val::U(1)); };
    }
}

fn check_keep(k: &Keep, b: &[u8], st: &mut Stats) -> Res {
    for borrow in [false, true] { for lim in [Lim::wide(), Lim::strict()] { for edit in [false, true] {
        let style = if borrow { Style::Borrow } else { Style::Copy };
        let want = Dec::new(b, false, lim, style).top(&k.sch);
        let got = (k.run)(b, borrow, edit, &conf(&lim));
        st.step(1);
        let what = || format!("{} from {} ({}, {}, ignore_unknown_fields={})", k.name, hx(b), if borrow { "borrowed" } else { "copied" }, if edit { "edited" } else { "as is" }, lim.ignore);
        match (want, got) {
            (Err(_), Err(_)) => st.out("rejected"),
            (Ok(v), Err(e)) => return fail(format!("rejects:{}", k.name), format!("{}: rejected ({}), is {}", what(), e, sv(&v))),
            (Err(x), Ok(o)) => return fail(format!("accepts:{}", k.name), format!("{}: accepted and rewritten as {}, must fail with {:?}", what(), hx(&o), x)),
            (Ok(mut v), Ok(o)) => {
                if edit { (k.edit)(&mut v); }
                // (maps and sets are written in order, whatever order was read)
                let w = encode(&k.sch, &canon(&k.sch, &v));
                ensure!(o == w, format!("rewrite:{}", k.name), "{}: rewritten as {}, must be {}", what(), hx(&o), hx(&w));
                // Without the reference decoder: the unknown fields of the
                // outermost struct come out as they went in.
                if !k.known.is_empty() {
                    let top = |b: &[u8]| -> Vec<Vec<Tok>> {
                        let ts = parse(b).0;
                        let mut o = vec![];
                        let mut i = 0;
                        while i < ts.len() && ts[i] != Tok::End && ts[i] != Tok::EndDoc {
                            let e = subtree(&ts, i);
                            let tag = match ts[i] { Tok::Int(t, _) | Tok::Blob(t, _) | Tok::Struct(t) | Tok::Enum(t, _) => t, _ => 0 };
                            if tag != 0 && !k.known.contains(&tag) { o.push(ts[i..e].iter().filter(|x| **x != Tok::Pad).cloned().collect()); }
                            i = e;
                        }
                        o
                    };
                    if !b.contains(&0x40) {
                        let (x, y) = (top(b), top(&o));
                        ensure!(x == y, format!("lost:{}", k.name), "{}: unknown fields {:?} became {:?}", what(), x, y);
                        st.out("kept-top-level");
                    }
                }
                st.out("kept");
            },
        }
    } } }
    st.trace();
    Ok(())
}

pub struct Preserve;
impl Suite for Preserve {
    fn name(&self) -> &'static str { "preserve" }
    fn bounds(&self, tier: Tier) -> String {
        format!("{} edit-compatible types x (all element sequences over the type's alphabet by length within {} documents; values of levels 0..1 with every single edit{}, with every fragment inserted at every boundary) \
                 x {{copying, borrowing}} x {{ignore, reject unknown fields}} x {{as is, known fields edited}}", keeps().len(), tier.q(30_000, 400_000), tier.q("", " and every pair of edits up to 300000 per type"))
    }
    fn units(&self, _: Tier) -> usize { keeps().len() * 3 }
    fn unit(&self, u: usize, tier: Tier, cx: &mut Cx) {
        let ks = keeps();
        let (ki, part) = (u / 3, u % 3);
        let k = &ks[ki];
        let v = voc(&k.sch);
        let mut go = |cx: &mut Cx, b: &[u8]| { cx.run(self, Case::b("preserve", &[ki as u64], b)); };
        match part {
            0 => {
                let budget = tier.q(30_000, 400_000);
                let toks: Vec<Tok> = v.toks(false);
                let mut level: Vec<Vec<u8>> = vec![vec![]];
                let mut n = 0;
                while n < budget && !level.is_empty() && !cx.past_deadline() {
                    let mut next = vec![];
                    for p in &level { for t in &toks {
                        let mut b = p.clone();
                        put(&mut b, t);
                        match Dec::new(&b, false, Lim::wide(), Style::Copy).top(&k.sch) {
                            Ok(_) => { n += 1; go(cx, &b) },
                            Err(ref e) if e.is_eof() => next.push(b),
                            Err(_) => (),
                        }
                    } if n > budget { break; } }
                    level = next;
                    if level.len() * toks.len() > 40 * budget { break; }
                }
            },
            _ => for l in 0..2 { for b in (k.doms)(l) {
                if b.len() > 300 { continue; }
                let ts = parse(&b).0;
                if part == 1 {
                    let mut n = 0;
                    for e in edits(&ts, &v, true) {
                        go(cx, &emit(&e));
                        if tier.thorough() && n < 300_000 { for f in edits(&e, &v, false) { n += 1; go(cx, &emit(&f)); } }
                    }
                } else {
                    let fr = fragments(true);
                    for i in 0..ts.len() { for j in i..ts.len() { for f in &fr { for g in &fr {
                        if j != i && ts.len() > 12 && !tier.thorough() { continue; }
                        let mut r = ts.clone();
                        r.splice(j..j, g.iter().cloned());
                        r.splice(i..i, f.iter().cloned());
                        go(cx, &emit(&r));
                    } } } }
                }
                if cx.past_deadline() { return; }
            } },
        }
    }
    fn exec(&self, c: &Case, _: &ChRef, st: &mut Stats) -> Res {
        thread_local! { static K: Vec<Keep> = keeps(); }
        st.state(hash(&(c.ints[0], &c.bytes)));
        let mut b = c.bytes.clone();
        b.extend_from_slice(&[0; 4]);
        K.with(|k| check_keep(&k[c.ints[0] as usize], &b, st))
    }
    fn show(&self, c: &Case) -> String { format!("{} from {}", keeps()[c.ints[0] as usize].name, hx(&c.bytes)) }
}

/// Every catalog type's document, read as nothing but unknown fields.
pub struct Opaque;
impl Suite for Opaque {
    fn name(&self) -> &'static str { "as-unknown" }
    fn bounds(&self, tier: Tier) -> String {
        format!("encodings of all values (levels {}) of {} types, bare and with padding between any two elements, read as UnknownFields and written again", tier.q("0..1", "0..2"), catalog().len())
    }
    fn units(&self, _: Tier) -> usize { catalog().len() }
    fn unit(&self, u: usize, tier: Tier, cx: &mut Cx) {
        let t = &catalog()[u];
        for l in 0..tier.q(2, 3) { for i in 0..(t.n)(l) {
            cx.run(self, Case::new("as-unknown", &[u as u64, l as u64, i as u64, 0]));
            let n = parse(&encode(&t.sch, &(t.val)(l, i))).0.len();
            if n <= 40 { for k in 0..n { cx.run(self, Case::new("as-unknown", &[u as u64, l as u64, i as u64, 1 + k as u64])); } }
        } }
    }
    fn exec(&self, c: &Case, _: &ChRef, st: &mut Stats) -> Res {
        let t = &catalog()[c.ints[0] as usize];
        let plain = encode(&t.sch, &(t.val)(c.ints[1] as u8, c.ints[2] as usize));
        let mut b = plain.clone();
        if c.ints[3] > 0 {
            let mut ts = parse(&b).0;
            ts.insert(c.ints[3] as usize - 1, Tok::Pad);
            b = emit(&ts);
        }
        st.state(hash(&b));
        st.step(1);
        let cf = conf(&Lim::wide());
        let d = |e: de::Error| Fail { key: format!("opaque-read:{}", t.name), msg: format!("{} {} as UnknownFields: {}", t.name, hx(&b), e) };
        let a = ser::to_vec(de::from_slice_borrow::<UnknownFields>(&b, &cf).map_err(d)?).unwrap();
        ensure!(a == plain, format!("opaque:{}", t.name), "{} {} read as borrowed UnknownFields is written as {}", t.name, hx(&b), hx(&a));
        let a = ser::to_vec(de::from_slice_copy::<UnknownFields<'static>>(&b, &cf).map_err(d)?).unwrap();
        ensure!(a == plain, format!("opaque:{}", t.name), "{} {} read as copied UnknownFields is written as {}", t.name, hx(&b), hx(&a));
        st.trace();
        st.out("reproduced");
        Ok(())
    }
}

pub fn c10() -> Check {
    Check { id: "C10", level: "model_checking", rule: "Every document is decoded as an edit-compatible type and encoded again by the real code; the bytes must be those of the reference decoder and encoder, and the unknown fields those that went in.",
            suites: vec![Box::new(Preserve), Box::new(Opaque)] }
}
