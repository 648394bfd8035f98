//! C21 decoded values always respect their type's invariants.

use crate::cat::*;
use crate::dec::*;
use crate::docs::*;
use crate::run::*;
use mc::ensure;
use mc::eng::*;
use mc::model::*;
use mc::sut::*;
use mc::wire::*;

/// Whether a value can exist at all.
pub fn inhabits(s: &Sch, v: &Val) -> Result<(), String> {
    let no = |w: &str| Err(format!("{}: {}", w, sv(v)));
    match (s, v) {
        (Sch::Copied(t), _) => inhabits(t, v),
        (Sch::Lazy(f), _) => inhabits(&f(), v),
        (Sch::U(b), Val::U(n)) => if *b < 64 && n >> b != 0 { no("out of range") } else { Ok(()) },
        (Sch::I(b), Val::I(n)) => { let m = 1i128 << (b - 1); if (*n as i128) < -m || *n as i128 >= m { no("out of range") } else { Ok(()) } },
        (Sch::Bool, Val::B(_)) | (Sch::Null, Val::Null) | (Sch::Bytes(_), Val::Bytes(_)) | (Sch::Unk, Val::Unk(_)) | (Sch::UF, Val::UF(_)) => Ok(()),
        (Sch::Char, Val::C(c)) => if *c > 0x10FFFF || (*c >= 0xD800 && *c < 0xE000) { no("not a character") } else { Ok(()) },
        (Sch::Str(_), Val::Str(b)) => if utf8(b) { Ok(()) } else { no("not UTF-8") },
        (Sch::ByteArr(n), Val::Bytes(b)) => if b.len() == *n { Ok(()) } else { no("wrong length") },
        (Sch::Opt(t), Val::List(l)) => if l.len() > 1 { no("too many") } else { l.iter().try_for_each(|x| inhabits(t, x)) },
        (Sch::Seq(t, _), Val::List(l)) => l.iter().try_for_each(|x| inhabits(t, x)),
        (Sch::Arr(n, t), Val::List(l)) => if l.len() != *n { no("wrong length") } else { l.iter().try_for_each(|x| inhabits(t, x)) },
        (Sch::Map(k, w), Val::Map(m)) => m.iter().try_for_each(|(a, b)| inhabits(k, a).and_then(|_| inhabits(w, b))),
        (Sch::Rec(r), Val::Rec(f)) => inhabits_rec(r, f),
        (Sch::En(e), Val::En(d, f)) => match e.vars.iter().find(|x| x.0 == *d).map(|x| &x.1).or(e.catchall.as_ref()) {
            Some(r) => inhabits_rec(r, f), None => no("undeclared variant"),
        },
        _ => no("wrong shape"),
    }
}
fn inhabits_rec(r: &RecS, f: &[Val]) -> Result<(), String> {
    if let Some((_, ref d)) = r.deleg { inhabits(d, &f[0])?; }
    for (x, v) in r.fields.iter().zip(f) { inhabits(&x.2, v)?; }
    if let Some(ck) = r.check { if !ck(f) { return Err(format!("invalid {}", sv(&Val::Rec(f.to_vec())))); } }
    Ok(())
}

/// One document in the given modes: agreement with the reference, and the
/// value's invariants by themselves.
fn judge(t: &TyD, b: &[u8], modes: &[usize], lims: &[Lim], st: &mut Stats) -> Res {
    for &mode in modes {
        if !supports(t, mode) { continue; }
        for lim in lims {
            if let Ok(v) = compare(t, mode, b, lim, false, st)? {
                if let Err(m) = inhabits(&t.sch, &v) { panic!("HARNESS: the reference accepted {} as {}", hx(b), m); }
                let g = decode(t, mode, b, lim);
                if let Ok(ref r) = g.res {
                    if let Err(m) = inhabits(&t.sch, r) { return fail(format!("domain:{}", t.name), format!("{} from {}: {}", t.name, hx(b), m)); }
                }
            }
        }
    }
    Ok(())
}

// ------------------------------------------------------------------ integers
/// Types swept over a long range of integers.
const SWEPT: [&str; 14] = ["u8", "i8", "u16", "i16", "bool", "PhantomData<u8>", "E1", "Result<u8, String>", "IpAddr", "SocketAddr", "EGen<u8>",
    "Json", "SocketAddrV4", "ZcE<'static>"];

fn bounds() -> Vec<u64> {
    let mut v: Vec<u64> = vec![];
    for k in 0..64 {
        let p = 1u64 << k;
        for d in [-2i64, -1, 0, 1, 2] { v.push(p.wrapping_add(d as u64)); }
        // something valid in the low bits, something else above
        for low in [0u64, 1, 2, 4, 6, 0x41, 0xD800, 0x10FFFF, 999_999_999] { if k > 7 { v.push(p | low); } }
    }
    for p in [1_000_000_000u64, 0xD800, 0xDFFF, 0xE000, 0x10FFFF, 0x110000, 1 << 32, (1 << 32) + 1_000_000_000] {
        for d in 0..5 { v.push(p + d - 2); }
    }
    v.extend([u64::MAX, u64::MAX - 1, 0]);
    v.sort();
    v.dedup();
    v
}

pub struct Ints;
impl Suite for Ints {
    fn name(&self) -> &'static str { "integers" }
    fn bounds(&self, tier: Tier) -> String {
        format!("char: every integer 0..=0x{:x}; {}: every integer 0..={} in place of each integer and discriminant; every type of the catalog: 0..={} and \
                 {} boundary integers (around every power of two, with valid low halves, 10^9, surrogates) in place of each integer and discriminant of its level 0 and 1 documents; copying and borrowing",
                tier.q(0x110100, 0x220000), SWEPT.join(", "), tier.q(33_000, 70_000), tier.q(64, 512), bounds().len())
    }
    fn units(&self, _: Tier) -> usize { 32 + catalog().len() }
    fn unit(&self, u: usize, tier: Tier, cx: &mut Cx) {
        if u < 32 {
            let n = tier.q(0x110100u64, 0x220000);
            let t = find("char") as u64;
            for i in 0..=n {
                if i % 32 != u as u64 { continue; }
                let mut b = vec![];
                t_int(&mut b, 1, i);
                b.push(0);
                cx.run(self, Case::b("integers", &[t], &b));
            }
            return;
        }
        let u = u - 32;
        let t = &catalog()[u];
        let long = SWEPT.contains(&t.name);
        let bs = bounds();
        let mut done = std::collections::HashSet::new();
        for l in 0..2 { for i in 0..(t.n)(l) {
            let b = encode(&t.sch, &(t.val)(l, i));
            if b.len() > 200 { continue; }
            let ts = parse(&b).0;
            for k in 0..ts.len() {
                let mk = |n: u64| {
                    let mut m = ts.clone();
                    match m[k] { Tok::Int(_, ref mut v) | Tok::Enum(_, ref mut v) => *v = n, _ => return None }
                    Some(emit(&m))
                };
                // the same document with a hole there was swept already
                match mk(0) { None => continue, Some(h) => if !done.insert((k, h)) { continue; } }
                let top = if long { tier.q(33_000, 70_000) } else { tier.q(64, 512) };
                for n in (0..=top).chain(bs.iter().copied()) { cx.run(self, Case::b("integers", &[u as u64], &mk(n).unwrap())); }
                if cx.past_deadline() { return; }
            }
        } }
    }
    fn exec(&self, c: &Case, _: &ChRef, st: &mut Stats) -> Res {
        let t = &catalog()[c.ints[0] as usize];
        st.state(hash(&(c.ints[0], &c.bytes)));
        judge(t, &c.bytes, &[STREAM_COPY, STREAM_BORROW], &[Lim::wide()], st)
    }
    fn show(&self, c: &Case) -> String { format!("{} from {}", catalog()[c.ints[0] as usize].name, hx(&c.bytes)) }
}

// ------------------------------------------------------------------ text
const EDGE: [u8; 28] = [0, 0x41, 0x7F, 0x80, 0x81, 0x8F, 0x90, 0x9F, 0xA0, 0xBF, 0xC0, 0xC1, 0xC2, 0xDF, 0xE0, 0xE1, 0xEC, 0xED, 0xEE, 0xEF, 0xF0,
    0xF1, 0xF3, 0xF4, 0xF5, 0xF8, 0xFE, 0xFF];

struct Text;
impl Suite for Text {
    fn name(&self) -> &'static str { "text" }
    fn bounds(&self, tier: Tier) -> String {
        format!("all strings of {} over {} boundary bytes of UTF-8 up to length {}{}, and after prefixes of 1, 126, 127, 255, 4093, 8190 letters up to length {}; decoded as String \
                 (slice, stream and reader), &str, Cow<str>, Box<&str>, Option<&str>, map keys and values, borrowed and copied",
                "bytes", EDGE.len(), tier.q(4, 5), tier.q(", all byte strings up to length 2", ", all byte strings up to length 3"), tier.q(2, 3))
    }
    fn units(&self, _: Tier) -> usize { 256 + EDGE.len() * EDGE.len() }
    fn unit(&self, u: usize, tier: Tier, cx: &mut Cx) {
        let n = EDGE.len();
        let run = |cx: &mut Cx, b: &[u8], p: u64| { cx.run(self, Case::b("text", &[p], b)); };
        if u < 256 {
            if u == 0 { run(cx, &[], 0); }
            run(cx, &[u as u8], 0);
            for x in 0..=255u8 {
                run(cx, &[u as u8, x], 0);
                if tier.thorough() { for y in 0..=255u8 { run(cx, &[u as u8, x, y], 0); } }
            }
            return;
        }
        let (a, b) = (EDGE[(u - 256) / n], EDGE[(u - 256) % n]);
        for p in [1, 126, 127, 255, 4093, 8190] {
            run(cx, &[a, b], p);
            if u % n == 0 { run(cx, &[b, a], p); run(cx, &[a], p); }
            if tier.thorough() { for &c in &EDGE { run(cx, &[a, b, c], p); } }
        }
        for &c in &EDGE {
            run(cx, &[a, b, c], 0);
            for &d in &EDGE {
                run(cx, &[a, b, c, d], 0);
                if tier.thorough() { for &e in &EDGE { run(cx, &[a, b, c, d, e], 0); } }
            }
            if cx.past_deadline() { return; }
        }
    }
    fn exec(&self, c: &Case, _: &ChRef, st: &mut Stats) -> Res {
        let mut txt = vec![b'x'; c.ints[0] as usize];
        txt.extend_from_slice(&c.bytes);
        st.state(hash(&(c.ints[0], &c.bytes)));
        let ok = utf8(&txt);
        ensure!(ok == std::str::from_utf8(&txt).is_ok(), "HARNESS", "utf8({}) is {}", hx(&txt), ok);
        st.out(if ok { "valid" } else { "invalid" });
        let mut b = vec![];
        t_blob(&mut b, 1, &txt);
        b.push(0);
        let want = Val::Str(txt.clone());
        let check = |who: &str, got: &DR, want: Val| -> Res {
            match got {
                Ok(v) => {
                    ensure!(ok, format!("utf8:{}", who), "{} accepts {} as text", who, hx(&txt));
                    ensure!(*v == want, format!("text:{}", who), "{} gives {} for {}", who, sv(v), hx(&txt));
                },
                Err(e) => ensure!(!ok, format!("text:{}", who), "{} rejects valid text {}: {}", who, hx(&txt), e),
            }
            Ok(())
        };
        let l = Lim::wide();
        let cf = conf(&l);
        let s = &catalog()[S_IDX.get_or_init(|| [find("String"), find("Cow<'static, str>"), find("BTreeMap<String, Vec<u16>>"), find("HashMap<String, String, H>")])[0]];
        let modes: &[usize] = if c.ints[0] == 0 && c.bytes.len() > 3 { &[SLICE_COPY, STREAM_BORROW] } else { &[SLICE_COPY, SLICE_BORROW, STREAM_COPY, STREAM_BORROW, READER] };
        for &m in modes { st.step(1); check("String", &decode(s, m, &b, &l).res, want.clone())?; }
        let cow = &catalog()[S_IDX.get().unwrap()[1]];
        st.step(1);
        check("Cow<str> copied", &decode(cow, SLICE_COPY, &b, &l).res, want.clone())?;
        for t in borrowing() {
            let w = match t.name { "&str" | "Cow<str>" | "Box<&str>" => want.clone(), "Option<&str>" => Val::List(vec![want.clone()]), _ => continue };
            st.step(1);
            check(t.name, &(t.borrow)(&b, &cf).0, w)?;
        }
        // inside maps
        let mut m = vec![];
        t_struct(&mut m, 1);
        t_blob(&mut m, 1, &txt);
        m.extend_from_slice(&[0, 0]);
        st.step(1);
        check("BTreeMap<String, Vec<u16>>", &decode(&catalog()[S_IDX.get().unwrap()[2]], SLICE_COPY, &m, &l).res, Val::Map(vec![(want.clone(), Val::List(vec![]))]))?;
        let mut m = vec![];
        t_struct(&mut m, 1);
        t_blob(&mut m, 1, b"k");
        t_blob(&mut m, 2, &txt);
        m.extend_from_slice(&[0, 0]);
        st.step(1);
        check("HashMap<String, String>", &decode(&catalog()[S_IDX.get().unwrap()[3]], SLICE_COPY, &m, &l).res, Val::Map(vec![(Val::Str(b"k".to_vec()), want.clone())]))?;
        st.trace();
        Ok(())
    }
    fn show(&self, c: &Case) -> String { format!("{} letters then {}", c.ints[0], hx(&c.bytes)) }
}
static S_IDX: std::sync::OnceLock<[usize; 4]> = std::sync::OnceLock::new();

// ------------------------------------------------------------------ lengths
pub struct Lens;
impl Suite for Lens {
    fn name(&self) -> &'static str { "lengths" }
    fn bounds(&self, tier: Tier) -> String {
        format!("every type of the catalog, documents of level 0 and 1: each blob replaced by blobs of length 0..={} and of its own length -2..+2, x2, /2, +256, +65536; each element of \
                 a fixed array or optional repeated 0..4 more times; copying, borrowing and unseekable reader", tier.q(40, 300))
    }
    fn units(&self, _: Tier) -> usize { catalog().len() }
    fn unit(&self, u: usize, tier: Tier, cx: &mut Cx) {
        let t = &catalog()[u];
        for l in 0..2 { for i in 0..(t.n)(l) {
            let b = encode(&t.sch, &(t.val)(l, i));
            if b.len() > 200_000 { continue; }
            let ts = parse(&b).0;
            let many = ts.len() > 40;
            for k in 0..ts.len() {
                if many && k > 3 && k + 3 < ts.len() { continue; }
                let e = subtree(&ts, k);
                if ts[k] != Tok::End && !many {
                    for r in 2..5 {
                        let mut m = ts[..k].to_vec();
                        for _ in 0..r { m.extend_from_slice(&ts[k..e]); }
                        m.extend_from_slice(&ts[e..]);
                        cx.run(self, Case::b("lengths", &[u as u64], &emit(&m)));
                    }
                }
                if let Tok::Blob(g, ref own) = ts[k] {
                    let n = own.len();
                    let mut lens: Vec<usize> = if n > 5000 { vec![0, 1] } else { (0..=tier.q(40, 300)).collect() };
                    lens.extend([n.saturating_sub(2), n.saturating_sub(1), n, n + 1, n + 2, n * 2, n / 2, n + 256]);
                    if !many { lens.push(n + 65536); }
                    lens.sort();
                    lens.dedup();
                    for n in lens {
                        let mut m = ts.clone();
                        m[k] = Tok::Blob(g, (0..n).map(|i| if i < own.len() { own[i] } else { b'a' + (i % 26) as u8 }).collect());
                        cx.run(self, Case::b("lengths", &[u as u64], &emit(&m)));
                    }
                }
            }
            if cx.past_deadline() { return; }
        } }
    }
    fn exec(&self, c: &Case, _: &ChRef, st: &mut Stats) -> Res {
        let t = &catalog()[c.ints[0] as usize];
        st.state(hash(&(c.ints[0], &c.bytes)));
        judge(t, &c.bytes, &[STREAM_COPY, STREAM_BORROW, ENV], &[Lim::wide()], st)
    }
    fn show(&self, c: &Case) -> String { format!("{} from {}", catalog()[c.ints[0] as usize].name, hx(&c.bytes)) }
}

// ------------------------------------------------------------------ durations
struct Dur;
impl Suite for Dur {
    fn name(&self) -> &'static str { "durations" }
    fn bounds(&self, _: Tier) -> String {
        "Duration, Option<Duration>: seconds x nanoseconds over all boundary integers, in both orders, in 6 modes".into()
    }
    fn units(&self, _: Tier) -> usize { bounds().len() }
    fn unit(&self, u: usize, tier: Tier, cx: &mut Cx) {
        let bs = bounds();
        let secs: Vec<u64> = if tier.thorough() { bs.clone() } else { vec![0, 1, 59, 1 << 32, u64::MAX - 1, u64::MAX, u64::MAX - 4, u64::MAX - 5, 1 << 63] };
        for s in secs { for o in 0..2 {
            for t in ["Duration", "Option<Duration>"] { cx.run(self, Case::new("durations", &[find(t) as u64, s, bs[u], o])); }
        } }
    }
    fn exec(&self, c: &Case, _: &ChRef, st: &mut Stats) -> Res {
        let t = &catalog()[c.ints[0] as usize];
        let mut b = vec![];
        let opt = t.name != "Duration";
        if opt { t_struct(&mut b, 1); }
        if c.ints[3] == 0 { t_int(&mut b, 1, c.ints[1]); t_int(&mut b, 2, c.ints[2]); } else { t_int(&mut b, 2, c.ints[2]); t_int(&mut b, 1, c.ints[1]); }
        b.push(0);
        if opt { b.push(0); }
        st.state(hash(&(c.ints[0], &b)));
        judge(t, &b, &[SLICE_COPY, SLICE_BORROW, STREAM_COPY, STREAM_BORROW, READER, ENV], &[Lim::wide()], st)
    }
    fn show(&self, c: &Case) -> String { format!("{:?}", c.ints) }
}

// ------------------------------------------------------------------ mutations
struct Mut;
impl Suite for Mut {
    fn name(&self) -> &'static str { "byte-mutations" }
    fn bounds(&self, tier: Tier) -> String {
        format!("every type of the catalog, documents of level 0..1 up to {} bytes: each byte replaced by each of the 256 values, each byte removed, each of the 256 bytes inserted, and \
                 {}; {{copy, borrow}} x {{ignore, reject unknown fields}}", tier.q(24, 64), tier.q("no pairs", "all pairs of bytes replaced by 12 boundary values each, documents up to 10 bytes"))
    }
    fn units(&self, _: Tier) -> usize { catalog().len() }
    fn unit(&self, u: usize, tier: Tier, cx: &mut Cx) {
        let t = &catalog()[u];
        let mut seen = std::collections::HashSet::new();
        for l in 0..2 { for i in 0..(t.n)(l) {
            let b = encode(&t.sch, &(t.val)(l, i));
            if b.len() > tier.q(24, 64) || !seen.insert(b.clone()) { continue; }
            let run = |cx: &mut Cx, m: &[u8]| { cx.run(self, Case::b("byte-mutations", &[u as u64], m)); };
            for k in 0..b.len() {
                for x in 0..=255u8 {
                    let mut m = b.clone(); m[k] = x;
                    run(cx, &m);
                    let mut m = b.clone(); m.insert(k, x);
                    run(cx, &m);
                }
                let mut m = b.clone(); m.remove(k);
                run(cx, &m);
            }
            if tier.thorough() && b.len() <= 10 {
                const E: [u8; 12] = [0, 1, 2, 0x40, 0x41, 0x7f, 0x80, 0x81, 0xc0, 0xc1, 0xc2, 0xff];
                for j in 0..b.len() { for k in 0..j { for x in E { for y in E {
                    let mut m = b.clone(); m[j] = x; m[k] = y;
                    run(cx, &m);
                } } } }
            }
            if cx.past_deadline() { return; }
        } }
    }
    fn exec(&self, c: &Case, _: &ChRef, st: &mut Stats) -> Res {
        let t = &catalog()[c.ints[0] as usize];
        st.state(hash(&(c.ints[0], &c.bytes)));
        judge(t, &c.bytes, &[STREAM_COPY, STREAM_BORROW], &[Lim::wide(), Lim::strict()], st)
    }
    fn show(&self, c: &Case) -> String { format!("{} from {}", catalog()[c.ints[0] as usize].name, hx(&c.bytes)) }
}

pub fn c21() -> Check {
    Check { id: "C21", level: "model_checking",
            rule: "Every enumerated document either denotes a value of the type's domain, which must be accepted and preserved, or does not and must be rejected; decoded values are also judged on their own.",
            suites: vec![Box::new(Ints), Box::new(Text), Box::new(Lens), Box::new(Dur), Box::new(Mut)] }
}
