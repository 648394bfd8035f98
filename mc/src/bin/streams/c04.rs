//! C04: integer encoding and conversion.

use fourleaf::stream::{Element, Stream, Value};
use fourleaf::wire as w;
use mc::ensure;
use mc::eng::*;
use mc::sut::*;
use mc::wire::*;
use std::io::Cursor;

/// Values around every boundary that matters: powers of two, 7-bit group
/// edges, and the type ranges.
pub fn edge_values() -> Vec<u64> {
    let mut v: Vec<u64> = vec![];
    for k in 0..64 {
        let p = 1u64 << k;
        for d in 0..=3u64 { v.push(p.wrapping_add(d)); v.push(p.wrapping_sub(d)); v.push(!p.wrapping_add(d)); }
        v.push(p | 0x5555_5555_5555_5555); v.push(p ^ 0xAAAA_AAAA_AAAA_AAAA);
    }
    // every combination of extreme 7-bit groups in a sliding window of three
    for k in 0..8 {
        for a in [0u64, 1, 0x3f, 0x40, 0x7e, 0x7f] { for b in [0u64, 1, 0x40, 0x7f] { for c in [0u64, 1, 0x7f] {
            v.push((a | b << 7 | c << 14) << (7 * k));
            v.push(!((a | b << 7 | c << 14) << (7 * k)));
        } } }
    }
    v.extend([0, 1, u64::MAX, u64::MAX - 1]);
    v.sort(); v.dedup();
    v
}

fn roundtrip(v: u64) -> Res {
    let mut o: Vec<u8> = Vec::with_capacity(10);
    let r = w::encode_u64(&mut o, v);
    ensure!(r.is_ok(), "encode-error", "encode_u64({}) failed", v);
    let mut e = vec![];
    put_int(&mut e, v);
    ensure!(o == e, "not-minimal", "encode_u64({}) = {}, expected {}", v, hex(&o), hex(&e));
    let mut c = Cursor::new(&o[..]);
    let d = w::decode_u64(&mut c);
    ensure!(d.as_ref().ok() == Some(&v) && c.position() == o.len() as u64, "decode-wrong", "decode(encode({})) = {:?}", v, d);
    let z = w::zigzag(v as i64);
    ensure!(z == zig(v as i64), "zigzag", "zigzag({}) = {}", v as i64, z);
    ensure!(w::unzigzag(z) == v as i64 && w::unzigzag(v) == unzig(v), "unzigzag", "unzigzag({})", v);
    Ok(())
}

fn fixed(v: u64) -> Res {
    let mut o = vec![];
    let _ = w::encode_fixed_u64(&mut o, v);
    let mut e = vec![];
    put_fixed(&mut e, v);
    ensure!(o == e && o.len() == 10, "fixed", "encode_fixed_u64({}) = {}", v, hex(&o));
    let d = w::decode_u64(&mut Cursor::new(&o[..]));
    ensure!(d.as_ref().ok() == Some(&v), "fixed-decode", "decode of fixed {} = {:?}", v, d);
    let mut o = vec![];
    let _ = w::encode_i64(&mut o, v as i64);
    let d = w::decode_i64(&mut Cursor::new(&o[..]));
    let mut e = vec![];
    put_int(&mut e, zig(v as i64));
    ensure!(d.as_ref().ok() == Some(&(v as i64)) && o == e, "i64", "i64 {} -> {} -> {:?}", v as i64, hex(&o), d);
    Ok(())
}

/// Decode `b` with the real decoder and compare with the reference.
fn decode(b: &[u8], st: &mut Stats) -> Res {
    let mut c = Cursor::new(b);
    let r = w::decode_u64(&mut c);
    match (get_int(b), r) {
        (Ok((v, n)), Ok(x)) => {
            ensure!(v == x, "decode-wrong", "{} decoded to {}, expected {}", hx(b), x, v);
            ensure!(c.position() == n as u64, "decode-length", "{} consumed {} bytes, expected {}", hx(b), c.position(), n);
            st.out("accepted"); st.sig = 1;
        },
        (Err(p), Err(e)) => {
            ensure!(agrees(&p, &ec(&e)), "decode-error", "{}: {:?}, expected {:?}", hx(b), e, p);
            st.out(match p { PErr::Eof => "eof", PErr::Overflow => "overflow", _ => "overwide" });
            st.sig = if p == PErr::Eof { 0 } else { 1 };
        },
        (Ok((v, _)), Err(e)) => return fail("decode-rejected", format!("{} is {}, but rejected: {:?}", hx(b), v, e)),
        (Err(p), Ok(x)) => return fail("decode-accepted", format!("{} is invalid ({:?}) but decoded to {}", hx(b), p, x)),
    }
    Ok(())
}

pub struct Values;
impl Suite for Values {
    fn name(&self) -> &'static str { "values" }
    fn bounds(&self, t: Tier) -> String {
        format!("every u64 below 2^{} and every value h*2^48+l for edge h,l; {} edge values (all powers of two +-3 and \
                 complements, all extreme 7-bit group windows)", t.q(26, 32), edge_values().len())
    }
    fn units(&self, t: Tier) -> usize { t.q(1 << 8, 1 << 12) }
    fn unit(&self, u: usize, t: Tier, cx: &mut Cx) {
        let blocks = t.q(1u64 << 10, 1 << 16) / self.units(t) as u64;
        for k in 0..blocks {
            if cx.past_deadline() || cx.stopped() { return; }
            cx.run(self, Case::new(self.name(), &[0, u as u64 * blocks + k]));
        }
        if u == 0 { for i in 0..edge_values().len() as u64 { cx.run(self, Case::new(self.name(), &[1, i])); } }
    }
    fn exec(&self, c: &Case, _: &ChRef, st: &mut Stats) -> Res {
        if c.ints[0] == 0 {
            for l in 0..65536u64 { roundtrip(c.ints[1] << 16 | l)?; }
            st.step(65536); st.state(hash(&c.ints));
            // the same low parts under every high part
            let h = c.ints[1];
            for hi in [1u64, 0x7f, 0x80, 0x7fff, 0x8000, 0xffff] { roundtrip(hi << 48 | h)?; fixed(hi << 48 | h)?; st.step(2); }
            fixed(h << 16)?; fixed(!(h << 16))?;
        } else {
            let ev = edge_values();
            let v = ev[c.ints[1] as usize];
            st.state(hash(&v));
            for d in [0u64, 1, 2, 3, 64, 127, 128, 129] {
                for x in [v.wrapping_add(d), v.wrapping_sub(d), v ^ d] { roundtrip(x)?; fixed(x)?; st.step(2); }
            }
        }
        st.trace(); st.out("roundtrip");
        Ok(())
    }
}

const DIG: [u8; 10] = [0x00, 0x01, 0x02, 0x7f, 0x40, 0x80, 0x81, 0xff, 0xc0, 0xfe];

pub struct Strings;
impl Suite for Strings {
    fn name(&self) -> &'static str { "encodings" }
    fn bounds(&self, t: Tier) -> String {
        format!("all digit strings of length <= {} over {} digits; every uniform prefix (80, ff, 81) of 0..=12 and 250..=260 digits \
                 followed by every string of length <= 2 over all 256 bytes{}; every edge value padded with 0..300 zero groups",
                t.q(6, 7), DIG.len(), t.q("", " and length <= 4 over the digits"))
    }
    fn units(&self, _: Tier) -> usize { DIG.len() + 3 * 24 + 64 }
    fn unit(&self, u: usize, t: Tier, cx: &mut Cx) {
        let nd = DIG.len();
        if u < nd {
            let mut stack = vec![vec![DIG[u]]];
            while let Some(b) = stack.pop() {
                if cx.stopped() || cx.past_deadline() { return; }
                let stop = cx.run(self, Case::b(self.name(), &[0], &b)) == 1;
                if stop || b.len() >= t.q(6, 7) { continue; }
                for d in DIG { let mut c = b.clone(); c.push(d); stack.push(c); }
            }
        } else if u < nd + 72 {
            let k = u - nd;
            let d = [0x80, 0xff, 0x81][k % 3];
            let n = k / 3;
            let n = if n <= 12 { n } else { 250 + (n - 13) };
            let pre = vec![d; n];
            if cx.run(self, Case::b(self.name(), &[0], &pre)) == 1 { return; }
            for a in 0..=255u8 {
                let mut b = pre.clone(); b.push(a);
                if cx.run(self, Case::b(self.name(), &[0], &b)) == 1 { continue; }
                for c in 0..=255u8 { let mut e = b.clone(); e.push(c); cx.run(self, Case::b(self.name(), &[0], &e)); }
            }
            let deep = t.q(3, 5);
            let mut stack: Vec<Vec<u8>> = vec![pre.clone()];
            while let Some(b) = stack.pop() {
                if cx.stopped() || cx.past_deadline() { return; }
                let stop = b.len() > n && cx.run(self, Case::b(self.name(), &[0], &b)) == 1;
                if stop || b.len() >= n + deep { continue; }
                for d in DIG { let mut c = b.clone(); c.push(d); stack.push(c); }
            }
        } else {
            // padded edge values
            let ev = edge_values();
            let part = u - nd - 72;
            for i in (part..ev.len()).step_by(64) {
                for pad in 0..300u64 {
                    if !t.thorough() && pad > 14 && pad < 240 && pad % 16 != 0 { continue; }
                    cx.run(self, Case::new(self.name(), &[1, ev[i], pad]));
                }
                if cx.past_deadline() { return; }
            }
        }
    }
    fn exec(&self, c: &Case, _: &ChRef, st: &mut Stats) -> Res {
        st.step(1); st.trace();
        if c.ints[0] == 0 {
            if c.bytes.len() < 6 { st.state(hash(&c.bytes)); }
            return decode(&c.bytes, st);
        }
        let mut b = vec![];
        put_int(&mut b, c.ints[1]);
        for _ in 0..c.ints[2] { let l = b.len(); b[l - 1] |= 0x80; b.push(0); }
        st.state(hash(&(b.len(), c.ints[1])));
        decode(&b, st)?;
        // ... and inside a field
        let mut d = vec![0x41];
        d.extend_from_slice(&b);
        d.push(0x42);
        let mut s = Stream::from_slice(&d[..]);
        let r = match s.next_element() { Ok(Element::Field(f)) => match f.value { Value::Integer(v) => Ok(v), _ => Err(None) },
                                         Ok(_) => Err(None), Err(e) => Err(Some(ec(&e))) };
        match get_int(&b) {
            Ok((v, n)) => ensure!(r == Ok(v) && s.pos() == 1 + n as u64, "field-int", "{} as a field gave {:?} at {}", hx(&d), r, s.pos()),
            Err(_) => ensure!(matches!(r, Err(Some(EC::Overwide)) | Err(Some(EC::Overflow))), "field-int", "{} as a field gave {:?}", hx(&d), r),
        }
        Ok(())
    }
}

pub struct Convert;
impl Suite for Convert {
    fn name(&self) -> &'static str { "conversions" }
    fn bounds(&self, t: Tier) -> String {
        format!("write_*/to_* of all 11 integer types, bool, null and enum discriminants: all values below 2^{} and all edge values", t.q(17, 20))
    }
    fn units(&self, t: Tier) -> usize { t.q(16, 64) + 16 }
    fn unit(&self, u: usize, t: Tier, cx: &mut Cx) {
        let n = t.q(1u64 << 17, 1 << 20);
        let us = t.q(16, 64);
        if u < us {
            for v in (u as u64..n).step_by(us) { cx.run(self, Case::new(self.name(), &[v])); if cx.stopped() { return; } }
        } else {
            let ev = edge_values();
            for i in (u - us..ev.len()).step_by(16) { for d in [0u64, 1, 2] {
                cx.run(self, Case::new(self.name(), &[ev[i].wrapping_add(d)]));
            } }
        }
    }
    fn exec(&self, c: &Case, _: &ChRef, st: &mut Stats) -> Res {
        let v = c.ints[0];
        st.state(v); st.step(30); st.trace();
        let val: Value<Cursor<Vec<u8>>> = Value::Integer(v);
        let s = unzig(v);
        macro_rules! un { ($m:ident, $t:ty) => {
            match val.$m() {
                Ok(x) => ensure!(v <= <$t>::MAX as u64 && x as u64 == v, stringify!($m), "{}: {} gave {}", stringify!($m), v, x),
                Err(e) => ensure!(v > <$t>::MAX as u64 && ec(&e) == EC::Range, stringify!($m), "{}: {} rejected: {:?}", stringify!($m), v, e),
            }
        } }
        macro_rules! si { ($m:ident, $t:ty) => {
            match val.$m() {
                Ok(x) => ensure!(s >= <$t>::MIN as i64 && s <= <$t>::MAX as i64 && x as i64 == s, stringify!($m), "{}: {} gave {}", stringify!($m), s, x),
                Err(e) => ensure!((s < <$t>::MIN as i64 || s > <$t>::MAX as i64) && ec(&e) == EC::Range, stringify!($m), "{}: {} rejected: {:?}", stringify!($m), s, e),
            }
        } }
        un!(to_u8, u8); un!(to_u16, u16); un!(to_u32, u32); un!(to_u64, u64); un!(to_usize, usize);
        si!(to_i8, i8); si!(to_i16, i16); si!(to_i32, i32); si!(to_i64, i64); si!(to_isize, isize);
        match val.to_bool() {
            Ok(b) => ensure!(v == b as u64, "to_bool", "to_bool({}) = {}", v, b),
            Err(e) => ensure!(v > 1 && ec(&e) == EC::Range, "to_bool", "to_bool({}): {:?}", v, e),
        }
        match val.to_null() {
            Ok(()) => ensure!(v == 0, "to_null", "to_null({}) accepted", v),
            Err(e) => ensure!(v != 0 && ec(&e) == EC::Range, "to_null", "to_null({}): {:?}", v, e),
        }
        // writers
        macro_rules! wr { ($m:ident, $t:ty, $e:expr) => { {
            let x = v as $t;
            let mut st = Stream::new(vec![]);
            let r = st.$m(7, x);
            let mut e = vec![];
            t_int(&mut e, 7, $e(x));
            let o = st.into_inner();
            ensure!(r.is_ok() && o == e, stringify!($m), "{}({}) wrote {}, expected {}", stringify!($m), x, hex(&o), hex(&e));
        } } }
        wr!(write_u8, u8, |x| x as u64); wr!(write_u16, u16, |x| x as u64); wr!(write_u32, u32, |x| x as u64);
        wr!(write_u64, u64, |x| x); wr!(write_usize, usize, |x| x as u64);
        wr!(write_i8, i8, |x| zig(x as i64)); wr!(write_i16, i16, |x| zig(x as i64)); wr!(write_i32, i32, |x| zig(x as i64));
        wr!(write_i64, i64, |x| zig(x)); wr!(write_isize, isize, |x| zig(x as i64));
        let mut o = Stream::new(vec![]);
        let _ = o.write_bool(9, v & 1 == 1);
        let _ = o.write_null(10);
        let _ = o.write_enum(63, v);
        let o = o.into_inner();
        let mut e = vec![];
        t_int(&mut e, 9, v & 1); t_int(&mut e, 10, 0); t_enum(&mut e, 63, v);
        ensure!(o == e, "write-misc", "bool/null/enum wrote {}, expected {}", hex(&o), hex(&e));
        let mut s = Stream::from_slice(&o[..]);
        let _ = s.next_element(); let _ = s.next_element();
        match s.next_element() {
            Ok(Element::Field(f)) => match f.value {
                Value::Enum(d, _) => ensure!(d == v, "enum-disc", "discriminant {} read as {}", v, d),
                _ => return fail("enum-disc", "not an enum"),
            },
            _ => return fail("enum-disc", "not a field"),
        }
        st.out("converted");
        Ok(())
    }
}

/// A value of each kind, followed by another field; every conversion, and the
/// use of what a conversion gave access to.
pub struct Kinds;
const CONV: u64 = 15;
fn kinds() -> Vec<(u64, Vec<u8>, Vec<u8>)> {
    // kind (0 integer, 1 blob, 2 struct, 3 enum), document up to the next field of the parent, content
    let mut r = vec![];
    let ints = [0u64, 1, 2, 127, 128, 255, 256, 65535, 65536, 1 << 31, (1 << 32) - 1, 1 << 32, 1 << 63, u64::MAX];
    for v in ints { let mut o = vec![]; t_int(&mut o, 3, v); r.push((0, o, v.to_le_bytes().to_vec())); }
    for b in [&b""[..], b"\x00", b"\x01", b"\x41\x05", &[0x7f; 9], &[0u8; 8], &[0x40; 16], &[b'q'; 300]] {
        let mut o = vec![]; t_blob(&mut o, 3, b); r.push((1, o, b.to_vec()));
    }
    let bodies: Vec<Vec<u8>> = vec![vec![], vec![0x41, 0], vec![0x41, 1], vec![0x41, 200, 1, 0x42, 7], vec![0x81, 1, 0], vec![0xC1, 0x41, 9, 0], vec![0x01, 9, 0]];
    for b in &bodies { let mut o = vec![]; t_struct(&mut o, 3); o.extend_from_slice(b); o.push(0); r.push((2, o, b.clone())); }
    for d in ints { for b in &bodies { let mut o = vec![]; t_enum(&mut o, 3, d); o.extend_from_slice(b); o.push(0);
        let mut c = d.to_le_bytes().to_vec(); c.extend_from_slice(b); r.push((3, o, c)); } }
    r
}
impl Suite for Kinds {
    fn name(&self) -> &'static str { "kinds" }
    fn bounds(&self, _: Tier) -> String {
        format!("{} values of the 4 kinds x all pairs of the {} conversions of a Value x 2 readers, followed by what comes after", kinds().len(), CONV)
    }
    fn units(&self, _: Tier) -> usize { kinds().len() }
    fn unit(&self, u: usize, _: Tier, cx: &mut Cx) {
        for a in 0..CONV { for b in 0..CONV { for f in 0..2 { cx.run(self, Case::new(self.name(), &[u as u64, a, b, f])); } } }
    }
    fn exec(&self, c: &Case, _: &ChRef, st: &mut Stats) -> Res {
        let k = &kinds()[c.ints[0] as usize];
        let mut d = k.1.clone();
        d.extend_from_slice(&[0x7F, 0x2A, 0x40]);
        st.state(hash(&(c.ints[0], c.ints[1]))); st.step(2); st.trace();
        let mut s = Stream::from_slice(&d[..]);
        let name = ["Integer", "Blob", "Struct", "Enum"];
        {
            let mut field = if c.ints[3] == 0 {
                match s.next_field() { Ok(Some(f)) => f, o => return fail("no-field", format!("{:?}", o.err())) }
            } else {
                match s.next_element() { Ok(Element::Field(f)) => f, o => return fail("no-field", format!("{:?}", o.err())) }
            };
            ensure!(field.tag == 3, "tag", "tag {}", field.tag);
            // The first conversion must not use anything up.
            for (n, &cv) in c.ints[1..3].iter().enumerate() {
                let want = match cv { 12 => 1, 13 => 2, 14 => 3, _ => 0 };
                macro_rules! int { ($m:ident, $conv:expr) => { {
                    match field.value.$m() {
                        Ok(x) => { let _ = &x; ensure!(k.0 == 0 && $conv(u64::from_le_bytes([k.2[0],k.2[1],k.2[2],k.2[3],k.2[4],k.2[5],k.2[6],k.2[7]])) == Some(x as i128),
                                           stringify!($m), "{} of {} gave {:?}", stringify!($m), hx(&k.1), x); None },
                        Err(e) => Some(ec(&e)),
                    }
                } } }
                let u = |v: u64| Some(v as i128);
                let i = |v: u64| Some(unzig(v) as i128);
                let err = match cv {
                    0 => int!(to_u8, u), 1 => int!(to_u16, u), 2 => int!(to_u32, u), 3 => int!(to_u64, u), 4 => int!(to_usize, u),
                    5 => int!(to_i8, i), 6 => int!(to_i16, i), 7 => int!(to_i32, i), 8 => int!(to_i64, i), 9 => int!(to_isize, i),
                    10 => match field.value.to_bool() {
                        Ok(b) => { ensure!(k.0 == 0 && k.2[0] == b as u8 && k.2[1..].iter().all(|&x| x == 0), "to_bool", "{} gave {}", hx(&k.1), b); None },
                        Err(e) => Some(ec(&e)) },
                    11 => match field.value.to_null() {
                        Ok(()) => { ensure!(k.0 == 0 && k.2.iter().all(|&x| x == 0), "to_null", "{} accepted", hx(&k.1)); None },
                        Err(e) => Some(ec(&e)) },
                    12 => match field.value.to_blob() {
                        Ok(b) => {
                            ensure!(k.0 == 1 && b.len() == k.2.len() as u64 && b.remaining() == b.len(), "to_blob", "{}: length {}", hx(&k.1), b.len());
                            if n == 1 {
                                let mut v = vec![];
                                let r = std::io::Read::read_to_end(b, &mut v);
                                ensure!(r.is_ok() && v == k.2, "to_blob", "{}: content {}", hx(&k.1), hx(&v));
                            }
                            None
                        },
                        Err(e) => Some(ec(&e)) },
                    13 => match field.value.to_struct() {
                        Ok(sub) => { ensure!(k.0 == 2, "to_struct", "{} accepted", hx(&k.1)); if n == 1 { inside(sub, &k.2)?; } None },
                        Err(e) => Some(ec(&e)) },
                    _ => match field.value.to_enum() {
                        Ok((d, sub)) => {
                            ensure!(k.0 == 3 && d.to_le_bytes()[..] == k.2[..8], "to_enum", "{}: discriminant {}", hx(&k.1), d);
                            if n == 1 { inside(sub, &k.2[8..])?; } None
                        },
                        Err(e) => Some(ec(&e)) },
                };
                match err {
                    None => st.out("converted"),
                    Some(e) => {
                        if k.0 == want && want == 0 {
                            ensure!(e == EC::Range, "kind-error", "conversion {} of {}: {:?}", cv, hx(&k.1), e);
                        } else {
                            ensure!(k.0 != want && e == EC::Type(name[want as usize], name[k.0 as usize]), "kind-error",
                                    "conversion {} of {}: {:?}", cv, hx(&k.1), e);
                        }
                        st.out("refused");
                    }
                }
            }
            let r = field.skip();
            ensure!(r.is_ok(), "skip", "skip after conversions of {}: {:?}", hx(&k.1), r);
        }
        match s.next_field() {
            Ok(Some(f)) => ensure!(f.tag == 63 && f.pos == k.1.len() as u64 && f.value.to_u64().ok() == Some(42), "after", "after {}: tag {} at {}", hx(&k.1), f.tag, f.pos),
            o => return fail("after", format!("after {}: {:?}", hx(&k.1), o.err().map(|e| ec(&e)))),
        }
        Ok(())
    }
}
/// The stream handed out reads the first field of the content.
fn inside(sub: &mut Stream<fourleaf::io::TransparentCursor<&[u8]>>, content: &[u8]) -> Res {
    let f = match sub.next_field() { Ok(f) => f, Err(e) => return fail("inside", format!("{:?}", ec(&e))) };
    match f {
        None => ensure!(content.is_empty(), "inside", "nothing in {}", hx(content)),
        Some(f) => ensure!(!content.is_empty() && f.tag == content[0] % 64, "inside", "tag {} in {}", f.tag, hx(content)),
    }
    Ok(())
}

pub struct Descs;
impl Suite for Descs {
    fn name(&self) -> &'static str { "descriptors" }
    fn bounds(&self, _: Tier) -> String { "all 256 descriptors, parsed, rebuilt, written and read; all type x tag pairs".into() }
    fn units(&self, _: Tier) -> usize { 1 }
    fn unit(&self, _: usize, _: Tier, cx: &mut Cx) { for b in 0..256 { cx.run(self, Case::new(self.name(), &[b])); } }
    fn exec(&self, c: &Case, _: &ChRef, st: &mut Stats) -> Res {
        let b = c.ints[0] as u8;
        st.state(b as u64); st.step(4); st.trace();
        let p = w::Descriptor(b).parse();
        let want = if b % 64 == 0 {
            w::ParsedDescriptor::Special(match b / 64 { 0 => w::SpecialType::EndOfStruct, 1 => w::SpecialType::EndOfDoc,
                                                        2 => w::SpecialType::Exception, _ => w::SpecialType::Padding })
        } else {
            w::ParsedDescriptor::Pair(match b / 64 { 0 => w::DescriptorType::Enum, 1 => w::DescriptorType::Integer,
                                                     2 => w::DescriptorType::Blob, _ => w::DescriptorType::Struct }, b % 64)
        };
        ensure!(p == want, "descriptor", "{:02x} parsed as {:?}", b, p);
        let q: w::Descriptor = want.into();
        ensure!(q.0 == b, "descriptor", "{:?} became {:02x}", want, q.0);
        let mut o = vec![];
        let r = w::encode_descriptor(&mut o, q);
        ensure!(r.is_ok() && o == [b], "descriptor", "{:02x} written as {}", b, hex(&o));
        let two = [b, 0xff];
        let mut cur = Cursor::new(&two[..]);
        match w::decode_descriptor(&mut cur) {
            Ok(d) => ensure!(d.0 == b && cur.position() == 1, "descriptor", "{:02x} read as {:02x}", b, d.0),
            Err(e) => return fail("descriptor", format!("{:02x}: {:?}", b, e)),
        }
        ensure!(w::decode_descriptor(&mut Cursor::new(&[][..])).is_err(), "descriptor", "a descriptor read from nothing");
        st.out("agreed");
        Ok(())
    }
}

pub fn check() -> Check {
    Check { id: "C04", level: "model_checking",
        rule: "Every integer value and every integer encoding within the bounds is run through the real coder and compared with a reference coder.",
        suites: vec![Box::new(Values), Box::new(Strings), Box::new(Convert)] }
}
