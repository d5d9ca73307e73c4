//! C07: what the application puts into a value, a performative or a message is what it reads back.
use std::hash::{BuildHasher, Hash, Hasher};

use chrono::{DateTime, TimeZone, Utc};
use ntex_amqp_codec::protocol::*;
use ntex_amqp_codec::types::{Array, Constructor, Descriptor, List, Str, Symbol, Variant, VecSymbolMap};
use ntex_amqp_codec::{AmqpFrame, Decode, DecodeFormatted, Encode, Message, MessageBody};
use ntex_bytes::{ByteString, Bytes, BytesMut};
use uuid::Uuid;

use crate::Cx;
use crate::conv::{self, HashMap};
use crate::rng::Rng;
use crate::schema::*;
use crate::wire::V;

pub const RULE: &str = "generated values compared with rebuilt, re-ordered and altered copies (equality, hash, lookup); typed views of every value; typed arrays and described compounds taken apart again; every accessor, mutable accessor and builder method of every performative and section against the public fields; random sequences of message mutations against an independent model with clones kept aside. Non-trivial: the value or message encodes to more than 3 bytes; distinct by encoding.";

const P: &str = "C07";

pub fn c07(cx: &mut Cx) {
    let n = cx.n(400_000, 8_000_000);
    cx.cases("c07.value", n, |cx, r, _| values(cx, r));
    cx.cases("c07.text", n / 4, |cx, r, _| texts(cx, r));
    cx.cases("c07.array", n / 4, |cx, r, _| arrays(cx, r));
    cx.cases("c07.container", n / 4, |cx, r, _| containers(cx, r));
    cx.cases("c07.access", n / 2, |cx, r, _| access(cx, r));
    cx.cases("c07.message", n, |cx, r, _| messages(cx, r));
}

fn enc<T: Encode>(x: &T) -> Vec<u8> {
    let mut b = BytesMut::new();
    x.encode(&mut b);
    b.to_vec()
}
fn hash_of<T: Hash + ?Sized>(x: &T) -> u64 {
    let mut h = std::collections::hash_map::DefaultHasher::new();
    x.hash(&mut h);
    h.finish()
}
fn bad(cx: &mut Cx, k: &str, m: impl Into<String>) {
    cx.r.violation(P, k, m.into());
}

// ---------- values
fn any(v: &V, f: &dyn Fn(&V) -> bool) -> bool {
    f(v) || match v {
        V::List(l) | V::Array(l) => l.iter().any(|x| any(x, f)),
        V::Map(m) => m.iter().any(|(k, x)| any(k, f) || any(x, f)),
        V::Desc(d, x) => any(d, f) || any(x, f),
        _ => false,
    }
}
/// raw bytes decide equality there (arrays keep their element constructor, described compounds
/// their encoding) and NaN or -0.0 their own rules
fn opaque(v: &V) -> bool {
    any(v, &|x| matches!(x, V::Array(_) | V::Desc(..) | V::Float(_) | V::Double(_)))
}
fn shuffled(r: &mut Rng, v: &V) -> V {
    match v {
        V::List(l) => V::List(l.iter().map(|x| shuffled(r, x)).collect()),
        V::Map(m) => {
            let mut o: Vec<(V, V)> = m.iter().map(|(k, x)| (shuffled(r, k), shuffled(r, x))).collect();
            for i in (1..o.len()).rev() {
                o.swap(i, r.below(i + 1));
            }
            V::Map(o)
        }
        x => x.clone(),
    }
}
/// one leaf changed
fn altered(r: &mut Rng, v: &V) -> V {
    match v {
        V::List(l) if !l.is_empty() => {
            let mut l = l.clone();
            let i = r.below(l.len());
            match r.below(4) {
                0 => {
                    l.remove(i);
                }
                1 => l.insert(i, V::Null),
                _ => l[i] = altered(r, &l[i]),
            }
            V::List(l)
        }
        V::Map(m) if !m.is_empty() => {
            let mut m = m.clone();
            let i = r.below(m.len());
            match r.below(3) {
                0 => {
                    m.remove(i);
                }
                _ => m[i].1 = altered(r, &m[i].1),
            }
            V::Map(m)
        }
        // the same number under another type
        V::Ubyte(n) if r.chance(50) => V::Ushort(u16::from(*n)),
        V::Ushort(n) if r.chance(50) => V::Uint(u32::from(*n)),
        V::Uint(n) if r.chance(50) => V::Ulong(u64::from(*n)),
        V::Ulong(n) if r.chance(50) => V::Long(*n as i64),
        V::Byte(n) if r.chance(50) => V::Short(i16::from(*n)),
        V::Short(n) if r.chance(50) => V::Int(i32::from(*n)),
        V::Int(n) if r.chance(50) => V::Long(i64::from(*n)),
        V::Str(s) if r.chance(50) => V::Sym(s.clone()),
        V::Sym(s) if r.chance(50) => V::Str(s.clone()),
        V::Str(s) => V::Str(format!("{s}x")),
        V::Sym(s) => V::Sym(format!("{s}x")),
        V::Bin(b) if r.chance(50) => {
            let mut b = b.clone();
            b.push(0);
            V::Bin(b)
        }
        V::Ts(t) => V::Ts(if *t > 0 { t - 1 } else { t + 1 }),
        V::Bool(b) => V::Bool(!b),
        V::Null => V::Bool(false),
        _ => gany(r, 0),
    }
}

fn values(cx: &mut Cx, r: &mut Rng) {
    let d = r.below(4);
    let v = gany(r, d);
    let Some(a) = conv::variant(&v) else { return };
    let b = enc(&a);
    if b.len() > 3 {
        cx.r.nontrivial(&b);
    }
    views(cx, &v, &a);
    if a != a.clone() || hash_of(&a) != hash_of(&a.clone()) {
        bad(cx, "clone-differs", format!("{a:?}"));
    }
    // rebuilt from its encoding, so that nothing is shared
    if let Ok(c) = Variant::decode(&mut Bytes::copy_from_slice(&b)) {
        same(cx, "decoded", &a, &c);
    }
    if opaque(&v) {
        cx.r.count("opaque values", 1);
        return;
    }
    let s = shuffled(r, &v);
    let want = v.clone().canon();
    if let Some(c) = conv::variant(&s) {
        if conv::vto(&c).map(V::canon).as_ref() == Ok(&want) && conv::vto(&a).map(V::canon).as_ref() == Ok(&want) {
            same(cx, "rebuilt", &a, &c);
            cx.r.count("equal pairs", 1);
        }
    }
    let w = altered(r, &v);
    if opaque(&w) {
        return;
    }
    if let Some(c) = conv::variant(&w) {
        let (x, y) = (conv::vto(&a).map(V::canon), conv::vto(&c).map(V::canon));
        if x == y {
            same(cx, "altered", &a, &c);
        } else {
            cx.r.count("unequal pairs", 1);
            if a == c || c == a {
                bad(cx, "unequal-compare-equal", format!("{a:?}\n{c:?}"));
            }
        }
    }
    // as keys
    let n = r.range(1, 6);
    let mut keys: Vec<V> = vec![v];
    for _ in 0..n {
        let d = r.below(3);
        let k = match r.below(3) {
            0 => altered(r, keys.last().unwrap()),
            _ => gany(r, d),
        };
        if !opaque(&k) && conv::variant(&k).is_some() {
            keys.push(k);
        }
    }
    let mut uniq: Vec<V> = vec![];
    for k in keys {
        let k = k.canon();
        if !uniq.contains(&k) {
            uniq.push(k);
        }
    }
    let mut m = HashMap::default();
    for (i, k) in uniq.iter().enumerate() {
        m.insert(conv::variant(k).unwrap(), Variant::Uint(i as u32));
    }
    if m.len() != uniq.len() {
        return bad(cx, "keys-merged", format!("{} distinct keys became {}: {uniq:?}", uniq.len(), m.len()));
    }
    let map = Variant::Map(ntex_amqp_codec::types::VariantMap::new(m));
    let back = match Variant::decode(&mut Bytes::from(enc(&map))) {
        Ok(x) => x,
        Err(e) => return bad(cx, "map-refused", format!("{e:?} {map:?}")),
    };
    same(cx, "map decoded", &map, &back);
    for x in [&map, &back] {
        let Variant::Map(m) = x else { return bad(cx, "map-type", format!("{x:?}")) };
        for (i, k) in uniq.iter().enumerate() {
            cx.r.count("keys looked up", 1);
            let s = shuffled(r, k);
            if m.map.get(&conv::variant(&s).unwrap()) != Some(&Variant::Uint(i as u32)) {
                bad(cx, "key-lost", format!("key {i} {k:?} of {:?}", m.map));
            }
        }
    }
}

fn same(cx: &mut Cx, what: &str, a: &Variant, b: &Variant) {
    if a != b || b != a {
        // NaN payloads and the element form of a nested value are not the reader's business
        return bad(cx, &format!("equal-compare-unequal/{what}"), format!("{a:?}\n{b:?}"));
    }
    cx.r.count("hashes compared", 1);
    if hash_of(a) != hash_of(b) {
        bad(cx, &format!("equal-hash-differently/{what}"), format!("{a:?}\n{b:?}"));
    }
}

fn views(cx: &mut Cx, v: &V, a: &Variant) {
    let long = match v {
        V::Ubyte(n) => Some(i64::from(*n)),
        V::Ushort(n) => Some(i64::from(*n)),
        V::Uint(n) => Some(i64::from(*n)),
        V::Byte(n) => Some(i64::from(*n)),
        V::Short(n) => Some(i64::from(*n)),
        V::Int(n) => Some(i64::from(*n)),
        V::Long(n) => Some(*n),
        _ => None,
    };
    let ulong = match v {
        V::Ubyte(n) => Some(u64::from(*n)),
        V::Ushort(n) => Some(u64::from(*n)),
        V::Uint(n) => Some(u64::from(*n)),
        V::Ulong(n) => Some(*n),
        _ => None,
    };
    let text = match v {
        V::Str(s) | V::Sym(s) => Some(s.as_str()),
        _ => None,
    };
    cx.r.count("typed views compared", 1);
    if a.as_long() != long {
        bad(cx, "as_long", format!("{a:?} read as {:?}", a.as_long()));
    }
    if a.as_ulong() != ulong {
        bad(cx, "as_ulong", format!("{a:?} read as {:?}", a.as_ulong()));
    }
    if a.as_str() != text || a.to_bytes_str().as_deref().map(|s| s.to_string()) != text.map(str::to_string) {
        bad(cx, "as_str", format!("{a:?} read as {:?} {:?}", a.as_str(), a.to_bytes_str()));
    }
    if let Some(t) = text {
        if a != t || *a == *format!("{t}x").as_str() || (!t.is_empty() && *a == *"") {
            bad(cx, "text-compare", format!("{a:?} {t:?}"));
        }
    } else if *a == *"" || *a == *"1" {
        bad(cx, "text-compare", format!("{a:?}"));
    }
}

// ---------- texts
fn texts(cx: &mut Cx, r: &mut Rng) {
    let s = gstr(r);
    let t = if r.chance(50) { gstr(r) } else { format!("{s}{}", r.below(3)) };
    cx.r.nontrivial(s.as_bytes());
    let forms = [
        ("from_str", Str::from_str(&s)),
        ("String", Str::from(s.clone())),
        ("ByteString", Str::from(ByteString::from(s.clone()))),
        ("&ByteString", Str::from(&ByteString::from(s.as_str()))),
    ];
    let h = std::collections::hash_map::RandomState::new();
    for (n, x) in &forms {
        cx.r.count("texts compared", 1);
        if x.as_str() != s || x.as_bytes() != s.as_bytes() || x.len() != s.len() || x.to_bytes_str() != ByteString::from(s.as_str()) || x != s.as_str() {
            bad(cx, &format!("str/{n}"), format!("{s:?} reads {x:?}"));
        }
        if s != t && (x == t.as_str() || *x == Str::from_str(&t)) {
            bad(cx, &format!("str-equal/{n}"), format!("{s:?} {t:?}"));
        }
        if h.hash_one(x) != h.hash_one(s.as_str()) {
            bad(cx, &format!("str-hash/{n}"), format!("{s:?} cannot be found by &str"));
        }
    }
    let sy = [
        ("from_slice", Symbol::from_slice(&s)),
        ("String", Symbol::from(s.clone())),
        ("ByteString", Symbol::from(ByteString::from(s.clone()))),
        ("Str", Symbol::from(Str::from_str(&s))),
    ];
    for (n, x) in &sy {
        cx.r.count("texts compared", 1);
        if x.as_str() != s || x.as_bytes() != s.as_bytes() || x.len() != s.len() || x.to_bytes_str() != ByteString::from(s.as_str()) || x != s.as_str() {
            bad(cx, &format!("symbol/{n}"), format!("{s:?} reads {x:?}"));
        }
        if s != t && (x == t.as_str() || *x == Symbol::from_slice(&t)) {
            bad(cx, &format!("symbol-equal/{n}"), format!("{s:?} {t:?}"));
        }
        if h.hash_one(x) != h.hash_one(s.as_str()) {
            bad(cx, &format!("symbol-hash/{n}"), format!("{s:?} cannot be found by &str"));
        }
    }
    if Variant::from(s.clone()) != Variant::from(ByteString::from(s.clone())) || Variant::from(s.clone()).as_str() != Some(s.as_str()) {
        bad(cx, "variant-from", s.clone());
    }
    // property maps, by text
    let mut f: Fields = Fields::default();
    f.insert(Symbol::from(s.clone()), Variant::Int(1));
    f.insert(Symbol::from(t.clone()), Variant::Int(2));
    if f.get(t.as_str()) != Some(&Variant::Int(2)) || (s != t && f.get(s.as_str()) != Some(&Variant::Int(1))) {
        bad(cx, "fields-lookup", format!("{s:?} {t:?} {f:?}"));
    }
    let n = f.len();
    let v = VecSymbolMap::from(f);
    if v.len() != n || !v.iter().any(|(k, x)| k == t.as_str() && *x == Variant::Int(2)) {
        bad(cx, "fields-to-list", format!("{s:?} {t:?} {v:?}"));
    }
    let mut f: HashMap<Str, Variant> = HashMap::default();
    f.insert(Str::from(s.clone()), Variant::Int(1));
    f.insert(Str::from(t.clone()), Variant::Int(2));
    if f.get(t.as_str()) != Some(&Variant::Int(2)) || (s != t && f.get(s.as_str()) != Some(&Variant::Int(1))) {
        bad(cx, "strings-lookup", format!("{s:?} {t:?} {f:?}"));
    }
    // plain credentials
    let (a, b, c) = (gsym(r), gsym(r), gsym(r));
    let p = SaslInit::prepare_response(&a, &b, &c);
    if p.split(|x| *x == 0).collect::<Vec<_>>() != [a.as_bytes(), b.as_bytes(), c.as_bytes()] {
        bad(cx, "plain-response", format!("{a:?} {b:?} {c:?} -> {p:?}"));
    }
}

// ---------- arrays and described compounds
fn arr<T>(cx: &mut Cx, code: u8, xs: Vec<T>, k: &str, a: Array, a2: Array)
where
    T: DecodeFormatted + PartialEq + std::fmt::Debug,
{
    if a != a2 {
        bad(cx, &format!("array-forms/{k}"), format!("{a:?}"));
    }
    if !matches!(a.element_constructor(), Constructor::FormatCode(c) if *c == code) {
        bad(cx, &format!("array-constructor/{k}"), format!("{:?}", a.element_constructor()));
    }
    let b = enc(&a);
    if xs.len() > 1 {
        cx.r.nontrivial(&b);
    }
    cx.r.count(&format!("arrays/{k}"), 1);
    let back = match Variant::decode(&mut Bytes::from(b)) {
        Ok(Variant::Array(x)) => x,
        x => return bad(cx, &format!("array-refused/{k}"), format!("{x:?} {a:?}")),
    };
    for (w, x) in [("built", &a), ("decoded", &back)] {
        match x.decode::<T>() {
            Ok(ys) if ys == xs => {}
            y => bad(cx, &format!("array-{w}/{k}"), format!("put {xs:?} got {y:?}")),
        }
    }
    if a != back || hash_of(&a) != hash_of(&back) {
        bad(cx, &format!("array-equal/{k}"), format!("{a:?} {back:?}"));
    }
}

fn arrays(cx: &mut Cx, r: &mut Rng) {
    let n = *r.pick(&[0usize, 1, 2, 3, 31, 62, 63, 64, 125, 126, 127, 128, 251, 252, 253, 254, 255, 256, 300]);
    macro_rules! a {
        ($c:expr, $k:expr, $e:expr) => {{
            a!($c, $k, $e, n)
        }};
        ($c:expr, $k:expr, $e:expr, $n:expr) => {{
            let xs = (0..$n).map(|_| $e).collect::<Vec<_>>();
            let (a, a2) = (Array::new(xs.iter()), Array::from(xs.clone()));
            arr(cx, $c, xs, $k, a, a2)
        }};
    }
    match r.below(19) {
        0 => a!(0x56, "boolean", r.chance(50)),
        1 => a!(0x50, "ubyte", r.edge(8) as u8),
        2 => a!(0x60, "ushort", r.edge(16) as u16),
        3 => a!(0x70, "uint", r.edge(32) as u32),
        4 => a!(0x80, "ulong", r.edge(64)),
        5 => a!(0x51, "byte", r.edge(8) as u8 as i8),
        6 => a!(0x61, "short", r.edge(16) as u16 as i16),
        7 => a!(0x71, "int", r.edge(32) as u32 as i32),
        8 => a!(0x81, "long", r.edge(64) as i64),
        9 => a!(0x72, "float", r.below(100_000) as f32 / 7.0),
        10 => a!(0x82, "double", r.below(100_000) as f64 / 7.0),
        11 => a!(0x73, "char", char::from_u32(r.below(0xd800) as u32).unwrap()),
        12 => a!(0x83, "timestamp", Utc.timestamp_millis_opt(gts(r)).single().unwrap_or(DateTime::<Utc>::UNIX_EPOCH)),
        13 => a!(0x98, "uuid", Uuid::from_slice(&r.bytes(16)).unwrap()),
        14 => a!(0xb0, "binary", conv::bin(&gbin(r)), n.min(40)),
        15 => a!(0xb1, "string", conv::bs(&gstr(r)), n.min(40)),
        16 => a!(0xb3, "symbol", Symbol::from(gsym(r)), n.min(40)),
        17 => {
            let v = loop {
                let v = match r.below(2) {
                    0 => V::List((0..r.below(8)).map(|_| gany(r, 1)).collect()),
                    _ => gmap(r, 1, false),
                };
                if conv::representable(&v) && conv::variant(&v).is_some() {
                    break v;
                }
            };
            compound(cx, r, &v);
        }
        _ => {
            let xs: Vec<u32> = (0..n).map(|_| r.u32()).collect();
            let d = descriptor(r);
            let c = ntex_amqp_codec::types::DescribedCompound::create(d.clone(), xs.clone());
            if c.descriptor() != &d || c.decode::<Vec<u32>>().ok() != Some(xs.clone()) {
                bad(cx, "compound/array", format!("{xs:?} {c:?}"));
            }
        }
    }
}
// ---------- generic containers
fn cont<T>(cx: &mut Cx, k: &str, x: &T, want: V)
where
    T: Encode + Decode + PartialEq + std::fmt::Debug,
{
    let b = enc(x);
    if b.len() > 8 {
        cx.r.nontrivial(&b);
    }
    cx.r.count(&format!("containers/{k}"), 1);
    if x.encoded_size() != b.len() {
        bad(cx, &format!("container-size/{k}"), format!("{} announced, {} written: {x:?}", x.encoded_size(), b.len()));
    }
    match crate::wire::decode_one(&b) {
        Ok(v) if v.clone().canon() == want.clone().canon() => {}
        v => bad(cx, &format!("container-wire/{k}"), format!("{x:?} is {v:?} on the wire, expected {want:?}")),
    }
    let mut i = Bytes::from(b);
    match T::decode(&mut i) {
        Ok(y) if y == *x && i.is_empty() => {}
        y => bad(cx, &format!("container-decoded/{k}"), format!("put {x:?} got {y:?}, {} bytes left", i.len())),
    }
}
/// A composite type of the application's own
#[derive(Clone, Debug, PartialEq)]
struct Item(Variant);
const ITEM: &str = "app:item:list";
impl Encode for Item {
    fn encoded_size(&self) -> usize {
        self.0.encoded_size()
    }
    fn encode(&self, buf: &mut BytesMut) {
        self.0.encode(buf);
    }
}
impl DecodeFormatted for Item {
    fn decode_with_format(input: &mut Bytes, fmt: u8) -> Result<Self, ntex_amqp_codec::AmqpParseError> {
        Variant::decode_with_format(input, fmt).map(Item)
    }
}
impl ntex_amqp_codec::Composite for Item {
    fn descriptor() -> Descriptor {
        Descriptor::Symbol(Symbol::from_static(ITEM))
    }
}
fn containers(cx: &mut Cx, r: &mut Rng) {
    use crate::wire::{st, sym};
    use ntex_amqp_codec::types::{ListDescribed, Multiple};
    let n = if r.chance(60) { r.below(6) } else { *r.pick(&[1usize, 2, 7, 15, 16, 30, 62, 63, 64, 126, 127, 128, 254, 255, 256, 300]) };
    let arr = |mut v: Vec<V>, multi: bool| if multi && v.len() == 1 { v.remove(0) } else { V::Array(v) };
    match r.below(9) {
        0 => {
            let m: HashMap<u32, ByteString> = (0..n).map(|_| (r.edge(32) as u32, conv::bs(&gstr(r)))).collect();
            let want = V::Map(m.iter().map(|(k, v)| (V::Uint(*k), st(v))).collect());
            cont(cx, "map-uint-string", &m, want);
        }
        1 => {
            let m: HashMap<Symbol, u64> = (0..n).map(|_| (Symbol::from(gsym(r)), r.edge(64))).collect();
            let want = V::Map(m.iter().map(|(k, v)| (sym(k.as_str()), V::Ulong(*v))).collect());
            cont(cx, "map-symbol-ulong", &m, want);
        }
        2 => {
            let m: HashMap<u8, bool> = (0..n).map(|_| (r.edge(8) as u8, r.chance(50))).collect();
            let want = V::Map(m.iter().map(|(k, v)| (V::Ubyte(*k), V::Bool(*v))).collect());
            cont(cx, "map-ubyte-boolean", &m, want);
        }
        3 => {
            let x: Vec<u32> = (0..n).map(|_| r.edge(32) as u32).collect();
            let want: Vec<V> = x.iter().map(|x| V::Uint(*x)).collect();
            cont(cx, "vec-uint", &x, arr(want.clone(), false));
            cont(cx, "multiple-uint", &Multiple(x), arr(want, true));
        }
        4 => {
            let x: Vec<Symbol> = (0..n).map(|_| Symbol::from(gsym(r))).collect();
            let want: Vec<V> = x.iter().map(|x| sym(x.as_str())).collect();
            cont(cx, "vec-symbol", &x, arr(want.clone(), false));
            cont(cx, "multiple-symbol", &Multiple(x), arr(want, true));
        }
        5 => {
            let x: Vec<ByteString> = (0..n.min(60)).map(|_| conv::bs(&gstr(r))).collect();
            let want: Vec<V> = x.iter().map(|x| st(x)).collect();
            cont(cx, "vec-string", &x, arr(want.clone(), false));
            cont(cx, "multiple-string", &Multiple(x), arr(want, true));
        }
        6 => {
            let x: Vec<i64> = (0..n).map(|_| r.edge(64) as i64).collect();
            let want: Vec<V> = x.iter().map(|x| V::Long(*x)).collect();
            cont(cx, "vec-long", &x, arr(want, false));
        }
        7 => {
            // an array of maps
            let n = n.min(20);
            let x: Vec<std::collections::HashMap<u16, ByteString>> =
                (0..n).map(|_| (0..r.below(6)).map(|_| (r.edge(16) as u16, conv::bs(&gstr(r)))).collect()).collect();
            let want = V::Array(x.iter().map(|m| V::Map(m.iter().map(|(k, v)| (V::Ushort(*k), st(v))).collect())).collect());
            let a = Array::new(x.iter());
            let b = enc(&a);
            cx.r.count("containers/array-map", 1);
            if a.encoded_size() != b.len() {
                bad(cx, "container-size/array-map", format!("{} announced, {} written: {x:?}", a.encoded_size(), b.len()));
            }
            match crate::wire::decode_one(&b) {
                Ok(v) if v.clone().canon() == want.clone().canon() => {}
                v => bad(cx, "container-wire/array-map", format!("{x:?} is {v:?} on the wire")),
            }
            match a.decode::<std::collections::HashMap<u16, ByteString>>() {
                Ok(y) if y == x => {}
                y => bad(cx, "container-decoded/array-map", format!("put {x:?} got {y:?}")),
            }
        }
        _ => {
            let n = n.min(40);
            let x = ListDescribed::new((0..n).map(|_| small(r)).collect::<Vec<_>>());
            let want = V::List(x.iter().map(|i| V::Desc(Box::new(sym(ITEM)), Box::new(item_v(&i.0)))).collect());
            if x.len() != n || x.is_empty() != (n == 0) {
                bad(cx, "container-length/list-described", format!("{n} items, len {}", x.len()));
            }
            cont(cx, "list-described", &x, want);
        }
    }
}
/// a composite type is a list
fn small(r: &mut Rng) -> Item {
    let n = r.below(5);
    Item(Variant::List(List(
        (0..n)
            .map(|_| match r.below(4) {
                0 => Variant::Uint(r.edge(32) as u32),
                1 => Variant::Null,
                2 => Variant::String(Str::from(gstr(r))),
                _ => Variant::Binary(conv::bin(&gbin(r))),
            })
            .collect(),
    )))
}
fn item_v(v: &Variant) -> V {
    match v {
        Variant::Uint(n) => V::Uint(*n),
        Variant::String(s) => crate::wire::st(s.as_str()),
        Variant::Binary(b) => V::Bin(b.to_vec()),
        Variant::List(l) => V::List(l.iter().map(item_v).collect()),
        _ => V::Null,
    }
}
fn descriptor(r: &mut Rng) -> Descriptor {
    if r.chance(50) { Descriptor::Ulong(r.edge(64)) } else { Descriptor::Symbol(Symbol::from(gsym(r))) }
}
fn compound(cx: &mut Cx, r: &mut Rng, v: &V) {
    let d = descriptor(r);
    let x = conv::variant(v).unwrap();
    let c = ntex_amqp_codec::types::DescribedCompound::create(d.clone(), x.clone());
    cx.r.count("described compounds", 1);
    let w = Variant::DescribedCompound(c.clone());
    let b = enc(&w);
    cx.r.nontrivial(&b);
    let back = match Variant::decode(&mut Bytes::from(b)) {
        Ok(Variant::DescribedCompound(y)) => y,
        y => return bad(cx, "compound-refused", format!("{y:?} {w:?}")),
    };
    for (k, y) in [("built", &c), ("decoded", &back)] {
        if y.descriptor() != &d {
            bad(cx, &format!("compound-descriptor/{k}"), format!("{d:?} {y:?}"));
        }
        if y.decode::<Variant>().ok().as_ref() != Some(&x) {
            bad(cx, &format!("compound/{k}"), format!("{x:?} {y:?}"));
        }
    }
    same(cx, "compound", &w, &Variant::DescribedCompound(back));
}

// ---------- accessors
fn dbg<T: std::fmt::Debug>(x: T) -> String {
    format!("{x:?}")
}

/// the mutable accessor of a field
macro_rules! paste_mut {
    ($m:ident, aborted) => { $m.aborted_mut() };
    ($m:ident, absolute_expiry_time) => { $m.absolute_expiry_time_mut() };
    ($m:ident, additional_data) => { $m.additional_data_mut() };
    ($m:ident, address) => { $m.address_mut() };
    ($m:ident, available) => { $m.available_mut() };
    ($m:ident, batchable) => { $m.batchable_mut() };
    ($m:ident, capabilities) => { $m.capabilities_mut() };
    ($m:ident, challenge) => { $m.challenge_mut() };
    ($m:ident, channel_max) => { $m.channel_max_mut() };
    ($m:ident, closed) => { $m.closed_mut() };
    ($m:ident, code) => { $m.code_mut() };
    ($m:ident, condition) => { $m.condition_mut() };
    ($m:ident, container_id) => { $m.container_id_mut() };
    ($m:ident, content_encoding) => { $m.content_encoding_mut() };
    ($m:ident, content_type) => { $m.content_type_mut() };
    ($m:ident, correlation_id) => { $m.correlation_id_mut() };
    ($m:ident, creation_time) => { $m.creation_time_mut() };
    ($m:ident, default_outcome) => { $m.default_outcome_mut() };
    ($m:ident, delivery_count) => { $m.delivery_count_mut() };
    ($m:ident, delivery_failed) => { $m.delivery_failed_mut() };
    ($m:ident, delivery_id) => { $m.delivery_id_mut() };
    ($m:ident, delivery_tag) => { $m.delivery_tag_mut() };
    ($m:ident, description) => { $m.description_mut() };
    ($m:ident, desired_capabilities) => { $m.desired_capabilities_mut() };
    ($m:ident, distribution_mode) => { $m.distribution_mode_mut() };
    ($m:ident, drain) => { $m.drain_mut() };
    ($m:ident, durable) => { $m.durable_mut() };
    ($m:ident, dynamic) => { $m.dynamic_mut() };
    ($m:ident, dynamic_node_properties) => { $m.dynamic_node_properties_mut() };
    ($m:ident, echo) => { $m.echo_mut() };
    ($m:ident, error) => { $m.error_mut() };
    ($m:ident, expiry_policy) => { $m.expiry_policy_mut() };
    ($m:ident, filter) => { $m.filter_mut() };
    ($m:ident, first) => { $m.first_mut() };
    ($m:ident, first_acquirer) => { $m.first_acquirer_mut() };
    ($m:ident, group_id) => { $m.group_id_mut() };
    ($m:ident, group_sequence) => { $m.group_sequence_mut() };
    ($m:ident, handle) => { $m.handle_mut() };
    ($m:ident, handle_max) => { $m.handle_max_mut() };
    ($m:ident, hostname) => { $m.hostname_mut() };
    ($m:ident, idle_time_out) => { $m.idle_time_out_mut() };
    ($m:ident, incoming_locales) => { $m.incoming_locales_mut() };
    ($m:ident, incoming_window) => { $m.incoming_window_mut() };
    ($m:ident, incomplete_unsettled) => { $m.incomplete_unsettled_mut() };
    ($m:ident, info) => { $m.info_mut() };
    ($m:ident, initial_delivery_count) => { $m.initial_delivery_count_mut() };
    ($m:ident, initial_response) => { $m.initial_response_mut() };
    ($m:ident, last) => { $m.last_mut() };
    ($m:ident, link_credit) => { $m.link_credit_mut() };
    ($m:ident, max_frame_size) => { $m.max_frame_size_mut() };
    ($m:ident, max_message_size) => { $m.max_message_size_mut() };
    ($m:ident, mechanism) => { $m.mechanism_mut() };
    ($m:ident, message_annotations) => { $m.message_annotations_mut() };
    ($m:ident, message_format) => { $m.message_format_mut() };
    ($m:ident, message_id) => { $m.message_id_mut() };
    ($m:ident, more) => { $m.more_mut() };
    ($m:ident, name) => { $m.name_mut() };
    ($m:ident, next_incoming_id) => { $m.next_incoming_id_mut() };
    ($m:ident, next_outgoing_id) => { $m.next_outgoing_id_mut() };
    ($m:ident, offered_capabilities) => { $m.offered_capabilities_mut() };
    ($m:ident, outcomes) => { $m.outcomes_mut() };
    ($m:ident, outgoing_locales) => { $m.outgoing_locales_mut() };
    ($m:ident, outgoing_window) => { $m.outgoing_window_mut() };
    ($m:ident, priority) => { $m.priority_mut() };
    ($m:ident, properties) => { $m.properties_mut() };
    ($m:ident, rcv_settle_mode) => { $m.rcv_settle_mode_mut() };
    ($m:ident, remote_channel) => { $m.remote_channel_mut() };
    ($m:ident, reply_to) => { $m.reply_to_mut() };
    ($m:ident, reply_to_group_id) => { $m.reply_to_group_id_mut() };
    ($m:ident, response) => { $m.response_mut() };
    ($m:ident, resume) => { $m.resume_mut() };
    ($m:ident, role) => { $m.role_mut() };
    ($m:ident, sasl_server_mechanisms) => { $m.sasl_server_mechanisms_mut() };
    ($m:ident, section_number) => { $m.section_number_mut() };
    ($m:ident, section_offset) => { $m.section_offset_mut() };
    ($m:ident, settled) => { $m.settled_mut() };
    ($m:ident, snd_settle_mode) => { $m.snd_settle_mode_mut() };
    ($m:ident, source) => { $m.source_mut() };
    ($m:ident, state) => { $m.state_mut() };
    ($m:ident, subject) => { $m.subject_mut() };
    ($m:ident, target) => { $m.target_mut() };
    ($m:ident, timeout) => { $m.timeout_mut() };
    ($m:ident, to) => { $m.to_mut() };
    ($m:ident, ttl) => { $m.ttl_mut() };
    ($m:ident, undeliverable_here) => { $m.undeliverable_here_mut() };
    ($m:ident, unsettled) => { $m.unsettled_mut() };
    ($m:ident, user_id) => { $m.user_id_mut() };
}
macro_rules! getters {
    ($cx:ident, $n:ident, $x:ident, $in:expr, [$($f:ident),* $(,)?]) => {
        $(
            $cx.r.count("accessors compared", 1);
            if dbg($x.$f()) != dbg(&$in.$f) {
                bad($cx, concat!("get/", stringify!($n), ".", stringify!($f)), format!("{:?} reads {:?}", $x, $x.$f()));
            }
        )*
    };
}
macro_rules! boxed {
    ($cx:ident, $n:ident, $b:ident, $x:expr, $y:expr, [$($p:ident),*], [$($o:ident),*], [$($g:ident),*]) => {{
        let (x, y) = ($x, $y);
        getters!($cx, $n, x, x.0, [$($p,)* $($o,)* $($g),*]);
        $({
            let mut m = x.clone();
            *paste_mut!(m, $p) = y.0.$p.clone();
            let mut want = x.0.clone();
            want.$p = y.0.$p.clone();
            if m.0 != want {
                bad($cx, concat!("mut/", stringify!($n), ".", stringify!($p)), format!("{x:?}\nset from {y:?}\n{m:?}"));
            }
            let m = $b(x.0.clone()).$p(y.0.$p.clone()).finish();
            if m.0 != want {
                bad($cx, concat!("build/", stringify!($n), ".", stringify!($p)), format!("{x:?}\nset from {y:?}\n{m:?}"));
            }
        })*
        $({
            let mut m = x.clone();
            *paste_mut!(m, $o) = y.0.$o.clone();
            let mut want = x.0.clone();
            want.$o = y.0.$o.clone();
            if m.0 != want {
                bad($cx, concat!("mut/", stringify!($n), ".", stringify!($o)), format!("{x:?}\nset from {y:?}\n{m:?}"));
            }
            if let Some(v) = y.0.$o.clone() {
                let m = $b(x.0.clone()).$o(v).finish();
                if m.0 != want {
                    bad($cx, concat!("build/", stringify!($n), ".", stringify!($o)), format!("{x:?}\nset from {y:?}\n{m:?}"));
                }
            }
        })*
        if x.clone().into_inner() != x.0 {
            bad($cx, concat!("into_inner/", stringify!($n)), format!("{x:?}"));
        }
    }};
}
macro_rules! plain {
    ($cx:ident, $n:ident, $x:expr, $y:expr, [$($p:ident),*]) => {{
        let (x, y) = ($x, $y);
        getters!($cx, $n, x, x, [$($p),*]);
        $({
            let mut m = x.clone();
            *paste_mut!(m, $p) = y.$p.clone();
            let mut want = x.clone();
            want.$p = y.$p.clone();
            if m != want {
                bad($cx, concat!("mut/", stringify!($n), ".", stringify!($p)), format!("{x:?}\nset from {y:?}\n{m:?}"));
            }
        })*
    }};
}

/// two values of one performative
fn two(r: &mut Rng, code: u64) -> Option<(Frame, Frame)> {
    let mut g = || {
        let v = gtype(r, code);
        if !conv::representable(&v) {
            return None;
        }
        let b = if code == TRANSFER { gbin(r) } else { vec![] };
        Some(conv::frame(&v, &b))
    };
    Some((g()?, g()?))
}
fn access(cx: &mut Cx, r: &mut Rng) {
    match r.below(18) {
        c @ 0..=8 => {
            let Some((a, b)) = two(r, 0x10 + c as u64) else { return };
            let e = enc(&AmqpFrame::new(0, a.clone()));
            cx.r.nontrivial(&e);
            match (a, b) {
                (Frame::Open(x), Frame::Open(y)) => {
                    props_open(cx, &x);
                    boxed!(cx, Open, OpenBuilder, x, y, [container_id, max_frame_size, channel_max], [hostname, idle_time_out, outgoing_locales, incoming_locales, offered_capabilities, desired_capabilities, properties], []);
                }
                (Frame::Begin(x), Frame::Begin(y)) => {
                    props_begin(cx, &x);
                    boxed!(cx, Begin, BeginBuilder, x, y, [next_outgoing_id, incoming_window, outgoing_window, handle_max], [remote_channel, offered_capabilities, desired_capabilities, properties], []);
                }
                (Frame::Attach(x), Frame::Attach(y)) => {
                    props_attach(cx, &x);
                    let (sa, sb) = (x.0.source.clone(), y.0.source.clone());
                    let (ta, tb) = (x.0.target.clone(), y.0.target.clone());
                    boxed!(cx, Attach, AttachBuilder, x, y, [name, handle, role, snd_settle_mode, rcv_settle_mode, incomplete_unsettled], [source, target, unsettled, initial_delivery_count, max_message_size, offered_capabilities, desired_capabilities, properties], []);
                    if let (Some(x), Some(y)) = (sa, sb) {
                        plain!(cx, Source, x, y, [address, durable, expiry_policy, timeout, dynamic, dynamic_node_properties, distribution_mode, filter, default_outcome, outcomes, capabilities]);
                    }
                    if let (Some(x), Some(y)) = (ta, tb) {
                        plain!(cx, Target, x, y, [address, durable, expiry_policy, timeout, dynamic, dynamic_node_properties, capabilities]);
                    }
                }
                (Frame::Flow(x), Frame::Flow(y)) => {
                    props_flow(cx, &x);
                    boxed!(cx, Flow, FlowBuilder, x, y, [incoming_window, next_outgoing_id, outgoing_window, drain, echo], [next_incoming_id, handle, delivery_count, link_credit, available, properties], []);
                }
                (Frame::Transfer(x), Frame::Transfer(y)) => {
                    body(cx, &x, &y);
                    boxed!(cx, Transfer, TransferBuilder, x, y, [handle, more, resume, aborted, batchable], [delivery_id, delivery_tag, message_format, settled, rcv_settle_mode, state], [body]);
                }
                (Frame::Disposition(x), Frame::Disposition(y)) => {
                    let (sa, sb) = (x.0.state.clone(), y.0.state.clone());
                    boxed!(cx, Disposition, DispositionBuilder, x, y, [role, first, settled, batchable], [last, state], []);
                    match (sa, sb) {
                        (Some(DeliveryState::Received(x)), Some(DeliveryState::Received(y))) => plain!(cx, Received, x, y, [section_number, section_offset]),
                        (Some(DeliveryState::Rejected(x)), Some(DeliveryState::Rejected(y))) => plain!(cx, Rejected, x, y, [error]),
                        (Some(DeliveryState::Modified(x)), Some(DeliveryState::Modified(y))) => plain!(cx, Modified, x, y, [delivery_failed, undeliverable_here, message_annotations]),
                        _ => {}
                    }
                }
                (Frame::Detach(x), Frame::Detach(y)) => {
                    boxed!(cx, Detach, DetachBuilder, x, y, [handle, closed], [error], []);
                }
                (Frame::End(x), Frame::End(y)) => {
                    if let (Some(x), Some(y)) = (x.error.clone(), y.error.clone()) {
                        boxed!(cx, Error, ErrorBuilder, x, y, [condition], [description, info], []);
                    }
                    plain!(cx, End, x, y, [error]);
                }
                (Frame::Close(x), Frame::Close(y)) => {
                    if let (Some(x), Some(y)) = (x.error.clone(), y.error.clone()) {
                        boxed!(cx, Error, ErrorBuilder, x, y, [condition], [description, info], []);
                    }
                    plain!(cx, Close, x, y, [error]);
                }
                _ => {}
            }
        }
        c @ 9..=13 => {
            let code = 0x40 + (c - 9) as u64;
            let (a, b) = (gtype(r, code), gtype(r, code));
            match (conv::sasl(&a), conv::sasl(&b)) {
                (SaslFrameBody::SaslMechanisms(x), SaslFrameBody::SaslMechanisms(y)) => plain!(cx, SaslMechanisms, x, y, [sasl_server_mechanisms]),
                (SaslFrameBody::SaslInit(x), SaslFrameBody::SaslInit(y)) => plain!(cx, SaslInit, x, y, [mechanism, initial_response, hostname]),
                (SaslFrameBody::SaslChallenge(x), SaslFrameBody::SaslChallenge(y)) => plain!(cx, SaslChallenge, x, y, [challenge]),
                (SaslFrameBody::SaslResponse(x), SaslFrameBody::SaslResponse(y)) => plain!(cx, SaslResponse, x, y, [response]),
                (SaslFrameBody::SaslOutcome(x), SaslFrameBody::SaslOutcome(y)) => plain!(cx, SaslOutcome, x, y, [code, additional_data]),
                _ => {}
            }
        }
        14 | 15 => {
            let (a, b) = (gtype(r, 0x70), gtype(r, 0x70));
            let (Some(x), Some(y)) = (conv::header(&a), conv::header(&b)) else { return };
            plain!(cx, Header, x, y, [durable, priority, ttl, first_acquirer, delivery_count]);
        }
        _ => {
            let (a, b) = (gtype(r, 0x73), gtype(r, 0x73));
            let (Some(x), Some(y)) = (conv::properties(&a), conv::properties(&b)) else { return };
            plain!(cx, Properties, x, y, [message_id, user_id, to, subject, reply_to, correlation_id, content_type, content_encoding, absolute_expiry_time, creation_time, group_id, group_sequence, reply_to_group_id]);
        }
    }
}

fn props_attach(cx: &mut Cx, x: &Attach) {
    let mut m = x.clone();
    m.get_properties_mut().insert(Symbol::from("added"), Variant::Int(1));
    let mut want = x.0.clone();
    let mut p = x.0.properties.clone().unwrap_or_default();
    p.insert(Symbol::from("added"), Variant::Int(1));
    want.properties = Some(p);
    if m.0 != want {
        bad(cx, "properties_mut/Attach", format!("{x:?}\n{m:?}"));
    }
}

fn props_begin(cx: &mut Cx, x: &Begin) {
    let mut m = x.clone();
    m.get_properties_mut().insert(Symbol::from("added"), Variant::Int(1));
    let mut want = x.0.clone();
    let mut p = x.0.properties.clone().unwrap_or_default();
    p.insert(Symbol::from("added"), Variant::Int(1));
    want.properties = Some(p);
    if m.0 != want {
        bad(cx, "properties_mut/Begin", format!("{x:?}\n{m:?}"));
    }
}

fn props_flow(cx: &mut Cx, x: &Flow) {
    let mut m = x.clone();
    m.get_properties_mut().insert(Symbol::from("added"), Variant::Int(1));
    let mut want = x.0.clone();
    let mut p = x.0.properties.clone().unwrap_or_default();
    p.insert(Symbol::from("added"), Variant::Int(1));
    want.properties = Some(p);
    if m.0 != want {
        bad(cx, "properties_mut/Flow", format!("{x:?}\n{m:?}"));
    }
}

fn props_open(cx: &mut Cx, x: &Open) {
    let mut m = x.clone();
    m.get_properties_mut().insert(Symbol::from("added"), Variant::Int(1));
    let mut want = x.0.clone();
    let mut p = x.0.properties.clone().unwrap_or_default();
    p.insert(Symbol::from("added"), Variant::Int(1));
    want.properties = Some(p);
    if m.0 != want {
        bad(cx, "properties_mut/Open", format!("{x:?}\n{m:?}"));
    }
}

fn body(cx: &mut Cx, x: &Transfer, y: &Transfer) {
    let want = match &y.0.body {
        Some(TransferBody::Data(b)) => Some(b.clone()),
        _ => None,
    };
    if y.get_body() != want.as_ref() {
        bad(cx, "get_body", format!("{y:?}"));
    }
    if let Some(b) = y.0.body.clone() {
        if Some(b.len()) != want.as_ref().map(|b| b.len()) || b.message_format().is_some() {
            bad(cx, "transfer-body", format!("{b:?} has length {} and format {:?}", b.len(), b.message_format()));
        }
        let m = TransferBuilder(x.0.clone()).body(b.clone()).finish();
        let mut w = x.0.clone();
        w.body = Some(b);
        if m.0 != w {
            bad(cx, "build/Transfer.body", format!("{x:?} {y:?} {m:?}"));
        }
    }
}

// ---------- messages
#[derive(Clone, Default, PartialEq, Debug)]
struct Mm {
    format: Option<u32>,
    header: Option<Header>,
    props: Option<Properties>,
    app: Option<Vec<(String, Variant)>>,
    ann: Option<Vec<(String, Variant)>>,
    dann: Option<Vec<(String, Variant)>>,
    data: Vec<Vec<u8>>,
    seq: Vec<Vec<Variant>>,
    msgs: Vec<TransferBody>,
    value: Option<Variant>,
}
const KEYS: [&str; 5] = ["", "a", "b", "ab", "x-opt-key"];

fn var(r: &mut Rng) -> Variant {
    loop {
        let d = r.below(2);
        if let Some(v) = conv::variant(&gany(r, d)) {
            return v;
        }
    }
}
fn text_pairs<'a>(x: impl Iterator<Item = (&'a str, &'a Variant)>) -> Vec<(String, Variant)> {
    x.map(|(k, v)| (k.to_string(), v.clone())).collect()
}
fn look(cx: &mut Cx, m: &Message, w: &Mm, trail: &[&str], decoded: bool) {
    cx.r.count("messages compared", 1);
    let t = if decoded { "decoded" } else { trail.last().copied().unwrap_or("new") };
    macro_rules! eq {
        ($k:expr, $a:expr, $b:expr) => {
            if $a != $b {
                bad(cx, &format!("message/{}/{t}", $k), format!("reads {:?}\nshould be {:?}\nafter {trail:?}", $a, $b));
            }
        };
    }
    eq!("header", m.header(), w.header.as_ref());
    if !decoded {
        eq!("format", m.0.message_format, w.format);
        eq!("body-format", TransferBody::from(m.clone()).message_format(), w.format);
    }
    eq!("properties", m.properties(), w.props.as_ref());
    let app = m.app_properties().map(|p| text_pairs(p.iter().map(|(k, v)| (k.as_str(), v))));
    eq!("app-properties", app, w.app);
    let ann = m.message_annotations().map(|p| text_pairs(p.iter().map(|(k, v)| (k.as_str(), v))));
    eq!("annotations", ann, w.ann);
    let dann = m.delivery_annotations().map(|p| text_pairs(p.iter().map(|(k, v)| (k.as_str(), v))));
    eq!("delivery-annotations", dann, w.dann);
    for k in KEYS {
        let first = |l: &Option<Vec<(String, Variant)>>| l.as_ref().and_then(|l| l.iter().find(|x| x.0 == k)).map(|x| x.1.clone());
        eq!("app-property", m.app_property(k).cloned(), first(&w.app));
        eq!("annotation", m.message_annotation(k).cloned(), first(&w.ann));
    }
    let b: &MessageBody = m.body();
    let mut data = w.data.clone();
    if decoded {
        // nested messages travel as data sections behind the plain ones
        data.extend(w.msgs.iter().map(enc));
    } else {
        eq!("messages", b.messages, w.msgs);
    }
    eq!("data", b.data.iter().map(|x| x.to_vec()).collect::<Vec<_>>(), data);
    eq!("first-data", b.data().map(|x| x.to_vec()), data.first().cloned());
    eq!("sequence", b.sequence.iter().map(|x| x.0.clone()).collect::<Vec<_>>(), w.seq);
    eq!("value", m.value(), w.value.as_ref());
    eq!("body-value", b.value(), w.value.as_ref());
}

fn messages(cx: &mut Cx, r: &mut Rng) {
    let mut w = Mm::default();
    let mut trail: Vec<&'static str> = vec![];
    let mut m = match r.below(4) {
        0 => {
            let b = gbin(r);
            w.format = Some(0);
            w.data.push(b.clone());
            trail.push("with_body");
            Message::with_body(conv::bin(&b))
        }
        1 => {
            let l: Vec<TransferBody> = (0..r.below(3)).map(|_| TransferBody::Data(conv::bin(&gbin(r)))).collect();
            w.format = Some(0);
            w.msgs = l.clone();
            trail.push("with_messages");
            Message::with_messages(l)
        }
        _ => Message::default(),
    };
    look(cx, &m, &w, &trail, false);
    let mut aside: Option<(Message, Mm)> = None;
    for _ in 0..r.range(1, 10) {
        let k = *r.pick(&KEYS);
        let did = match r.below(22) {
            0 => {
                let h = conv::header(&gtype(r, 0x70)).unwrap();
                w.header = Some(h.clone());
                m.set_header(h);
                "set_header"
            }
            1 => {
                let f = r.u32();
                w.format = Some(f);
                m.set_format(f);
                "set_format"
            }
            2 => {
                let s = conv::bs(&gstr(r));
                w.props.get_or_insert_with(Properties::default).subject = Some(s.clone());
                m.properties_mut().subject = Some(s);
                "properties_mut"
            }
            3 => {
                let p = conv::properties(&gtype(r, 0x73)).unwrap();
                w.props = Some(p.clone());
                m.set_properties(|x| *x = p);
                "set_properties"
            }
            4 => {
                // what is there is handed to the closure
                let id = MessageId::from(r.below(1000));
                w.props.get_or_insert_with(Properties::default).message_id = Some(id.clone());
                m.set_properties(|x| x.message_id = Some(id));
                "set_properties.one"
            }
            5..=7 => {
                let v = var(r);
                w.app.get_or_insert_with(Vec::new).push((k.into(), v.clone()));
                m.set_app_property(Str::from(k), v);
                "set_app_property"
            }
            8..=10 => {
                let v = var(r);
                w.ann.get_or_insert_with(Vec::new).push((k.into(), v.clone()));
                m.add_message_annotation(k, v);
                "add_message_annotation"
            }
            11 => {
                let b = gbin(r);
                w.data = vec![b.clone()];
                m.set_body(|x| x.set_data(conv::bin(&b)));
                "set_data"
            }
            12 => {
                let b = gbin(r);
                w.data.push(b.clone());
                m.body_mut().data.push(conv::bin(&b));
                "body_mut.push"
            }
            13 => {
                let v = var(r);
                w.value = Some(v.clone());
                m.set_value(v);
                "set_value"
            }
            14 => {
                let l: Vec<Variant> = (0..r.below(4)).map(|_| var(r)).collect();
                w.seq.push(l.clone());
                m.body_mut().sequence.push(List::from(l));
                "sequence"
            }
            15 => {
                if let Some(p) = m.app_properties_mut() {
                    p.pop();
                    w.app.as_mut().unwrap().pop();
                } else if w.app.is_some() {
                    bad(cx, "message/app_properties_mut", format!("{trail:?}"));
                }
                "app_properties_mut"
            }
            16 => {
                if let Some(p) = m.message_annotations_mut() {
                    p.pop();
                    w.ann.as_mut().unwrap().pop();
                } else if w.ann.is_some() {
                    bad(cx, "message/message_annotations_mut", format!("{trail:?}"));
                }
                "message_annotations_mut"
            }
            17 => {
                let v = var(r);
                if let Some(p) = m.delivery_annotations_mut() {
                    p.push((Symbol::from(k), v.clone()));
                    w.dann.as_mut().unwrap().push((k.into(), v));
                } else {
                    m.0.delivery_annotations = Some(VecSymbolMap::from(vec![(Symbol::from(k), v.clone())]));
                    w.dann = Some(vec![(k.into(), v)]);
                }
                "delivery_annotations"
            }
            18 => {
                aside = Some((m.clone(), w.clone()));
                "clone"
            }
            19 => {
                // the closure is run exactly when there is a value
                let some = r.chance(50);
                let o = some.then(|| r.u32());
                m = m.if_some(&o, |mut m, f| {
                    m.set_format(*f);
                    m
                });
                if some {
                    w.format = o;
                }
                "if_some"
            }
            20 => {
                let f = r.u32();
                m = m.update(|mut m| {
                    m.set_format(f);
                    m
                });
                w.format = Some(f);
                "update"
            }
            _ => {
                let a = m.reply_message();
                let mut x = Mm::default();
                if let Some(p) = &w.props {
                    x.props = Some(Properties { correlation_id: p.message_id.clone(), ..Properties::default() });
                }
                trail.push("reply_message");
                look(cx, &a, &x, &trail, false);
                trail.pop();
                cx.r.count("replies compared", 1);
                "reply_message"
            }
        };
        trail.push(did);
        look(cx, &m, &w, &trail, false);
        if let Some((c, cw)) = &aside {
            look(cx, c, cw, &["clone kept aside"], false);
        }
    }
    // an equal message built in one go, and one that differs
    if m != m.clone() {
        bad(cx, "message/clone-differs", format!("{m:?}"));
    }
    if let Some((c, cw)) = &aside {
        if (*c == m) != (*cw == w) {
            bad(cx, "message/equality", format!("{c:?}\n{m:?}\n{trail:?}"));
        }
    }
    let b = enc(&m);
    if b.len() > 3 {
        cx.r.nontrivial(&b);
    }
    let n = TransferBody::from(m.clone()).len();
    if n != b.len() {
        bad(cx, "message/body-len", format!("{n} of {} bytes {trail:?}", b.len()));
    }
    let mut t = Transfer::default();
    t.0.body = Some(TransferBody::Data(Bytes::from(b)));
    match t.load_message::<Message>() {
        Ok(d) => {
            trail.push("load_message");
            look(cx, &d, &w, &trail, true);
        }
        Err(e) => bad(cx, "message/load", format!("{e:?} {m:?} {trail:?}")),
    }
}
