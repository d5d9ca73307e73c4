//! C01-C06: the codec against an independently written decoder/encoder.
use ntex_amqp_codec::protocol::*;
use ntex_amqp_codec::types::{Array, Descriptor, List, Multiple, Str, Symbol, Variant, VecStringMap, VecSymbolMap};
use ntex_amqp_codec::{AmqpCodec, AmqpFrame, Decode, Encode, Message, ProtocolIdCodec, SaslFrame};
use ntex_bytes::{ByteString, Bytes, BytesMut};
use ntex_codec::{Decoder, Encoder};

use crate::Cx;
use crate::conv::{self, HashMap};
use crate::report::{self, catch, panic_site};
use crate::rng::Rng;
use crate::schema::{self, *};
use crate::wire::{self, Dec, Style, V, build_frame, decode_one, desc, parse_frame};

pub const R01: &str = "random AMQP values (all 25 types, nesting to depth 4, edge sizes), all 9 performatives, 5 SASL frames and messages built and mutated through the public API; each is encoded, decoded, compared and re-encoded. Non-trivial: encoding longer than 3 bytes; distinct by encoded bytes.";
pub const R02: &str = "same items as C01, plus messages measured or encoded between mutations; encoded_size() is compared with the bytes emitted and the frame header with an independent parse. Non-trivial: encoding longer than 3 bytes; distinct by encoded bytes.";
pub const R03: &str = "same items as C01; the emitted bytes are parsed by a decoder written from the specification and the fields compared in specification order with what was put in. Non-trivial: encoding longer than 3 bytes; distinct by encoded bytes.";
pub const R04: &str = "hostile inputs: valid encodings mutated (bit flips, length/count edges, truncation, splices, constructor swaps), deep nesting, amplification bombs, raw noise; decoded through every public decoding entry point under a panic trap, allocation accounting and CPU watchdog. Non-trivial: at least 2 bytes; distinct by input bytes.";
pub const R05: &str = "sequences of valid, oversized, undersized and malformed frames fed whole and in random chunks with random size limits; item and error sequences compared with an independent framing model. Non-trivial: at least two frames and two chunks; distinct by bytes and chunking.";
pub const R06: &str = "values, performatives, SASL bodies and message sections encoded by the independent encoder choosing randomly among all constructors the specification allows, trailing fields omitted or null, symbolic or numeric descriptors, extended headers; the decoded value compared field by field. Non-trivial: encoding differs from the crate's own; distinct by encoded bytes.";

/// what an item is, for decoding it back
#[derive(Clone)]
enum Item {
    Value(Variant),
    Frame(AmqpFrame),
    Sasl(SaslFrame),
    Msg(Message),
}

impl Item {
    fn size(&self) -> usize {
        match self {
            Item::Value(v) => v.encoded_size(),
            Item::Frame(v) => v.encoded_size(),
            Item::Sasl(v) => v.encoded_size(),
            Item::Msg(v) => v.encoded_size(),
        }
    }
    fn encode(&self) -> Vec<u8> {
        let mut b = BytesMut::new();
        match self {
            Item::Value(v) => v.encode(&mut b),
            Item::Frame(v) => v.encode(&mut b),
            Item::Sasl(v) => v.encode(&mut b),
            Item::Msg(v) => v.encode(&mut b),
        }
        b.to_vec()
    }
    fn decode(&self, b: &[u8]) -> Result<(Item, usize), String> {
        match self {
            Item::Value(_) => {
                let mut i = Bytes::copy_from_slice(b);
                let v = Variant::decode(&mut i).map_err(|e| format!("{e:?}"))?;
                Ok((Item::Value(v), i.len()))
            }
            Item::Frame(_) => {
                let mut i = BytesMut::from(b);
                let v = AmqpCodec::<AmqpFrame>::new().decode(&mut i).map_err(|e| format!("{e:?}"))?;
                Ok((Item::Frame(v.ok_or("no frame")?), i.len()))
            }
            Item::Sasl(_) => {
                let mut i = BytesMut::from(b);
                let v = AmqpCodec::<SaslFrame>::new().decode(&mut i).map_err(|e| format!("{e:?}"))?;
                Ok((Item::Sasl(v.ok_or("no frame")?), i.len()))
            }
            Item::Msg(_) => {
                let mut i = Bytes::copy_from_slice(b);
                let v = Message::decode(&mut i).map_err(|e| format!("{e:?}"))?;
                Ok((Item::Msg(v), i.len()))
            }
        }
    }
    /// contents read from the public fields, in the oracle's model
    fn model(&self) -> Result<Model, String> {
        Ok(match self {
            Item::Value(v) => Model { ch: 0, vs: vec![conv::vto(v)?.canon()], body: vec![] },
            Item::Frame(f) => match conv::t_frame(f.performative())? {
                None => Model { ch: f.channel_id(), vs: vec![], body: vec![] },
                Some((v, b)) => Model { ch: f.channel_id(), vs: vec![norm(v)?], body: b },
            },
            Item::Sasl(s) => Model { ch: 0, vs: vec![norm(conv::t_sasl(&s.body))?], body: vec![] },
            Item::Msg(m) => {
                let mut vs = vec![];
                for s in conv::t_message(m)? {
                    vs.push(norm(s)?);
                }
                // a body mixing kinds keeps the order within each kind
                vs.sort_by_key(dcode);
                Model { ch: 0, vs, body: vec![] }
            }
        })
    }
    fn debug(&self) -> String {
        match self {
            Item::Value(v) => format!("{v:?}"),
            Item::Frame(v) => format!("{v:?}"),
            Item::Sasl(v) => format!("{:?}", v.body),
            Item::Msg(v) => format!("{v:?}"),
        }
    }
}

#[derive(Clone, Debug, PartialEq)]
struct Model {
    ch: u16,
    vs: Vec<V>,
    body: Vec<u8>,
}

/// described composites normalised against their specification table
pub fn norm(v: V) -> Result<V, String> {
    match v {
        V::Desc(d, x) => {
            let code = match &*d {
                V::Ulong(n) => Some(*n),
                V::Sym(s) => schema::code_of(s),
                _ => None,
            };
            match (code, *x) {
                (Some(c), V::List(l)) if schema::ty(c).is_some() => {
                    Ok(desc(c, V::List(schema::normalise(c, &l).map_err(|e| format!("{}: {e}", name_of(c)))?)).canon())
                }
                (Some(c), x) if schema::sym_of(c).is_some() => Ok(desc(c, x).canon()),
                (_, x) => Ok(V::Desc(d, Box::new(x)).canon()),
            }
        }
        v => Ok(v.canon()),
    }
}

/// What the independent decoder reads out of the emitted bytes
fn wire_model(it: &Item, b: &[u8]) -> Result<Model, String> {
    let err = |e: wire::WErr| e.0;
    Ok(match it {
        Item::Value(_) => Model { ch: 0, vs: vec![decode_one(b).map_err(err)?.canon()], body: vec![] },
        Item::Frame(_) => {
            let f = parse_frame(b).map_err(err)?;
            if f.doff != 2 || f.ftype != 0 {
                return Err(format!("doff {} type {}", f.doff, f.ftype));
            }
            let mut vs = vec![];
            if let Some(p) = f.perf {
                vs.push(norm(p)?);
            }
            Model { ch: f.channel, vs, body: f.payload }
        }
        Item::Sasl(_) => {
            let f = parse_frame(b).map_err(err)?;
            if f.doff != 2 || f.ftype != 1 {
                return Err(format!("doff {} type {}", f.doff, f.ftype));
            }
            if !f.payload.is_empty() {
                return Err("payload in sasl frame".into());
            }
            Model { ch: 0, vs: vec![norm(f.perf.ok_or("no body")?)?], body: vec![] }
        }
        Item::Msg(_) => {
            let mut d = Dec::new(b);
            let mut vs = vec![];
            while d.left() > 0 {
                vs.push(norm(d.value().map_err(err)?)?);
            }
            // the API lets body kinds be mixed, which no order makes conforming: they rank equal
            let order: Vec<u64> =
                vs.iter().filter_map(dcode).map(|c| if (0x75..=0x77).contains(&c) { 0x75 } else { c }).collect();
            if order.len() != vs.len() || order.windows(2).any(|w| w[0] > w[1]) {
                return Err(format!("sections out of order: {order:x?}"));
            }
            vs.sort_by_key(dcode);
            Model { ch: 0, vs, body: vec![] }
        }
    })
}
fn dcode(v: &V) -> Option<u64> {
    match v {
        V::Desc(d, _) => match **d {
            V::Ulong(n) => Some(n),
            _ => None,
        },
        _ => None,
    }
}

// ---------- generation
fn depth(r: &mut Rng) -> usize {
    *r.pick(&[0usize, 0, 1, 1, 2, 2, 3, 4])
}

/// A value the crate can represent, plus the item built from it
fn item(r: &mut Rng) -> Option<(Item, Model)> {
    match r.below(10) {
        0..=3 => {
            let d = depth(r);
            let v = gany(r, d);
            let x = conv::variant(&v)?;
            Some((Item::Value(x), Model { ch: 0, vs: vec![v.canon()], body: vec![] }))
        }
        4..=6 => {
            let code = r.range(0x10, 0x18) as u64;
            let v = gtype(r, code);
            if !conv::representable(&v) {
                return None;
            }
            let body = if code == TRANSFER && r.chance(80) { gbin(r) } else { vec![] };
            let ch = r.edge(16) as u16;
            let it = Item::Frame(conv::amqp(ch, &v, &body));
            let m = Model { ch, vs: vec![norm(v).expect("generator")], body };
            Some((it, m))
        }
        7 => {
            if r.chance(10) {
                return Some((
                    Item::Frame(AmqpFrame::new(0, Frame::Empty)),
                    Model { ch: 0, vs: vec![], body: vec![] },
                ));
            }
            let code = r.range(0x40, 0x44) as u64;
            let v = gtype(r, code);
            Some((Item::Sasl(conv::sasl_frame(&v)), Model { ch: 0, vs: vec![norm(v).expect("generator")], body: vec![] }))
        }
        _ => {
            let m = message(r, 0);
            let it = Item::Msg(m);
            let mo = it.model().ok()?;
            Some((it, mo))
        }
    }
}

fn variant(r: &mut Rng, d: usize) -> Variant {
    loop {
        let v = gany(r, d);
        if let Some(x) = conv::variant(&v) {
            return x;
        }
    }
}

/// One random mutation through the public API
fn mutate(r: &mut Rng, m: &mut Message, rich: bool) -> &'static str {
    match r.below(20) {
        0 => {
            let v = gtype(r, 0x70);
            m.set_header(conv::header(&v).unwrap());
            "set_header"
        }
        1 => {
            m.set_format(r.u32());
            "set_format"
        }
        2 => {
            let s = gstr(r);
            m.properties_mut().subject = Some(conv::bs(&s));
            "properties_mut"
        }
        3 => {
            let v = gtype(r, 0x73);
            m.set_properties(|p| *p = conv::properties(&v).unwrap());
            "set_properties"
        }
        4 => {
            let v = variant(r, 1);
            m.set_app_property(conv::bs(&gstr(r)), v);
            "set_app_property"
        }
        5 => {
            let v = variant(r, 1);
            m.add_message_annotation(conv::bs(&gsym(r)), v);
            "add_message_annotation"
        }
        6 | 7 => {
            let d = gbin(r);
            m.set_body(|b| b.set_data(conv::bin(&d)));
            "set_body.set_data"
        }
        8 => {
            let v = variant(r, 2);
            m.set_value(v);
            "set_value"
        }
        9 => {
            let d = gbin(r);
            m.set_body(|b| b.data.push(conv::bin(&d)));
            "set_body.push"
        }
        10 => {
            let n = r.below(4);
            let l: Vec<Variant> = (0..n).map(|_| variant(r, 1)).collect();
            m.set_body(|b| b.sequence.push(List::from(l)));
            "set_body.sequence"
        }
        11 => {
            let x = m.clone();
            *m = x;
            "clone"
        }
        12 => {
            let _ = m.encoded_size();
            "measure"
        }
        13 => {
            let mut b = BytesMut::new();
            m.encode(&mut b);
            "encode"
        }
        14 => {
            let d = gbin(r);
            m.body_mut().set_data(conv::bin(&d));
            "body_mut"
        }
        15 => {
            if let Some(p) = m.app_properties_mut() {
                if r.chance(50) {
                    p.clear();
                } else {
                    let x = (Str::from(gstr(r)), variant(r, 1));
                    p.push(x);
                }
            }
            "app_properties_mut"
        }
        16 => {
            if let Some(p) = m.message_annotations_mut() {
                p.push((Symbol::from(gsym(r)), variant(r, 1)));
            }
            "message_annotations_mut"
        }
        17 => {
            if m.0.delivery_annotations.is_none() {
                let v = loop {
                    let v = gmap(r, 1, true);
                    if conv::representable(&v) {
                        break v;
                    }
                };
                m.0.delivery_annotations = conv::o_vsm(&v);
            } else if let Some(p) = m.delivery_annotations_mut() {
                p.push((Symbol::from(gsym(r)), variant(r, 1)));
            }
            "delivery_annotations"
        }
        18 => {
            let mut h = HashMap::default();
            for _ in 0..r.below(3) {
                h.insert(Symbol::from(gsym(r)), variant(r, 1));
            }
            m.0.footer = if r.chance(70) { Some(h) } else { None };
            "footer"
        }
        _ => {
            if rich {
                let n = message(r, 1);
                m.set_body(|b| b.messages.push(n.into()));
            } else {
                m.set_body(|b| b.messages.push(TransferBody::Data(Bytes::from_static(b"abc"))));
            }
            "set_body.messages"
        }
    }
}

pub fn message(r: &mut Rng, lvl: usize) -> Message {
    let mut m = match r.below(4) {
        0 => Message::with_body(conv::bin(&gbin(r))),
        1 => Message::with_messages(vec![TransferBody::Data(conv::bin(&gbin(r)))]),
        _ => Message::default(),
    };
    for _ in 0..r.below(9) {
        let rich = lvl == 0 && r.chance(20);
        mutate(r, &mut m, rich);
    }
    if lvl == 0 && r.chance(10) {
        m = m.reply_message();
    }
    m
}

fn hex(b: &[u8]) -> String {
    let mut s = String::new();
    for (i, x) in b.iter().enumerate() {
        if i > 600 {
            s.push('…');
            break;
        }
        s.push_str(&format!("{x:02x}"));
    }
    s
}
fn kind(it: &Item) -> String {
    match it {
        Item::Value(v) => format!("value/{}", format!("{v:?}").split(['(', ' ', '{']).next().unwrap_or("")),
        Item::Frame(f) => format!("frame/{}", f.performative().name()),
        Item::Sasl(_) => "sasl".into(),
        Item::Msg(_) => "message".into(),
    }
}
fn observe(cx: &mut Cx, it: &Item, b: &[u8]) {
    cx.r.count(&format!("items/{}", kind(it)), 1);
    if b.len() > 3 {
        cx.r.nontrivial(b);
    }
    if b.len() > 40 {
        cx.r.sample(|| format!("{} -> {}", it.debug(), hex(b)));
    }
}

pub fn c01(cx: &mut Cx) {
    let n = cx.n(2_000_000, 40_000_000);
    cx.cases("c01", n, |cx, r, _| {
        let Some((it, want)) = item(r) else {
            cx.r.count("skipped: not constructible", 1);
            return;
        };
        let k = kind(&it);
        let b = match catch(|| it.encode()) {
            Ok(b) => b,
            Err(p) => {
                cx.r.violation("C01", &format!("encode-panic/{k}"), format!("{p}\n{}", it.debug()));
                return;
            }
        };
        observe(cx, &it, &b);
        let back = match catch(|| it.decode(&b)) {
            Ok(Ok((x, 0))) => x,
            Ok(Ok((_, n))) => {
                cx.r.violation("C01", &format!("left-over/{k}"), format!("{n} bytes left of {}\n{}", hex(&b), it.debug()));
                return;
            }
            Ok(Err(e)) => {
                cx.r.violation("C01", &format!("decode-error/{k}"), format!("{e}\n{}\n{}", hex(&b), it.debug()));
                return;
            }
            Err(p) => {
                cx.r.violation("C01", &format!("decode-panic/{k}"), format!("{p}\n{}", hex(&b)));
                return;
            }
        };
        match back.model() {
            Ok(got) if got == want => {}
            Ok(got) => {
                cx.r.violation("C01", &format!("differs/{k}"), format!("put {want:?}\ngot {got:?}\nbytes {}", hex(&b)));
                return;
            }
            Err(e) => {
                cx.r.violation("C01", &format!("model/{k}"), format!("{e}\n{}", it.debug()));
                return;
            }
        }
        // the crate's own equality must agree, for values (messages compare wire-only state)
        if let (Item::Value(a), Item::Value(c)) = (&it, &back) {
            if a != c {
                cx.r.violation("C01", &format!("eq/{k}"), format!("{a:?} != {c:?}"));
            }
        }
        match catch(|| {
            let b2 = back.encode();
            back.decode(&b2).and_then(|x| x.0.model()).map(|m| (m, b2))
        }) {
            Ok(Ok((m, _))) if m == want => {}
            x => cx.r.violation("C01", &format!("re-encode/{k}"), format!("{x:?}\nwanted {want:?}")),
        }
        cx.r.count("round trips compared", 1);
    });
    // typed containers and primitives
    let n = cx.n(300_000, 4_000_000);
    cx.cases("c01.typed", n, |cx, r, _| typed(cx, r, "C01"));
    cx.cases("c01.alone", n, |cx, r, _| composites(cx, r, "C01"));
}
macro_rules! rt {
    ($cx:expr, $p:expr, $name:expr, $v:expr, $t:ty) => {{
        let v: $t = $v;
        let mut b = BytesMut::new();
        let size = v.encoded_size();
        match catch(|| v.encode(&mut b)) {
            Err(p) => $cx.r.violation($p, &format!("encode-panic/typed/{}", $name), p),
            Ok(()) => {
                $cx.r.nontrivial(b.as_ref());
                $cx.r.count(&format!("typed/{}", $name), 1);
                match $p {
                    "C02" => {
                        if b.len() != size {
                            $cx.r.violation("C02", &format!("size/typed/{}", $name), format!("declared {size}, emitted {}: {v:?}", b.len()));
                        }
                    }
                    "C03" => {
                        if let Err(e) = decode_one(b.as_ref()) {
                            $cx.r.violation("C03", &format!("wire/typed/{}", $name), format!("{}: {} {v:?}", e.0, hex(b.as_ref())));
                        }
                    }
                    _ => {
                        let mut i = b.clone().freeze();
                        match catch(|| <$t as Decode>::decode(&mut i)) {
                            Ok(Ok(x)) if x == v && i.is_empty() => {}
                            x => $cx.r.violation($p, &format!("round-trip/typed/{}", $name), format!("{v:?} -> {} -> {x:?} left {}", hex(b.as_ref()), i.len())),
                        }
                    }
                }
            }
        }
    }};
}

/// Texts that can only be encoded: they must look like their owned kin
fn borrowed(cx: &mut Cx, r: &mut Rng, p: &str) {
    static LONG: std::sync::OnceLock<Vec<String>> = std::sync::OnceLock::new();
    let all = LONG.get_or_init(|| [0, 1, 254, 255, 256, 1000].iter().map(|n| "s".repeat(*n)).collect());
    let sym: &'static str = r.pick(all);
    let st = gstr(r);
    let (mut a, mut b) = (BytesMut::new(), BytesMut::new());
    let x = ntex_amqp_codec::types::StaticSymbol::from(sym);
    let (n, m) = (x.encoded_size(), st.as_str().encoded_size());
    x.encode(&mut a);
    st.as_str().encode(&mut b);
    cx.r.nontrivial(&b[..]);
    cx.r.count("typed/borrowed texts", 1);
    let ok = match p {
        "C02" => n == a.len() && m == b.len(),
        "C03" => decode_one(&a[..]).is_ok_and(|v| v == V::Sym(sym.to_string())) && decode_one(&b[..]).is_ok_and(|v| v == V::Str(st.clone())),
        _ => {
            Symbol::decode(&mut a.clone().freeze()).is_ok_and(|v| v.as_str() == sym)
                && ByteString::decode(&mut b.clone().freeze()).is_ok_and(|v| v == *st)
        }
    };
    if !ok {
        cx.r.violation(p, "borrowed-text", format!("{} bytes of symbol as {}, {st:?} as {}", sym.len(), hex(&a), hex(&b)));
    }
}

fn typed(cx: &mut Cx, r: &mut Rng, p: &str) {
    match r.below(29) {
        27 => borrowed(cx, r, p),
        28 => {
            let n = r.below(5);
            let x: Vec<Symbol> = (0..n).map(|_| Symbol::from(gsym(r))).collect();
            rt!(cx, p, "[symbol]", x, Vec<Symbol>);
        }
        0 => rt!(cx, p, "bool", r.chance(50), bool),
        1 => rt!(cx, p, "u8", r.edge(8) as u8, u8),
        2 => rt!(cx, p, "u16", r.edge(16) as u16, u16),
        3 => rt!(cx, p, "u32", r.edge(32) as u32, u32),
        4 => rt!(cx, p, "u64", r.edge(64), u64),
        5 => rt!(cx, p, "i8", r.edge(8) as i8, i8),
        6 => rt!(cx, p, "i16", r.edge(16) as i16, i16),
        7 => rt!(cx, p, "i32", if r.chance(50) { r.below(300) as i32 - 150 } else { r.edge(32) as i32 }, i32),
        8 => rt!(cx, p, "i64", if r.chance(50) { r.below(300) as i64 - 150 } else { r.edge(64) as i64 }, i64),
        9 => rt!(cx, p, "f32", r.below(10_000) as f32 / 3.0, f32),
        10 => rt!(cx, p, "f64", r.below(10_000) as f64 / 3.0, f64),
        11 => rt!(cx, p, "char", char::from_u32(r.below(0xd7ff) as u32).unwrap(), char),
        12 => rt!(cx, p, "bytes", conv::bin(&gbin(r)), Bytes),
        13 => rt!(cx, p, "string", conv::bs(&gstr(r)), ByteString),
        14 => rt!(cx, p, "symbol", Symbol::from(gsym(r)), Symbol),
        15 => rt!(cx, p, "str", Str::from(gstr(r)), Str),
        16 => rt!(cx, p, "uuid", uuid::Uuid::from_slice(&r.bytes(16)).unwrap(), uuid::Uuid),
        17 => rt!(cx, p, "list", List::from((0..r.below(5)).map(|_| variant(r, 1)).collect::<Vec<_>>()), List),
        18 => rt!(cx, p, "unit-list", List::from(vec![Variant::Null; *r.pick(&[0usize, 1, 254, 255, 256, 1000])]), List),
        19 => {
            let mut h: HashMap<Symbol, Variant> = HashMap::default();
            for _ in 0..r.below(6) {
                h.insert(Symbol::from(gsym(r)), variant(r, 1));
            }
            rt!(cx, p, "map<symbol>", h, HashMap<Symbol, Variant>);
        }
        20 => {
            let mut h: HashMap<ByteString, u32> = HashMap::default();
            for _ in 0..r.below(80) {
                h.insert(conv::bs(&gstr(r)), r.edge(32) as u32);
            }
            rt!(cx, p, "map<string,u32>", h, HashMap<ByteString, u32>);
        }
        21 => {
            // from an even number of symbols: a Multiple of any length
            let n = *r.pick(&[0usize, 1, 1, 2, 3, 7, 60, 300]);
            rt!(cx, p, "multiple", Multiple((0..n).map(|_| Symbol::from(gsym(r))).collect()), Multiple<Symbol>);
        }
        22 => {
            let n = *r.pick(&[0usize, 1, 2, 62, 63, 64, 255, 256]);
            rt!(cx, p, "[u32]", (0..n).map(|i| i as u32 * 77).collect::<Vec<u32>>(), Vec<u32>);
        }
        23 => {
            let n = *r.pick(&[0usize, 1, 2, 255, 256, 257]);
            let x: Vec<bool> = (0..n).map(|_| r.chance(50)).collect();
            rt!(cx, p, "[bool]", x, Vec<bool>);
        }
        24 => {
            let n = r.below(6);
            let x: Vec<ByteString> = (0..n).map(|_| conv::bs(&gstr(r))).collect();
            rt!(cx, p, "[string]", x, Vec<ByteString>);
        }
        25 => {
            let n = *r.pick(&[0usize, 1, 2, 31, 32, 255]);
            let x: Vec<u64> = (0..n).map(|_| r.edge(64)).collect();
            rt!(cx, p, "[u64]", x, Vec<u64>);
        }
        _ => {
            let mut m = VecSymbolMap::default();
            for _ in 0..r.below(6) {
                m.push((Symbol::from(gsym(r)), variant(r, 1)));
            }
            rt!(cx, p, "vec-symbol-map", m, VecSymbolMap);
        }
    }
}

/// A composite encoded and decoded on its own, not as part of a frame or a message
fn alone<T: Encode + Decode>(cx: &mut Cx, r: &mut Rng, p: &str, code: u64, whole: &dyn Fn(&mut BytesMut), x: &T, want: &V, model: &dyn Fn(T) -> Result<V, String>) {
    let name = name_of(code);
    let mut b = BytesMut::new();
    let size = x.encoded_size();
    if let Err(e) = catch(|| x.encode(&mut b)) {
        return cx.r.violation(p, &format!("encode-panic/alone/{name}"), e);
    }
    let b = b.to_vec();
    cx.r.nontrivial(&b);
    cx.r.count("composites encoded and decoded alone", 1);
    let dec = |b: &[u8]| {
        let mut i = Bytes::copy_from_slice(b);
        match catch(|| T::decode(&mut i)) {
            Ok(Ok(v)) if i.is_empty() => model(v),
            Ok(Ok(_)) => Err(format!("{} bytes left", i.len())),
            Ok(Err(e)) => Err(format!("{e:?}")),
            Err(e) => Err(e),
        }
    };
    match p {
        "C02" => {
            if size != b.len() {
                cx.r.violation(p, &format!("size/alone/{name}"), format!("declared {size}, emitted {}", b.len()));
            }
        }
        "C03" => {
            let mut w = BytesMut::new();
            whole(&mut w);
            if w[..] != b[..] {
                cx.r.violation(p, &format!("wire/alone/{name}"), format!("{} alone, {} as part of something", hex(&b), hex(&w)));
            }
        }
        "C01" => match dec(&b) {
            Ok(v) if v == *want => {}
            v => cx.r.violation(p, &format!("round-trip/alone/{name}"), format!("{} -> {v:?}\nwanted {want:?}", hex(&b))),
        },
        _ => {
            if b.len() < 3 || b[..2] != [0, 0x53] {
                return;
            }
            let sym = schema::sym_of(code).expect("known composite");
            let mut o = match r.below(4) {
                0 => vec![0, 0xb3, 0, 0, 0, sym.len() as u8],
                1 => [&[0, 0x80][..], &code.to_be_bytes()[..]].concat(),
                2 => {
                    // not this composite
                    let mut other = b.clone();
                    other[2] ^= 1 << r.below(7);
                    let mut i = Bytes::copy_from_slice(&other);
                    if let Ok(Ok(_)) = catch(|| T::decode(&mut i).map(|_| ())) {
                        cx.r.violation(p, &format!("wrong-descriptor/alone/{name}"), format!("decoded from {}", hex(&other)));
                    }
                    return;
                }
                _ => vec![0, 0xa3, sym.len() as u8],
            };
            if o[1] != 0x80 {
                o.extend_from_slice(sym.as_bytes());
            }
            o.extend_from_slice(&b[3..]);
            match dec(&o) {
                Ok(v) if v == *want => {}
                v => cx.r.violation(p, &format!("differs/alone/{name}"), format!("{} -> {v:?}\nwanted {want:?}", hex(&o))),
            }
        }
    }
}

fn composites(cx: &mut Cx, r: &mut Rng, p: &str) {
    let code = *r.pick(&[
        0x10u64, 0x11, 0x12, 0x13, 0x14, 0x15, 0x16, 0x17, 0x18, 0x40, 0x41, 0x42, 0x43, 0x44, 0x23, 0x24, 0x25, 0x26, 0x27, 0x70, 0, 1, 2, 3,
    ]);
    if code < 4 {
        return conditions(cx, r, p, code);
    }
    let v = gtype(r, code);
    if !conv::representable(&v) {
        return;
    }
    let want = norm(v.clone()).expect("generator");
    macro_rules! frame {
        ($x:expr) => {{
            let x = $x;
            let w = Frame::from(x.clone());
            alone(cx, r, p, code, &|b| w.encode(b), &x, &want, &|x| match conv::t_frame(&Frame::from(x))? {
                Some((v, body)) if body.is_empty() => norm(v),
                x => Err(format!("{x:?}")),
            })
        }};
    }
    macro_rules! sasl {
        ($x:expr, $k:ident) => {{
            let x = $x;
            let w = SaslFrameBody::$k(x.clone());
            alone(cx, r, p, code, &|b| w.encode(b), &x, &want, &|x| norm(conv::t_sasl(&SaslFrameBody::$k(x))))
        }};
    }
    macro_rules! state {
        ($x:expr, $k:ident) => {{
            let x = $x;
            let w = DeliveryState::$k(x.clone());
            alone(cx, r, p, code, &|b| w.encode(b), &x, &want, &|x| conv::t_state(&DeliveryState::$k(x)).and_then(norm))
        }};
    }
    match code {
        0x10..=0x18 => match conv::frame(&v, &[]) {
            Frame::Open(x) => frame!(x),
            Frame::Begin(x) => frame!(x),
            Frame::Attach(x) => frame!(x),
            Frame::Flow(x) => frame!(x),
            Frame::Transfer(x) => frame!(x),
            Frame::Disposition(x) => frame!(x),
            Frame::Detach(x) => frame!(x),
            Frame::End(x) => frame!(x),
            Frame::Close(x) => frame!(x),
            Frame::Empty => {}
        },
        0x40..=0x44 => match conv::sasl(&v) {
            SaslFrameBody::SaslMechanisms(x) => sasl!(x, SaslMechanisms),
            SaslFrameBody::SaslInit(x) => sasl!(x, SaslInit),
            SaslFrameBody::SaslChallenge(x) => sasl!(x, SaslChallenge),
            SaslFrameBody::SaslResponse(x) => sasl!(x, SaslResponse),
            SaslFrameBody::SaslOutcome(x) => sasl!(x, SaslOutcome),
        },
        0x70 => {
            let Some(x) = conv::header(&v) else { return };
            let w = Section::Header(x.clone());
            alone(cx, r, p, code, &|b| w.encode(b), &x, &want, &|x| norm(conv::t_header(&x)));
        }
        _ => match conv::state(&v) {
            Some(DeliveryState::Received(x)) => state!(x, Received),
            Some(DeliveryState::Accepted(x)) => state!(x, Accepted),
            Some(DeliveryState::Rejected(x)) => state!(x, Rejected),
            Some(DeliveryState::Released(x)) => state!(x, Released),
            Some(DeliveryState::Modified(x)) => state!(x, Modified),
            None => {}
        },
    }
}

/// Error conditions by themselves, against the names of the specification
fn conditions(cx: &mut Cx, r: &mut Rng, p: &str, kind: u64) {
    macro_rules! one {
        ($t:ident, $n:expr, [$($k:ident = $s:expr),*]) => {{
            let all = [$(($t::$k, $s)),*];
            let (x, s) = r.pick(&all).clone();
            let mut b = BytesMut::new();
            x.encode(&mut b);
            cx.r.nontrivial(&b[..]);
            cx.r.count("error conditions encoded and decoded alone", 1);
            let want = [&[0xa3, s.len() as u8][..], s.as_bytes()].concat();
            let dec = |b: &[u8]| <$t as Decode>::decode(&mut Bytes::copy_from_slice(b));
            let ok = match p {
                "C02" => x.encoded_size() == b.len(),
                "C03" => b[..] == want[..],
                "C01" => dec(&b).is_ok_and(|y| y == x),
                _ => {
                    let long = [&[0xb3, 0, 0, 0, s.len() as u8][..], s.as_bytes()].concat();
                    let mut wrong = want.clone();
                    let i = r.range(2, wrong.len() - 1);
                    wrong[i] ^= 1;
                    dec(&want).is_ok_and(|y| y == x) && dec(&long).is_ok_and(|y| y == x) && dec(&wrong).is_err()
                }
            };
            if !ok {
                cx.r.violation(p, &format!("condition/{}", $n), format!("{x:?}: {} for {s}", hex(&b)));
            }
        }};
    }
    match kind {
        0 => one!(AmqpError, "amqp-error", [
            InternalError = "amqp:internal-error", NotFound = "amqp:not-found", UnauthorizedAccess = "amqp:unauthorized-access",
            DecodeError = "amqp:decode-error", ResourceLimitExceeded = "amqp:resource-limit-exceeded", NotAllowed = "amqp:not-allowed",
            InvalidField = "amqp:invalid-field", NotImplemented = "amqp:not-implemented", ResourceLocked = "amqp:resource-locked",
            PreconditionFailed = "amqp:precondition-failed", ResourceDeleted = "amqp:resource-deleted", IllegalState = "amqp:illegal-state",
            FrameSizeTooSmall = "amqp:frame-size-too-small"
        ]),
        1 => one!(ConnectionError, "connection-error", [
            ConnectionForced = "amqp:connection:forced", FramingError = "amqp:connection:framing-error", Redirect = "amqp:connection:redirect"
        ]),
        2 => one!(SessionError, "session-error", [
            WindowViolation = "amqp:session:window-violation", ErrantLink = "amqp:session:errant-link",
            HandleInUse = "amqp:session:handle-in-use", UnattachedHandle = "amqp:session:unattached-handle"
        ]),
        _ => one!(LinkError, "link-error", [
            DetachForced = "amqp:link:detach-forced", TransferLimitExceeded = "amqp:link:transfer-limit-exceeded",
            MessageSizeExceeded = "amqp:link:message-size-exceeded", Redirect = "amqp:link:redirect", Stolen = "amqp:link:stolen"
        ]),
    }
}

pub fn c02(cx: &mut Cx) {
    let n = cx.n(2_000_000, 40_000_000);
    cx.cases("c02", n, |cx, r, _| {
        let Some((mut it, _)) = item(r) else { return };
        let mut trail = vec![];
        if let Item::Msg(m) = &mut it {
            // measured, mutated, measured again
            let _ = m.encoded_size();
            for _ in 0..r.below(4) {
                let rich = r.chance(10);
                trail.push(mutate(r, m, rich));
            }
        }
        let k = match trail.last() {
            Some(t) => format!("message/after {t}"),
            None => kind(&it),
        };
        let size = match catch(|| it.size()) {
            Ok(s) => s,
            Err(p) => return cx.r.violation("C02", &format!("size-panic/{k}"), p),
        };
        let Ok(b) = catch(|| it.encode()) else { return };
        observe(cx, &it, &b);
        cx.r.count("sizes compared", 1);
        if size != b.len() {
            cx.r.violation("C02", &format!("size/{k}"), format!("encoded_size {size} but {} bytes emitted, after {trail:?}\n{}", b.len(), it.debug()));
        }
        // through the framing codec
        match &it {
            Item::Frame(f) => framed(cx, f.clone(), 0, f.channel_id(), &k),
            Item::Sasl(f) => framed(cx, f.clone(), 1, 0, &k),
            Item::Msg(m) => {
                // as the body of a transfer
                let mut t = Transfer::default();
                t.0.handle = 1;
                t.0.body = Some(TransferBody::from(m.clone()));
                framed(cx, AmqpFrame::new(7, Frame::Transfer(t)), 0, 7, &k);
            }
            Item::Value(_) => {}
        }
    });
    let n = cx.n(300_000, 4_000_000);
    cx.cases("c02.typed", n, |cx, r, _| typed(cx, r, "C02"));
    cx.cases("c02.alone", n, |cx, r, _| composites(cx, r, "C02"));
}

fn framed<T>(cx: &mut Cx, f: T, ftype: u8, ch: u16, k: &str)
where
    T: Encode + Decode + std::fmt::Debug + Clone,
{
    let mut b = BytesMut::new();
    b.extend_from_slice(b"xyz");
    let c = AmqpCodec::<T>::new();
    let r = catch(|| c.encode(f.clone(), &mut b));
    match r {
        Ok(Ok(())) => {}
        x => return cx.r.violation("C02", &format!("framed/{k}"), format!("{x:?} {f:?}")),
    }
    let b = &b[3..];
    let n = u32::from_be_bytes(b[..4].try_into().unwrap()) as usize;
    if n != b.len() || b[4] != 2 || b[5] != ftype || u16::from_be_bytes([b[6], b[7]]) != ch {
        cx.r.violation("C02", &format!("header/{k}"), format!("{} of {} bytes: {f:?}", hex(&b[..8]), b.len()));
    }
    cx.r.count("frame headers checked", 1);
}

pub fn c03(cx: &mut Cx) {
    let n = cx.n(2_000_000, 40_000_000);
    cx.cases("c03", n, |cx, r, _| {
        let Some((it, want)) = item(r) else { return };
        let k = kind(&it);
        let Ok(b) = catch(|| it.encode()) else {
            return cx.r.violation("C03", &format!("panic/{k}"), it.debug());
        };
        observe(cx, &it, &b);
        match wire_model(&it, &b) {
            Ok(got) if got == want => cx.r.count("wire images compared", 1),
            Ok(got) => cx.r.violation("C03", &format!("differs/{k}"), format!("put {want:?}\nwire {got:?}\n{}", hex(&b))),
            Err(e) => cx.r.violation("C03", &format!("malformed/{k}"), format!("{e}\n{}\n{}", hex(&b), it.debug())),
        }
    });
    let n = cx.n(300_000, 4_000_000);
    cx.cases("c03.typed", n, |cx, r, _| typed(cx, r, "C03"));
    cx.cases("c03.alone", n, |cx, r, _| composites(cx, r, "C03"));
}


// ---------- C06
/// the generated thing, encoded by the independent encoder, and what decoding must yield
pub fn c06(cx: &mut Cx) {
    let n = cx.n(300_000, 4_000_000);
    cx.cases("c06.alone", n, |cx, r, _| composites(cx, r, "C06"));
    let n = cx.n(2_000_000, 40_000_000);
    cx.cases("c06", n, |cx, r, i| {
        let mut st = Style::random(Rng::of("c06.style", cx.seed, i));
        match r.below(10) {
            0..=3 => {
                let d = depth(r);
                let v = one_level(gany(r, d));
                let b = wire::encode(&v, &mut st);
                alt(cx, &format!("value/{}", vname(&v)), &b, Model { ch: 0, vs: vec![v.canon()], body: vec![] }, |b| {
                    let mut i = Bytes::copy_from_slice(b);
                    Variant::decode(&mut i).map(|v| (Item::Value(v), i.len())).map_err(|e| format!("{e:?}"))
                });
            }
            4..=6 => {
                let code = r.range(0x10, 0x18) as u64;
                let v = gtype(r, code);
                let body = if code == TRANSFER { gbin(r) } else { vec![] };
                let ch = r.edge(16) as u16;
                let ext = if r.chance(30) { let n = r.range(1, 5) * 4; r.bytes(n) } else { vec![] };
                let b = build_frame(0, ch, Some(&v), &body, &mut st, &ext);
                // the independent decoder must agree with the independent encoder first
                let want = Model { ch, vs: vec![norm(v).expect("generator")], body };
                alt(cx, &format!("frame/{}", name_of(code)), &b, want, |b| {
                    let mut i = BytesMut::from(b);
                    let f = AmqpCodec::<AmqpFrame>::new().decode(&mut i).map_err(|e| format!("{e:?}"))?;
                    Ok((Item::Frame(f.ok_or("incomplete")?), i.len()))
                });
            }
            7 => {
                let code = r.range(0x40, 0x44) as u64;
                let v = gtype(r, code);
                let ext = if r.chance(30) { let n = r.range(1, 5) * 4; r.bytes(n) } else { vec![] };
                // the channel bytes are to be ignored in SASL frames
                let b = build_frame(1, 0, Some(&v), &[], &mut st, &ext);
                let want = Model { ch: 0, vs: vec![norm(v).expect("generator")], body: vec![] };
                alt(cx, &format!("sasl/{}", name_of(code)), &b, want, |b| {
                    let mut i = BytesMut::from(b);
                    let f = AmqpCodec::<SaslFrame>::new().decode(&mut i).map_err(|e| format!("{e:?}"))?;
                    Ok((Item::Sasl(f.ok_or("incomplete")?), i.len()))
                });
            }
            8 => {
                let secs = gsections(r);
                let mut b = vec![];
                for s in &secs {
                    wire::enc(s, &mut b, &mut st);
                }
                let vs = secs.into_iter().map(|s| norm(s).expect("generator")).collect();
                alt(cx, "message", &b, Model { ch: 0, vs, body: vec![] }, |b| {
                    let mut i = Bytes::copy_from_slice(b);
                    Message::decode(&mut i).map(|v| (Item::Msg(v), i.len())).map_err(|e| format!("{e:?}"))
                });
            }
            _ => missing(cx, r, &mut st),
        }
    });
    cx.cases("c06.pinned", 1, |cx, _, _| pinned06(cx));
}

fn vname(v: &V) -> String {
    format!("{v:?}").split(['(', '[', ' ']).next().unwrap_or("").to_string()
}

/// arrays of described elements: the element behind the descriptor is a plain type
fn one_level(v: V) -> V {
    match v {
        V::Array(l) if l.iter().any(|x| matches!(x, V::Desc(_, y) if matches!(**y, V::Desc(..)))) => V::Null,
        V::Array(l) => V::Array(l.into_iter().map(one_level).collect()),
        V::List(l) => V::List(l.into_iter().map(one_level).collect()),
        V::Map(m) => V::Map(m.into_iter().map(|(k, v)| (one_level(k), one_level(v))).fold(vec![], |mut m, (k, v)| {
            if !m.iter().any(|x: &(V, V)| x.0.clone().canon() == k.clone().canon()) {
                m.push((k, v));
            }
            m
        })),
        V::Desc(d, x) => V::Desc(d, Box::new(one_level(*x))),
        v => v,
    }
}

fn alt(cx: &mut Cx, k: &str, b: &[u8], want: Model, dec: impl Fn(&[u8]) -> Result<(Item, usize), String>) {
    cx.r.nontrivial(b);
    cx.r.count(&format!("decoded/{}", k.split('/').next().unwrap_or(k)), 1);
    cx.r.seen("kinds", k);
    if b.len() > 40 {
        cx.r.sample(|| format!("{k}: {}", hex(b)));
    }
    match catch(|| dec(b)) {
        Ok(Ok((it, 0))) => match it.model() {
            Ok(got) if got == want => cx.r.count("values compared", 1),
            Ok(got) => cx.r.violation("C06", &format!("differs/{k}"), format!("sent {want:?}\ngot  {got:?}\n{}", hex(b))),
            Err(e) => cx.r.violation("C06", &format!("model/{k}"), format!("{e}\n{}", hex(b))),
        },
        Ok(Ok((_, n))) => cx.r.violation("C06", &format!("left-over/{k}"), format!("{n} bytes left of {}", hex(b))),
        Ok(Err(e)) => cx.r.violation("C06", &format!("rejected/{k}"), format!("{e}\n{}\n{want:?}", hex(b))),
        Err(p) => cx.r.violation("C06", &format!("panic/{k}"), format!("{p}\n{}", hex(b))),
    }
}

fn gsections(r: &mut Rng) -> Vec<V> {
    let mut o = vec![];
    let mut d = |c: u64, v: V, r: &mut Rng| {
        let k = if r.chance(25) { V::Sym(schema::sym_of(c).unwrap().into()) } else { V::Ulong(c) };
        o.push(V::Desc(Box::new(k), Box::new(v)));
    };
    if r.chance(40) {
        let V::Desc(_, l) = gtype(r, 0x70) else { unreachable!() };
        d(0x70, *l, r);
    }
    if r.chance(25) {
        let m = one_level(gmap(r, 2, true));
        d(0x71, m, r);
    }
    if r.chance(25) {
        let m = one_level(gmap(r, 2, true));
        d(0x72, m, r);
    }
    if r.chance(50) {
        let V::Desc(_, l) = gtype(r, 0x73) else { unreachable!() };
        d(0x73, *l, r);
    }
    if r.chance(25) {
        let mut m = vec![];
        for _ in 0..r.below(5) {
            let k = V::Str(gstr(r));
            if !m.iter().any(|x: &(V, V)| x.0 == k) {
                m.push((k, gany(r, 0)));
            }
        }
        d(0x74, V::Map(m), r);
    }
    match r.below(4) {
        0 => {
            for _ in 0..r.range(1, 3) {
                let b = V::Bin(gbin(r));
                d(0x75, b, r);
            }
        }
        1 => {
            for _ in 0..r.range(1, 3) {
                let l = V::List((0..r.below(4)).map(|_| one_level(gany(r, 1))).collect());
                d(0x76, l, r);
            }
        }
        2 => {
            let v = one_level(gany(r, 2));
            d(0x77, v, r);
        }
        _ => {}
    }
    if r.chance(20) {
        let m = one_level(gmap(r, 1, true));
        d(0x78, m, r);
    }
    o
}

/// a mandatory field that is null or cut off must be an error
fn missing(cx: &mut Cx, r: &mut Rng, st: &mut Style) {
    let codes: Vec<u64> = TYPES
        .iter()
        .filter(|t| t.f.iter().any(|f| matches!(f.d, D::Mand)) && ((0x10..=0x18).contains(&t.code) || (0x40..=0x44).contains(&t.code)))
        .map(|t| t.code)
        .collect();
    let code = *r.pick(&codes);
    let t = ty(code).unwrap();
    let mand: Vec<usize> = (0..t.f.len()).filter(|i| matches!(t.f[*i].d, D::Mand)).collect();
    let i = *r.pick(&mand);
    let V::Desc(d, l) = gtype(r, code) else { unreachable!() };
    let V::List(mut l) = *l else { unreachable!() };
    l[i] = V::Null;
    if r.chance(50) {
        l.truncate(i);
    }
    let v = V::Desc(d, Box::new(V::List(l)));
    let sasl = code >= 0x40;
    let b = build_frame(u8::from(sasl), 0, Some(&v), &[], st, &[]);
    cx.r.nontrivial(&b);
    cx.r.count("missing mandatory field", 1);
    cx.r.seen("mandatory fields", &(code, i));
    let res = catch(|| {
        let mut x = BytesMut::from(&b[..]);
        if sasl {
            AmqpCodec::<SaslFrame>::new().decode(&mut x).map(|f| format!("{:?}", f.map(|f| f.body)))
        } else {
            AmqpCodec::<AmqpFrame>::new().decode(&mut x).map(|f| format!("{f:?}"))
        }
    });
    match res {
        Ok(Err(_)) => {}
        x => cx.r.violation("C06", &format!("mandatory/{}.{}", name_of(code), t.f[i].n), format!("absent {} accepted: {x:?}\n{}", t.f[i].n, hex(&b))),
    }
}

/// exact inputs of recorded findings
fn pinned06(cx: &mut Cx) {
    // a filter-set value is a described type (part 3, 3.5.8); here a selector string
    let f = V::Map(vec![(V::Sym("sel".into()), V::Desc(Box::new(V::Sym("apache.org:selector-filter:string".into())), Box::new(V::Str("a=1".into()))))]);
    let mut src = vec![V::Null; 8];
    src[0] = V::Str("q".into());
    src[7] = f;
    let a = desc(ATTACH, V::List(vec![V::Str("l".into()), V::Uint(0), V::Bool(true), V::Null, V::Null, desc(0x28, V::List(src)), V::Null]));
    let b = build_frame(0, 0, Some(&a), &[], &mut Style::smallest(), &[]);
    let mut x = BytesMut::from(&b[..]);
    if let Err(e) = AmqpCodec::<AmqpFrame>::new().decode(&mut x) {
        cx.r.violation("C06", "pinned/described-filter", format!("Attach whose source filter holds a described value is refused: {e:?}\n{}", hex(&b)));
    }
}

// ---------- C05
pub fn c05(cx: &mut Cx) {
    let n = cx.n(1_000_000, 20_000_000);
    cx.cases("c05", n, |cx, r, i| {
        let mut st = Style::random(Rng::of("c05.style", cx.seed, i));
        let sasl = r.chance(15);
        let n = r.range(1, 7);
        let mut frames: Vec<Vec<u8>> = vec![];
        for _ in 0..n {
            frames.push(rand_frame(r, sasl, &mut st));
        }
        let sizes: Vec<usize> = frames.iter().map(Vec::len).collect();
        let lim = match r.below(5) {
            0 => 0,
            1 => *r.pick(&sizes),
            2 => (*r.pick(&sizes)).saturating_sub(1),
            3 => *r.pick(&sizes) + 1,
            _ => r.range(8, 700),
        };
        // hostile declared sizes
        if r.chance(25) {
            let k = r.below(frames.len());
            let v = *r.pick(&[0u32, 1, 4, 5, 7, 8, 9, 0xffff_ffff, 0x7fff_ffff, lim as u32 + 1, 600]);
            frames[k][..4].copy_from_slice(&v.to_be_bytes());
        }
        if r.chance(10) {
            // malformed body
            let k = r.below(frames.len());
            let p = r.range(8, frames[k].len().max(9)).min(frames[k].len() - 1);
            if p >= 8 {
                frames[k][p] ^= 0x55;
            }
        }
        let all: Vec<u8> = frames.concat();
        let mut chunks = vec![];
        let mut at = 0;
        while at < all.len() {
            let c = match r.below(4) {
                0 => 1,
                1 => r.range(1, 4),
                2 => r.range(1, 40),
                _ => r.range(1, 400),
            }
            .min(all.len() - at);
            chunks.push(c);
            at += c;
        }
        if chunks.len() > 1 && frames.len() > 1 {
            cx.r.nontrivial(&(&all, &chunks));
        }
        cx.r.sample(|| format!("limit {lim}, frame sizes {sizes:?}, chunks {chunks:?}"));
        let res = if sasl {
            chunked::<SaslFrame>(cx, lim, &all, &chunks)
        } else {
            chunked::<AmqpFrame>(cx, lim, &all, &chunks)
        };
        if let Err((k, w)) = res {
            cx.r.violation("C05", &k, format!("{w}\nlimit {lim} chunks {chunks:?} bytes {}", hex(&all)));
        }
        // protocol header, chunked
        let h = [b"AMQP\x00\x01\x00\x00", b"AMQP\x03\x01\x00\x00", b"AMQP\x02\x01\x00\x00", b"AMQP\x00\x00\x09\x01", b"HTTP\x00\x01\x00\x00", b"AMQP\x07\x01\x00\x00"][r.below(6)];
        let c = ProtocolIdCodec;
        let mut buf = BytesMut::new();
        for (i, x) in h.iter().enumerate() {
            buf.extend_from_slice(&[*x]);
            if i == 7 {
                buf.extend_from_slice(b"tail");
            }
            let o = c.decode(&mut buf);
            let ok = match (i, h[0], h[4], h[5]) {
                (0..7, ..) => matches!(o, Ok(None)),
                (_, b'A', 0, 1) => matches!(o, Ok(Some(ProtocolId::Amqp))),
                (_, b'A', 2, 1) => matches!(o, Ok(Some(ProtocolId::AmqpTls))),
                (_, b'A', 3, 1) => matches!(o, Ok(Some(ProtocolId::AmqpSasl))),
                _ => o.is_err(),
            };
            if !ok || (i == 7 && buf.as_ref() != b"tail") {
                cx.r.violation("C05", "protocol-header", format!("{h:?} at byte {i}: {o:?}, left {buf:?}"));
            }
        }
    });
    let n = cx.n(4000, 60_000);
    crate::limits::cases(cx, n);
}

fn rand_frame(r: &mut Rng, sasl: bool, st: &mut Style) -> Vec<u8> {
    if !sasl && r.chance(15) {
        return build_frame(0, 0, None, &[], st, &[]);
    }
    let code = if sasl { r.range(0x40, 0x44) } else { r.range(0x10, 0x18) } as u64;
    let v = gtype(r, code);
    let body = if code == TRANSFER { gbin(r) } else { vec![] };
    build_frame(u8::from(sasl), r.edge(16) as u16, Some(&v), &body, st, &[])
}

/// Independent framing model: at which byte each frame completes or is refused.
#[derive(Debug, PartialEq, Clone)]
enum Ev {
    Frame(String),
    Refused,
}
trait Seen {
    fn seen(self) -> String;
}
impl Seen for AmqpFrame {
    fn seen(self) -> String {
        format!("{:?}", Item::Frame(self).model())
    }
}
impl Seen for SaslFrame {
    fn seen(self) -> String {
        format!("{:?}", Item::Sasl(self).model())
    }
}
fn solo<T: Decode + Encode + Seen>(fr: &[u8]) -> Result<String, ()> {
    // one frame alone, unlimited, in one piece
    let c = AmqpCodec::<T>::new();
    let mut b = BytesMut::from(fr);
    match c.decode(&mut b) {
        Ok(Some(f)) if b.is_empty() => Ok(f.seen()),
        _ => Err(()),
    }
}

fn chunked<T: Decode + Encode + Seen>(cx: &mut Cx, lim: usize, all: &[u8], chunks: &[usize]) -> Result<(), (String, String)> {
    // expectation: (offset at which the event must be reported, event, bytes consumed after it)
    let mut want: Vec<(usize, Ev, usize)> = vec![];
    let mut p = 0;
    while all.len() - p >= 8 {
        let size = u32::from_be_bytes(all[p..p + 4].try_into().unwrap()) as usize;
        if size < 8 || (lim != 0 && size > lim) {
            want.push((p + 8, Ev::Refused, 0));
            break;
        }
        if all.len() - p < size {
            break;
        }
        match solo::<T>(&all[p..p + size]) {
            Ok(f) => want.push((p + size, Ev::Frame(f), p + size)),
            Err(()) => {
                want.push((p + size, Ev::Refused, 0));
                break;
            }
        }
        p += size;
    }
    let c = AmqpCodec::<T>::new().max_size(lim);
    let mut buf = BytesMut::new();
    let mut fed = 0;
    let mut k = 0;
    'feed: for n in chunks {
        buf.extend_from_slice(&all[fed..fed + n]);
        fed += n;
        loop {
            let o = match catch(|| c.decode(&mut buf)) {
                Ok(o) => o,
                Err(p) => return Err(("panic".into(), p)),
            };
            match o {
                Ok(None) => {
                    if k < want.len() && want[k].0 <= fed {
                        return Err(("late".into(), format!("after {fed} bytes the codec waits, expected event {k} {:?}", want[k])));
                    }
                    break;
                }
                Ok(Some(f)) => {
                    let f = f.seen();
                    match want.get(k) {
                        Some((at, Ev::Frame(w), used)) if *at <= fed && *w == f => {
                            if buf.as_ref() != &all[*used..fed] {
                                return Err(("tail".into(), format!("unread bytes changed after frame {k}")));
                            }
                            cx.r.count("frames", 1);
                        }
                        w => return Err(("frame".into(), format!("event {k}: got {f}, expected {w:?} after {fed} bytes"))),
                    }
                    k += 1;
                }
                Err(e) => {
                    match want.get(k) {
                        Some((at, Ev::Refused, _)) if *at <= fed => {
                            cx.r.count("refusals", 1);
                            cx.r.seen("error kinds", &format!("{e:?}"));
                        }
                        w => return Err(("error".into(), format!("event {k}: got {e:?}, expected {w:?} after {fed} bytes"))),
                    }
                    k += 1;
                    break 'feed;
                }
            }
        }
    }
    if k != want.len() {
        return Err(("missing".into(), format!("{k} events of {}: next {:?}", want.len(), want.get(k))));
    }
    Ok(())
}

// ---------- C04
pub fn c04(cx: &mut Cx) {
    let n = cx.n(6_000_000, 120_000_000);
    cx.cases("c04", n, |cx, r, i| {
        let mut st = Style::random(Rng::of("c04.style", cx.seed, i));
        let b = hostile(r, &mut st);
        probe(cx, r, &b);
        if i % 8 == 0 {
            usable(cx);
        }
    });
    let n = cx.n(2400, 40_000);
    cx.cases("c04.big", n, |cx, r, i| {
        let b = big(r, i);
        probe(cx, r, &b);
    });
}

/// Whatever was refused before, the decoder works
fn usable(cx: &mut Cx) {
    thread_local!(static NEST: Bytes = {
        let mut b = vec![0x45u8];
        for _ in 0..60 {
            let mut c = vec![0xd0];
            c.extend((b.len() as u32 + 4).to_be_bytes());
            c.extend(1u32.to_be_bytes());
            c.extend(b);
            b = c;
        }
        Bytes::from(b)
    });
    let mut b = NEST.with(Clone::clone);
    cx.r.count("decoder probed after hostile input", 1);
    match catch(|| Variant::decode(&mut b)) {
        Ok(Ok(Variant::List(_))) if b.is_empty() => {}
        x => cx.r.violation("C04", "unusable-afterwards", format!("a conforming value, 60 lists within each other, was decoded as {:.200} after other input", format!("{x:?}"))),
    }
}

fn seedbytes(r: &mut Rng, st: &mut Style) -> Vec<u8> {
    match r.below(10) {
        0..=3 => {
            let d = depth(r);
            let v = gany(r, d);
            wire::encode(&v, st)
        }
        4..=6 => {
            let mut f = rand_frame(r, false, st);
            if r.chance(30) {
                f.drain(..8);
            }
            f
        }
        7 => rand_frame(r, true, st),
        _ => {
            let mut b = vec![];
            for s in gsections(r) {
                wire::enc(&s, &mut b, st);
            }
            b
        }
    }
}

const CODES: &[u8] = &[
    0x00, 0x40, 0x41, 0x42, 0x43, 0x44, 0x45, 0x50, 0x51, 0x52, 0x53, 0x54, 0x55, 0x56, 0x60, 0x61, 0x70, 0x71, 0x72, 0x73,
    0x74, 0x80, 0x81, 0x82, 0x83, 0x84, 0x94, 0x98, 0xa0, 0xa1, 0xa3, 0xb0, 0xb1, 0xb3, 0xc0, 0xc1, 0xd0, 0xd1, 0xe0, 0xf0,
];

fn hostile(r: &mut Rng, st: &mut Style) -> Vec<u8> {
    if r.chance(6) {
        let n = r.below(60);
        return (0..n).map(|_| if r.chance(60) { *r.pick(CODES) } else { r.u64() as u8 }).collect();
    }
    let mut b = seedbytes(r, st);
    for _ in 0..r.range(1, 4) {
        if b.is_empty() {
            break;
        }
        let p = r.below(b.len());
        match r.below(9) {
            0 => b[p] ^= 1 << r.below(8),
            1 => b[p] = *r.pick(&[0u8, 1, 2, 3, 4, 0x7f, 0x80, 0xfe, 0xff]),
            2 => b[p] = *r.pick(CODES),
            3 => b.truncate(p),
            4 => {
                if p + 4 <= b.len() {
                    let v = *r.pick(&[0u32, 1, 2, 3, 4, 5, 0xff, 0x100, 0xffff, 0x7fff_ffff, 0x8000_0000, 0xffff_fffb, 0xffff_ffff]);
                    b[p..p + 4].copy_from_slice(&v.to_be_bytes());
                }
            }
            5 => {
                let c = *r.pick(CODES);
                b.insert(p, c);
            }
            6 => {
                let o = seedbytes(r, st);
                let q = r.below(o.len() + 1);
                b.splice(p..p, o[..q].iter().copied());
            }
            7 => {
                b.remove(p);
            }
            _ => {
                // retarget a compound constructor's size or count
                if let Some(q) = (p..b.len()).find(|q| matches!(b[*q], 0xc0 | 0xc1 | 0xe0 | 0xd0 | 0xd1 | 0xf0)) {
                    let wide = b[q] & 0x10 != 0;
                    if wide && q + 9 <= b.len() {
                        let at = q + 1 + 4 * r.below(2);
                        let v = match r.below(3) {
                            0 => r.below(12) as u32,
                            1 => u32::from_be_bytes(b[at..at + 4].try_into().unwrap()).wrapping_add(r.below(9) as u32).wrapping_sub(4),
                            _ => r.edge(32) as u32,
                        };
                        b[at..at + 4].copy_from_slice(&v.to_be_bytes());
                    } else if q + 3 <= b.len() {
                        let at = q + 1 + r.below(2);
                        b[at] = if r.chance(50) { r.below(6) as u8 } else { b[at].wrapping_add(r.below(7) as u8).wrapping_sub(3) };
                    }
                }
            }
        }
    }
    b
}

/// deep nesting and amplification
fn big(r: &mut Rng, i: u64) -> Vec<u8> {
    let depth = *r.pick(&[100usize, 1000, 10_000, 60_000, 250_000]);
    match i % 10 {
        0 => {
            // descriptor of a descriptor …
            let mut b = vec![0u8; depth];
            b.extend([0x53, 1, 0x40]);
            b
        }
        1 => {
            // described value nested on the value side
            let mut b = vec![];
            for _ in 0..depth {
                b.extend([0x00, 0x53, 0x01]);
            }
            b.push(0x40);
            b
        }
        2 | 3 => {
            // lists (or maps) within lists, sizes exact
            let map = i % 10 == 3;
            let depth = depth.min(60_000);
            let mut inner = vec![0x40u8];
            let mut out = vec![];
            let per = if map { 10 } else { 9 };
            for k in 0..depth {
                let rest = (depth - 1 - k) * per + inner.len();
                out.push(if map { 0xd1 } else { 0xd0 });
                out.extend((4 + u32::from(map) + rest as u32).to_be_bytes());
                out.extend((1 + u32::from(map)).to_be_bytes());
                if map {
                    out.push(0x40);
                }
            }
            out.append(&mut inner);
            out
        }
        4 => {
            // huge counts
            let c = *r.pick(&[0xd0u8, 0xd1, 0xf0]);
            let mut b = vec![c];
            b.extend((*r.pick(&[4u32, 5, 6, 100, 0x00ff_ffff, u32::MAX])).to_be_bytes());
            b.extend((*r.pick(&[u32::MAX, u32::MAX - 1, 1 << 30, 1 << 24, 1_000_000])).to_be_bytes());
            let k = r.below(40);
            b.push(*r.pick(CODES));
            b.extend(r.bytes(k));
            b
        }
        5 => {
            // arrays of zero-width elements inside a list, many times
            let mut one = vec![0xf0u8];
            one.extend(5u32.to_be_bytes());
            one.extend((*r.pick(&[u32::MAX, 1 << 26, 1 << 20])).to_be_bytes());
            one.push(*r.pick(&[0x40u8, 0x41, 0x42, 0x43, 0x44, 0x45]));
            let n = r.range(1, 200);
            let mut b = vec![0xd0];
            b.extend((4 + (one.len() * n) as u32).to_be_bytes());
            b.extend((n as u32).to_be_bytes());
            for _ in 0..n {
                b.extend(&one);
            }
            b
        }
        6 => {
            // performative with a huge field list
            let mut b = vec![0x00, 0x53, r.range(0x10, 0x18) as u8, 0xd0];
            let n = r.range(1000, 60_000);
            b.extend((4 + n as u32).to_be_bytes());
            b.extend((n as u32).to_be_bytes());
            b.extend(vec![0x40u8; n]);
            b
        }
        7 => {
            // multiple symbols / vec of zero-width in an Open
            let mut b = vec![0x00, 0x53, 0x40, 0xd0];
            let mut arr = vec![0xf0u8];
            arr.extend((5u32 + 1).to_be_bytes());
            arr.extend(u32::MAX.to_be_bytes());
            arr.push(0xa3);
            arr.push(0);
            b.extend((4 + arr.len() as u32).to_be_bytes());
            b.extend(1u32.to_be_bytes());
            b.extend(arr);
            b
        }
        8 => {
            // list of many small lists: legitimate, but must not blow up
            let n = r.range(1000, 40_000);
            let mut b = vec![0xd0];
            b.extend((4 + n as u32).to_be_bytes());
            b.extend((n as u32).to_be_bytes());
            b.extend(vec![0x45u8; n]);
            b
        }
        _ => {
            // maps as keys of maps as keys …
            let d = r.range(2, 60);
            let mut v = V::Map(vec![(V::Uint(1), V::Null)]);
            for _ in 0..d {
                v = V::Map(vec![(v, V::Null)]);
            }
            wire::encode(&v, &mut Style::smallest())
        }
    }
}

/// memory a decode may hold per input byte (one byte can legitimately become one list element)
const AMP: usize = 512;
const BASE: usize = 4 << 20;

fn probe(cx: &mut Cx, r: &mut Rng, b: &[u8]) {
    if b.len() > 1 {
        cx.r.nontrivial(b);
    }
    if b.len() < 300 {
        cx.r.sample(|| hex(b));
    }
    entry(cx, b, "Variant", |b| Variant::decode(&mut Bytes::copy_from_slice(b)).map(|v| format!("{:?}", kindv(&v))).map_err(|e| format!("{e:?}")));
    entry(cx, b, "Message", |b| Message::decode(&mut Bytes::copy_from_slice(b)).map(|m| m.encoded_size().to_string()).map_err(|e| format!("{e:?}")));
    // as whole frames, as they are and with a valid header in front
    let framed = {
        let mut f = ((b.len() + 8) as u32).to_be_bytes().to_vec();
        f.extend([2, r.below(2) as u8, 0, 0]);
        f.extend_from_slice(b);
        f
    };
    for f in [b, &framed[..]] {
        entry(cx, f, "AmqpFrame", |b| frames::<AmqpFrame>(b));
        entry(cx, f, "SaslFrame", |b| frames::<SaslFrame>(b));
    }
    macro_rules! e {
        ($n:expr, $t:ty) => {
            entry(cx, b, $n, |b| <$t as Decode>::decode(&mut Bytes::copy_from_slice(b)).map(|_| String::new()).map_err(|e| format!("{e:?}")))
        };
    }
    match r.below(16) {
        0 => e!("List", List),
        1 => e!("Vec<u32>", Vec<u32>),
        2 => e!("Vec<bool>", Vec<bool>),
        3 => e!("Vec<Symbol>", Vec<Symbol>),
        4 => e!("HashMap", HashMap<Symbol, Variant>),
        5 => e!("VecStringMap", VecStringMap),
        6 => e!("VecSymbolMap", VecSymbolMap),
        7 => e!("Multiple", Multiple<Symbol>),
        8 => e!("Descriptor", Descriptor),
        9 => e!("Timestamp", chrono::DateTime<chrono::Utc>),
        10 => e!("Error", Error),
        11 => e!("Properties", Properties),
        12 => e!("Source", Source),
        13 => e!("DeliveryState", DeliveryState),
        14 => {
            entry(cx, b, "ProtocolId", |b| ProtocolIdCodec.decode(&mut BytesMut::from(b)).map(|_| String::new()).map_err(|e| format!("{e:?}")));
        }
        _ => {
            entry(cx, b, "Array", |b| {
                let a: Array = <Array as Decode>::decode(&mut Bytes::copy_from_slice(b)).map_err(|e| format!("{e:?}"))?;
                let _ = a.decode::<Variant>();
                let _ = a.decode::<u32>();
                let _ = a.decode::<bool>();
                let _ = a.decode::<Symbol>();
                Ok(String::new())
            });
        }
    }
}
fn kindv(v: &Variant) -> usize {
    v.encoded_size()
}
fn frames<T: Decode + Encode + std::fmt::Debug>(b: &[u8]) -> Result<String, String> {
    let c = AmqpCodec::<T>::new();
    let mut buf = BytesMut::from(b);
    let mut n = 0;
    // keep going after an error too: a failed decode must not poison the codec
    for _ in 0..4 {
        match c.decode(&mut buf) {
            Ok(Some(_)) => n += 1,
            Ok(None) => return Ok(n.to_string()),
            Err(e) => {
                let _ = c.decode(&mut buf);
                return Err(format!("{e:?}"));
            }
        }
    }
    Ok(n.to_string())
}

fn entry(cx: &mut Cx, b: &[u8], name: &str, f: impl FnOnce(&[u8]) -> Result<String, String>) {
    let base = report::peak_reset();
    let o = catch(|| f(b));
    let used = report::peak_since(base);
    match o {
        Ok(Ok(_)) => cx.r.count(&format!("decoded/{name}"), 1),
        Ok(Err(e)) => {
            cx.r.count(&format!("refused/{name}"), 1);
            let e: String = e.split(['(', '{']).next().unwrap_or("").to_string();
            cx.r.seen("refusal kinds", &(name, e));
        }
        Err(p) => cx.r.violation("C04", &format!("panic@{}", panic_site(&p)), format!("{name}: {p}\n{}", hex(b))),
    }
    if used > BASE + AMP * b.len() {
        cx.r.violation("C04", &format!("memory/{name}"), format!("{used} bytes of heap to decode {} bytes\n{}", b.len(), hex(b)));
    }
}
