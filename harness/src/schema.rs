//! Field tables of the AMQP 1.0 performatives, sections, terminus and outcome types, transcribed
//! from the specification (parts 2, 3 and 5), with random generation and normalisation.
use crate::rng::Rng;
use crate::wire::V;

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum T {
    Bool,
    Ubyte,
    Ushort,
    Uint,
    Ulong,
    Str,
    Sym,
    Bin,
    Ts,
    Fields,
    AnyMap,
    Annot,
    Syms, // multiple symbols
    Role,
    SndMode,
    RcvMode,
    Durability,
    Expiry,
    DistMode,
    Filter,
    SaslCode,
    Cond,
    Error,
    Source,
    Target,
    State,
    Outcome,
    MsgId,
}

#[derive(Clone, Copy)]
pub enum D {
    /// no default: absent means null
    None,
    Mand,
    U(u64),
    B(bool),
    Sym(&'static str),
}

pub struct F {
    pub n: &'static str,
    pub t: T,
    pub d: D,
}
const fn f(n: &'static str, t: T, d: D) -> F {
    F { n, t, d }
}

pub struct Ty {
    pub code: u64,
    pub sym: &'static str,
    pub f: &'static [F],
}

pub const OPEN: u64 = 0x10;
pub const BEGIN: u64 = 0x11;
pub const ATTACH: u64 = 0x12;
pub const FLOW: u64 = 0x13;
pub const TRANSFER: u64 = 0x14;
pub const DISPOSITION: u64 = 0x15;
pub const DETACH: u64 = 0x16;
pub const END: u64 = 0x17;
pub const CLOSE: u64 = 0x18;

pub static TYPES: &[Ty] = &[
    Ty {
        code: 0x10,
        sym: "amqp:open:list",
        f: &[
            f("container-id", T::Str, D::Mand),
            f("hostname", T::Str, D::None),
            f("max-frame-size", T::Uint, D::U(4294967295)),
            f("channel-max", T::Ushort, D::U(65535)),
            f("idle-time-out", T::Uint, D::None),
            f("outgoing-locales", T::Syms, D::None),
            f("incoming-locales", T::Syms, D::None),
            f("offered-capabilities", T::Syms, D::None),
            f("desired-capabilities", T::Syms, D::None),
            f("properties", T::Fields, D::None),
        ],
    },
    Ty {
        code: 0x11,
        sym: "amqp:begin:list",
        f: &[
            f("remote-channel", T::Ushort, D::None),
            f("next-outgoing-id", T::Uint, D::Mand),
            f("incoming-window", T::Uint, D::Mand),
            f("outgoing-window", T::Uint, D::Mand),
            f("handle-max", T::Uint, D::U(4294967295)),
            f("offered-capabilities", T::Syms, D::None),
            f("desired-capabilities", T::Syms, D::None),
            f("properties", T::Fields, D::None),
        ],
    },
    Ty {
        code: 0x12,
        sym: "amqp:attach:list",
        f: &[
            f("name", T::Str, D::Mand),
            f("handle", T::Uint, D::Mand),
            f("role", T::Role, D::Mand),
            f("snd-settle-mode", T::SndMode, D::U(2)),
            f("rcv-settle-mode", T::RcvMode, D::U(0)),
            f("source", T::Source, D::None),
            f("target", T::Target, D::None),
            f("unsettled", T::AnyMap, D::None),
            f("incomplete-unsettled", T::Bool, D::B(false)),
            f("initial-delivery-count", T::Uint, D::None),
            f("max-message-size", T::Ulong, D::None),
            f("offered-capabilities", T::Syms, D::None),
            f("desired-capabilities", T::Syms, D::None),
            f("properties", T::Fields, D::None),
        ],
    },
    Ty {
        code: 0x13,
        sym: "amqp:flow:list",
        f: &[
            f("next-incoming-id", T::Uint, D::None),
            f("incoming-window", T::Uint, D::Mand),
            f("next-outgoing-id", T::Uint, D::Mand),
            f("outgoing-window", T::Uint, D::Mand),
            f("handle", T::Uint, D::None),
            f("delivery-count", T::Uint, D::None),
            f("link-credit", T::Uint, D::None),
            f("available", T::Uint, D::None),
            f("drain", T::Bool, D::B(false)),
            f("echo", T::Bool, D::B(false)),
            f("properties", T::Fields, D::None),
        ],
    },
    Ty {
        code: 0x14,
        sym: "amqp:transfer:list",
        f: &[
            f("handle", T::Uint, D::Mand),
            f("delivery-id", T::Uint, D::None),
            f("delivery-tag", T::Bin, D::None),
            f("message-format", T::Uint, D::None),
            f("settled", T::Bool, D::None),
            f("more", T::Bool, D::B(false)),
            f("rcv-settle-mode", T::RcvMode, D::None),
            f("state", T::State, D::None),
            f("resume", T::Bool, D::B(false)),
            f("aborted", T::Bool, D::B(false)),
            f("batchable", T::Bool, D::B(false)),
        ],
    },
    Ty {
        code: 0x15,
        sym: "amqp:disposition:list",
        f: &[
            f("role", T::Role, D::Mand),
            f("first", T::Uint, D::Mand),
            f("last", T::Uint, D::None),
            f("settled", T::Bool, D::B(false)),
            f("state", T::State, D::None),
            f("batchable", T::Bool, D::B(false)),
        ],
    },
    Ty {
        code: 0x16,
        sym: "amqp:detach:list",
        f: &[
            f("handle", T::Uint, D::Mand),
            f("closed", T::Bool, D::B(false)),
            f("error", T::Error, D::None),
        ],
    },
    Ty { code: 0x17, sym: "amqp:end:list", f: &[f("error", T::Error, D::None)] },
    Ty { code: 0x18, sym: "amqp:close:list", f: &[f("error", T::Error, D::None)] },
    Ty {
        code: 0x1d,
        sym: "amqp:error:list",
        f: &[
            f("condition", T::Cond, D::Mand),
            f("description", T::Str, D::None),
            f("info", T::Fields, D::None),
        ],
    },
    Ty {
        code: 0x23,
        sym: "amqp:received:list",
        f: &[f("section-number", T::Uint, D::Mand), f("section-offset", T::Ulong, D::Mand)],
    },
    Ty { code: 0x24, sym: "amqp:accepted:list", f: &[] },
    Ty { code: 0x25, sym: "amqp:rejected:list", f: &[f("error", T::Error, D::None)] },
    Ty { code: 0x26, sym: "amqp:released:list", f: &[] },
    Ty {
        code: 0x27,
        sym: "amqp:modified:list",
        f: &[
            f("delivery-failed", T::Bool, D::None),
            f("undeliverable-here", T::Bool, D::None),
            f("message-annotations", T::Fields, D::None),
        ],
    },
    Ty {
        code: 0x28,
        sym: "amqp:source:list",
        f: &[
            f("address", T::Str, D::None),
            f("durable", T::Durability, D::U(0)),
            f("expiry-policy", T::Expiry, D::Sym("session-end")),
            f("timeout", T::Uint, D::U(0)),
            f("dynamic", T::Bool, D::B(false)),
            f("dynamic-node-properties", T::Fields, D::None),
            f("distribution-mode", T::DistMode, D::None),
            f("filter", T::Filter, D::None),
            f("default-outcome", T::Outcome, D::None),
            f("outcomes", T::Syms, D::None),
            f("capabilities", T::Syms, D::None),
        ],
    },
    Ty {
        code: 0x29,
        sym: "amqp:target:list",
        f: &[
            f("address", T::Str, D::None),
            f("durable", T::Durability, D::U(0)),
            f("expiry-policy", T::Expiry, D::Sym("session-end")),
            f("timeout", T::Uint, D::U(0)),
            f("dynamic", T::Bool, D::B(false)),
            f("dynamic-node-properties", T::Fields, D::None),
            f("capabilities", T::Syms, D::None),
        ],
    },
    Ty { code: 0x40, sym: "amqp:sasl-mechanisms:list", f: &[f("sasl-server-mechanisms", T::Syms, D::Mand)] },
    Ty {
        code: 0x41,
        sym: "amqp:sasl-init:list",
        f: &[
            f("mechanism", T::Sym, D::Mand),
            f("initial-response", T::Bin, D::None),
            f("hostname", T::Str, D::None),
        ],
    },
    Ty { code: 0x42, sym: "amqp:sasl-challenge:list", f: &[f("challenge", T::Bin, D::Mand)] },
    Ty { code: 0x43, sym: "amqp:sasl-response:list", f: &[f("response", T::Bin, D::Mand)] },
    Ty {
        code: 0x44,
        sym: "amqp:sasl-outcome:list",
        f: &[f("code", T::SaslCode, D::Mand), f("additional-data", T::Bin, D::None)],
    },
    Ty {
        code: 0x70,
        sym: "amqp:header:list",
        f: &[
            f("durable", T::Bool, D::B(false)),
            f("priority", T::Ubyte, D::U(4)),
            f("ttl", T::Uint, D::None),
            f("first-acquirer", T::Bool, D::B(false)),
            f("delivery-count", T::Uint, D::U(0)),
        ],
    },
    Ty {
        code: 0x73,
        sym: "amqp:properties:list",
        f: &[
            f("message-id", T::MsgId, D::None),
            f("user-id", T::Bin, D::None),
            f("to", T::Str, D::None),
            f("subject", T::Str, D::None),
            f("reply-to", T::Str, D::None),
            f("correlation-id", T::MsgId, D::None),
            f("content-type", T::Sym, D::None),
            f("content-encoding", T::Sym, D::None),
            f("absolute-expiry-time", T::Ts, D::None),
            f("creation-time", T::Ts, D::None),
            f("group-id", T::Str, D::None),
            f("group-sequence", T::Uint, D::None),
            f("reply-to-group-id", T::Str, D::None),
        ],
    },
];

/// symbolic names of message sections that are not lists of fields
pub static SECTIONS: &[(u64, &str)] = &[
    (0x71, "amqp:delivery-annotations:map"),
    (0x72, "amqp:message-annotations:map"),
    (0x74, "amqp:application-properties:map"),
    (0x75, "amqp:data:binary"),
    (0x76, "amqp:amqp-sequence:list"),
    (0x77, "amqp:amqp-value:*"),
    (0x78, "amqp:footer:map"),
];

pub fn ty(code: u64) -> Option<&'static Ty> {
    TYPES.iter().find(|t| t.code == code)
}
pub fn code_of(s: &str) -> Option<u64> {
    TYPES
        .iter()
        .find(|t| t.sym == s)
        .map(|t| t.code)
        .or_else(|| SECTIONS.iter().find(|x| x.1 == s).map(|x| x.0))
}
pub fn sym_of(code: u64) -> Option<&'static str> {
    ty(code).map(|t| t.sym).or_else(|| SECTIONS.iter().find(|x| x.0 == code).map(|x| x.1))
}
pub fn name_of(code: u64) -> &'static str {
    match code {
        0x10 => "Open",
        0x11 => "Begin",
        0x12 => "Attach",
        0x13 => "Flow",
        0x14 => "Transfer",
        0x15 => "Disposition",
        0x16 => "Detach",
        0x17 => "End",
        0x18 => "Close",
        0x40 => "SaslMechanisms",
        0x41 => "SaslInit",
        0x42 => "SaslChallenge",
        0x43 => "SaslResponse",
        0x44 => "SaslOutcome",
        _ => "?",
    }
}

fn default_v(fd: &F) -> V {
    match fd.d {
        D::None | D::Mand => V::Null,
        D::B(b) => V::Bool(b),
        D::Sym(s) => V::Sym(s.into()),
        D::U(n) => match fd.t {
            T::Ushort => V::Ushort(n as u16),
            T::Ubyte | T::SndMode | T::RcvMode | T::SaslCode => V::Ubyte(n as u8),
            T::Ulong => V::Ulong(n),
            _ => V::Uint(n as u32),
        },
    }
}

/// Checks a described list against its table and returns the full, defaulted list of field values
/// (nested described fields normalised too).  Err: the reason it does not conform.
pub fn normalise(code: u64, fields: &[V]) -> Result<Vec<V>, String> {
    let t = ty(code).ok_or_else(|| format!("unknown type {code:#x}"))?;
    if fields.len() > t.f.len() {
        return Err(format!("{}: {} fields, at most {}", t.sym, fields.len(), t.f.len()));
    }
    let mut out = vec![];
    for (i, fd) in t.f.iter().enumerate() {
        let v = fields.get(i).cloned().unwrap_or(V::Null);
        let v = if v.is_null() {
            if matches!(fd.d, D::Mand) {
                return Err(format!("{}.{} mandatory but absent", t.sym, fd.n));
            }
            default_v(fd)
        } else {
            check_field(fd, v).map_err(|x| format!("{}.{}: {x}", t.sym, fd.n))?
        };
        out.push(v);
    }
    Ok(out)
}

fn nested(v: V, allowed: &[u64]) -> Result<V, String> {
    if let V::Desc(d, l) = v {
        let c = match &*d {
            V::Ulong(c) => *c,
            V::Sym(s) => code_of(s).ok_or_else(|| format!("descriptor {s}"))?,
            x => return Err(format!("descriptor {x:?}")),
        };
        if !allowed.contains(&c) {
            return Err(format!("descriptor {c:#x} not allowed here"));
        }
        if let V::List(l) = *l {
            return Ok(V::Desc(Box::new(V::Ulong(c)), Box::new(V::List(normalise(c, &l)?))));
        }
        return Err("not a list".into());
    }
    Err(format!("not a described value: {v:?}"))
}

fn check_field(fd: &F, v: V) -> Result<V, String> {
    let bad = |v: &V| Err(format!("wrong type {v:?}"));
    match fd.t {
        T::Bool | T::Role => match v {
            V::Bool(_) => Ok(v),
            _ => bad(&v),
        },
        T::Ubyte => matches!(v, V::Ubyte(_)).then_some(v.clone()).ok_or(format!("wrong type {v:?}")),
        T::SndMode => matches!(v, V::Ubyte(0..=2)).then_some(v.clone()).ok_or(format!("bad mode {v:?}")),
        T::RcvMode => matches!(v, V::Ubyte(0..=1)).then_some(v.clone()).ok_or(format!("bad mode {v:?}")),
        T::SaslCode => matches!(v, V::Ubyte(0..=4)).then_some(v.clone()).ok_or(format!("bad code {v:?}")),
        T::Ushort => matches!(v, V::Ushort(_)).then_some(v.clone()).ok_or(format!("wrong type {v:?}")),
        T::Uint => matches!(v, V::Uint(_)).then_some(v.clone()).ok_or(format!("wrong type {v:?}")),
        T::Durability => {
            matches!(v, V::Uint(0..=2)).then_some(v.clone()).ok_or(format!("bad durability {v:?}"))
        }
        T::Ulong => matches!(v, V::Ulong(_)).then_some(v.clone()).ok_or(format!("wrong type {v:?}")),
        T::Str => matches!(v, V::Str(_)).then_some(v.clone()).ok_or(format!("wrong type {v:?}")),
        T::Sym | T::Cond | T::DistMode => {
            matches!(v, V::Sym(_)).then_some(v.clone()).ok_or(format!("wrong type {v:?}"))
        }
        T::Expiry => match &v {
            V::Sym(s)
                if ["link-detach", "session-end", "connection-close", "never"].contains(&s.as_str()) =>
            {
                Ok(v)
            }
            _ => bad(&v),
        },
        T::Bin => matches!(v, V::Bin(_)).then_some(v.clone()).ok_or(format!("wrong type {v:?}")),
        T::Ts => matches!(v, V::Ts(_)).then_some(v.clone()).ok_or(format!("wrong type {v:?}")),
        T::Fields | T::Annot | T::Filter => match &v {
            V::Map(m) => {
                for (k, _) in m {
                    if !matches!(k, V::Sym(_)) {
                        return Err(format!("map key {k:?} not a symbol"));
                    }
                }
                Ok(v.canon())
            }
            _ => bad(&v),
        },
        T::AnyMap => match &v {
            V::Map(_) => Ok(v.canon()),
            _ => bad(&v),
        },
        T::Syms => match v {
            V::Sym(_) => Ok(V::Array(vec![v])),
            V::Array(ref a) => {
                if a.iter().all(|x| matches!(x, V::Sym(_))) {
                    Ok(v)
                } else {
                    bad(&v)
                }
            }
            _ => bad(&v),
        },
        T::Error => nested(v, &[0x1d]),
        T::Source => nested(v, &[0x28]),
        T::Target => nested(v, &[0x29]),
        T::State => nested(v, &[0x23, 0x24, 0x25, 0x26, 0x27]),
        T::Outcome => nested(v, &[0x24, 0x25, 0x26, 0x27]),
        T::MsgId => match v {
            V::Ulong(_) | V::Uuid(_) | V::Bin(_) | V::Str(_) => Ok(v),
            _ => bad(&v),
        },
    }
}

pub fn gstr(r: &mut Rng) -> String {
    let n = match r.below(10) {
        0 => 0,
        1..=6 => r.range(1, 12),
        7 => r.range(13, 60),
        8 => *r.pick(&[254usize, 255, 256, 257, 127, 128]),
        _ => r.range(1, 300),
    };
    let mut s = String::new();
    let uni = r.chance(20);
    while s.len() < n {
        let c = if uni {
            *r.pick(&['a', 'é', '世', '\u{1F4AF}', '\0', ' ', 'ß', 'z', '\u{10FFFF}'])
        } else {
            char::from(r.range(32, 126) as u8)
        };
        s.push(c);
    }
    s
}
pub fn gsym(r: &mut Rng) -> String {
    let n = match r.below(10) {
        0 => 0,
        1..=7 => r.range(1, 14),
        8 => *r.pick(&[254usize, 255, 256, 257]),
        _ => r.range(1, 80),
    };
    (0..n).map(|_| char::from(r.range(33, 126) as u8)).collect()
}
pub fn gbin(r: &mut Rng) -> Vec<u8> {
    let n = match r.below(10) {
        0 => 0,
        1..=6 => r.range(1, 16),
        7 => *r.pick(&[253usize, 254, 255, 256, 257]),
        8 => r.range(1, 600),
        _ => r.range(1, 40),
    };
    r.bytes(n)
}

/// milliseconds a calendar date type can represent
pub fn gts(r: &mut Rng) -> i64 {
    match r.below(8) {
        0 => *r.pick(&[0i64, -1, 1, -999, -1000, -1001, 999, 1000, -2000, -500]),
        1 => 1_311_704_463_521,
        2 => -(r.below(100_000) as i64),
        3 => -(r.below(100_000) as i64) * 1000,
        4 => r.below(1_000_000) as i64,
        5 => (r.u64() % 4_000_000_000_000) as i64,
        6 => -((r.u64() % 4_000_000_000_000) as i64),
        // years -200000..200000
        _ => (r.u64() as i64) % 6_000_000_000_000_000,
    }
}

/// random value of any type; `d` bounds nesting
pub fn gany(r: &mut Rng, d: usize) -> V {
    let n = if d == 0 { 21 } else { 27 };
    match r.below(n) {
        0 => V::Null,
        1 => V::Bool(r.chance(50)),
        2 => V::Ubyte(r.edge(8) as u8),
        3 => V::Ushort(r.edge(16) as u16),
        4 => V::Uint(r.edge(32) as u32),
        5 => V::Ulong(r.edge(64)),
        6 => V::Byte(r.edge(8) as i8),
        7 => V::Short(r.edge(16) as i16),
        8 => V::Int(if r.chance(50) { r.below(600) as i32 - 300 } else { r.edge(32) as i32 }),
        9 => V::Long(if r.chance(50) { r.below(600) as i64 - 300 } else { r.edge(64) as i64 }),
        10 => V::Float((r.below(100_000) as f32 / 7.0 - 500.0).to_bits()),
        11 => V::Double((r.below(100_000_000) as f64 / 7.0 - 5000.0).to_bits()),
        12 => V::Dec32(r.bytes(4).try_into().unwrap()),
        13 => V::Dec64(r.bytes(8).try_into().unwrap()),
        14 => V::Dec128(r.bytes(16).try_into().unwrap()),
        15 => {
            let c = loop {
                let c = if r.chance(50) { r.below(128) as u32 } else { r.u32() % 0x11_0000 };
                if char::from_u32(c).is_some() {
                    break c;
                }
            };
            V::Char(c)
        }
        16 => V::Ts(gts(r)),
        17 => V::Uuid(r.bytes(16).try_into().unwrap()),
        18 => V::Bin(gbin(r)),
        19 => V::Str(gstr(r)),
        20 => V::Sym(gsym(r)),
        21 | 22 => V::List((0..gcount(r)).map(|_| gany(r, d - 1)).collect()),
        23 | 24 => gmap(r, d - 1, false),
        25 => garray(r, d - 1),
        _ => {
            let de = if r.chance(50) { V::Ulong(r.edge(64)) } else { V::Sym(gsym(r)) };
            V::Desc(Box::new(de), Box::new(gany(r, d - 1)))
        }
    }
}
fn gcount(r: &mut Rng) -> usize {
    match r.below(12) {
        0 => 0,
        1 => 1,
        11 => *r.pick(&[60usize, 127, 128, 254, 255, 256]),
        _ => r.range(1, 6),
    }
}
pub fn gmap(r: &mut Rng, d: usize, symkeys: bool) -> V {
    let n = if r.chance(5) { r.range(20, 130) } else { r.below(5) };
    let mut m: Vec<(V, V)> = vec![];
    for i in 0..n {
        let k = if symkeys { V::Sym(gsym(r)) } else if n > 20 { V::Uint(i as u32) } else { gany(r, d.min(1)) };
        let kc = k.clone().canon();
        if !m.iter().any(|(x, _)| x.clone().canon() == kc) {
            let v = if n > 20 { gany(r, 0) } else { gany(r, d) };
            m.push((k, v));
        }
    }
    V::Map(m)
}
fn garray(r: &mut Rng, d: usize) -> V {
    let n = gcount(r);
    let kind = gany(r, d);
    let mut out = vec![];
    while out.len() < n {
        out.push(like(r, &kind, d));
    }
    V::Array(out)
}
/// another value with the same outermost type
fn like(r: &mut Rng, k: &V, d: usize) -> V {
    match k {
        V::Null => V::Null,
        V::Desc(de, x) => V::Desc(de.clone(), Box::new(like(r, x, d.saturating_sub(1)))),
        V::List(_) => V::List((0..r.below(4)).map(|_| gany(r, 0)).collect()),
        V::Map(_) => gmap(r, 0, false),
        V::Array(_) => V::Array((0..r.below(4)).map(|_| V::Uint(r.edge(32) as u32)).collect()),
        V::Bool(_) => V::Bool(r.chance(50)),
        V::Ubyte(_) => V::Ubyte(r.edge(8) as u8),
        V::Ushort(_) => V::Ushort(r.edge(16) as u16),
        V::Uint(_) => V::Uint(r.edge(32) as u32),
        V::Ulong(_) => V::Ulong(r.edge(64)),
        V::Int(_) => V::Int(r.edge(32) as i32),
        V::Long(_) => V::Long(r.edge(64) as i64),
        V::Bin(_) => V::Bin(gbin(r)),
        V::Str(_) => V::Str(gstr(r)),
        V::Sym(_) => V::Sym(gsym(r)),
        x => x.clone(),
    }
}

pub static CONDS: &[&str] = &[
    "amqp:internal-error",
    "amqp:not-found",
    "amqp:unauthorized-access",
    "amqp:decode-error",
    "amqp:resource-limit-exceeded",
    "amqp:not-allowed",
    "amqp:invalid-field",
    "amqp:not-implemented",
    "amqp:resource-locked",
    "amqp:precondition-failed",
    "amqp:resource-deleted",
    "amqp:illegal-state",
    "amqp:frame-size-too-small",
    "amqp:connection:forced",
    "amqp:connection:framing-error",
    "amqp:connection:redirect",
    "amqp:session:window-violation",
    "amqp:session:errant-link",
    "amqp:session:handle-in-use",
    "amqp:session:unattached-handle",
    "amqp:link:detach-forced",
    "amqp:link:transfer-limit-exceeded",
    "amqp:link:message-size-exceeded",
    "amqp:link:redirect",
    "amqp:link:stolen",
];

pub fn gfield(r: &mut Rng, t: T) -> V {
    match t {
        T::Bool | T::Role => V::Bool(r.chance(50)),
        T::Ubyte => V::Ubyte(r.edge(8) as u8),
        T::SndMode => V::Ubyte(r.below(3) as u8),
        T::RcvMode => V::Ubyte(r.below(2) as u8),
        T::SaslCode => V::Ubyte(r.below(5) as u8),
        T::Ushort => V::Ushort(r.edge(16) as u16),
        T::Uint => V::Uint(r.edge(32) as u32),
        T::Durability => V::Uint(r.below(3) as u32),
        T::Ulong => V::Ulong(r.edge(64)),
        T::Str => V::Str(gstr(r)),
        T::Sym => V::Sym(gsym(r)),
        T::Cond => V::Sym(if r.chance(70) { (*r.pick(CONDS)).to_string() } else { gsym(r) }),
        T::DistMode => V::Sym(if r.chance(70) {
            (*r.pick(&["move", "copy"])).to_string()
        } else {
            gsym(r)
        }),
        T::Expiry => {
            V::Sym((*r.pick(&["link-detach", "session-end", "connection-close", "never"])).to_string())
        }
        T::Bin => V::Bin(gbin(r)),
        T::Ts => V::Ts(gts(r)),
        T::Fields | T::Annot => gmap(r, 2, true),
        T::AnyMap => gmap(r, 2, false),
        T::Filter => {
            let mut m: Vec<(V, V)> = vec![];
            for _ in 0..r.below(4) {
                let k = V::Sym(gsym(r));
                if !m.iter().any(|x| x.0 == k) {
                    let v = if r.chance(30) { V::Null } else { V::Str(gstr(r)) };
                    m.push((k, v));
                }
            }
            V::Map(m)
        }
        T::Syms => match r.below(3) {
            0 => V::Sym(gsym(r)),
            _ => V::Array((0..r.below(5)).map(|_| V::Sym(gsym(r))).collect()),
        },
        T::Error => gtype(r, 0x1d),
        T::Source => gtype(r, 0x28),
        T::Target => gtype(r, 0x29),
        T::State => {
            let c = r.range(0x23, 0x27) as u64;
            gtype(r, c)
        }
        T::Outcome => {
            let c = r.range(0x24, 0x27) as u64;
            gtype(r, c)
        }
        T::MsgId => match r.below(4) {
            0 => V::Ulong(r.edge(64)),
            1 => V::Uuid(r.bytes(16).try_into().unwrap()),
            2 => V::Bin(gbin(r)),
            _ => V::Str(gstr(r)),
        },
    }
}

/// Random conforming described list (numeric or symbolic descriptor; trailing nulls kept or dropped)
pub fn gtype(r: &mut Rng, code: u64) -> V {
    let t = ty(code).unwrap();
    let p = *r.pick(&[0usize, 30, 60, 100]);
    let mut l: Vec<V> = t
        .f
        .iter()
        .map(|fd| if matches!(fd.d, D::Mand) || r.chance(p) { gfield(r, fd.t) } else { V::Null })
        .collect();
    if r.chance(60) {
        while l.last().is_some_and(V::is_null) {
            l.pop();
        }
    }
    let d = if r.chance(25) { V::Sym(t.sym.into()) } else { V::Ulong(code) };
    V::Desc(Box::new(d), Box::new(V::List(l)))
}
