//! Hand-written correspondence between the crate's typed API and the oracle's value model:
//! `to_*` reads public fields, `from_*` fills public fields.  Field order here is the
//! specification's, never taken from the crate's encoder.
use chrono::{DateTime, TimeZone, Utc};
use ntex_amqp_codec::protocol::*;
use ntex_amqp_codec::types::{Array, DescribedCompound, Descriptor, List, Multiple, Str, Symbol, Variant, VariantMap, VecStringMap, VecSymbolMap};
use ntex_amqp_codec::{AmqpFrame, Message, SaslFrame};
use ntex_bytes::{ByteString, Bytes};
use ordered_float::OrderedFloat;
use uuid::Uuid;

use crate::wire::{V, desc};

pub type HashMap<K, Val> = ntex_util::HashMap<K, Val>;

// ---------- scalars
pub fn bs(s: &str) -> ByteString {
    ByteString::from(s)
}
pub fn bin(b: &[u8]) -> Bytes {
    Bytes::copy_from_slice(b)
}
fn ts(ms: i64) -> DateTime<Utc> {
    Utc.timestamp_millis_opt(ms).single().unwrap()
}
pub fn ts_ms(t: &DateTime<Utc>) -> i64 {
    t.timestamp_millis()
}
fn symbol(s: &str) -> Symbol {
    Symbol::from(s.to_string())
}
fn d_from(v: &V) -> Descriptor {
    match v {
        V::Ulong(n) => Descriptor::Ulong(*n),
        V::Sym(s) => Descriptor::Symbol(symbol(s)),
        _ => panic!("descriptor"),
    }
}
fn d_to(d: &Descriptor) -> V {
    match d {
        Descriptor::Ulong(n) => V::Ulong(*n),
        Descriptor::Symbol(s) => V::Sym(s.as_str().to_string()),
    }
}

/// None: the public API has no way to build this value (kept out of the generators that need it)
pub fn variant(v: &V) -> Option<Variant> {
    Some(match v {
        V::Null => Variant::Null,
        V::Bool(b) => Variant::Boolean(*b),
        V::Ubyte(x) => Variant::Ubyte(*x),
        V::Ushort(x) => Variant::Ushort(*x),
        V::Uint(x) => Variant::Uint(*x),
        V::Ulong(x) => Variant::Ulong(*x),
        V::Byte(x) => Variant::Byte(*x),
        V::Short(x) => Variant::Short(*x),
        V::Int(x) => Variant::Int(*x),
        V::Long(x) => Variant::Long(*x),
        V::Float(x) => Variant::Float(OrderedFloat(f32::from_bits(*x))),
        V::Double(x) => Variant::Double(OrderedFloat(f64::from_bits(*x))),
        V::Dec32(x) => Variant::Decimal32(*x),
        V::Dec64(x) => Variant::Decimal64(*x),
        V::Dec128(x) => Variant::Decimal128(*x),
        V::Char(x) => Variant::Char(char::from_u32(*x)?),
        V::Ts(x) => Variant::Timestamp(ts(*x)),
        V::Uuid(x) => Variant::Uuid(Uuid::from_bytes(*x)),
        V::Bin(b) => Variant::Binary(bin(b)),
        V::Str(s) => Variant::String(Str::from(s.clone())),
        V::Sym(s) => Variant::Symbol(symbol(s)),
        V::List(l) => Variant::List(List(l.iter().map(variant).collect::<Option<Vec<_>>>()?)),
        V::Map(m) => {
            let mut h: HashMap<Variant, Variant> = HashMap::default();
            for (k, x) in m {
                h.insert(variant(k)?, variant(x)?);
            }
            Variant::Map(VariantMap::new(h))
        }
        V::Array(l) => Variant::Array(array(l)?),
        V::Desc(d, x) => match &**x {
            V::List(_) => {
                let Variant::List(l) = variant(x)? else { unreachable!() };
                Variant::DescribedCompound(DescribedCompound::create(d_from(d), l))
            }
            V::Map(_) => {
                let Variant::Map(m) = variant(x)? else { unreachable!() };
                Variant::DescribedCompound(DescribedCompound::create(d_from(d), m.map))
            }
            V::Array(_) => {
                let Variant::Array(m) = variant(x)? else { unreachable!() };
                Variant::DescribedCompound(DescribedCompound::create(d_from(d), m))
            }
            _ => Variant::Described((d_from(d), Box::new(variant(x)?))),
        },
    })
}

/// every value hashes, once `VariantMap` does
/// whether the public API can build this value (arrays only of the primitive element types)
pub fn representable(v: &V) -> bool {
    match v {
        V::Array(l) => array(l).is_some(),
        V::List(l) => l.iter().all(representable),
        V::Map(m) => m.iter().all(|(k, v)| representable(k) && representable(v)),
        V::Desc(_, x) => representable(x),
        _ => true,
    }
}

fn array(l: &[V]) -> Option<Array> {
    macro_rules! all {
        ($p:pat => $x:expr) => {{
            let mut out = vec![];
            for v in l {
                match v {
                    $p => out.push($x),
                    _ => return None,
                }
            }
            Some(Array::from(out))
        }};
    }
    match l.first() {
        None => Some(Array::from(Vec::<Symbol>::new())),
        Some(V::Bool(_)) => all!(V::Bool(b) => *b),
        Some(V::Ubyte(_)) => all!(V::Ubyte(b) => *b),
        Some(V::Ushort(_)) => all!(V::Ushort(b) => *b),
        Some(V::Uint(_)) => all!(V::Uint(b) => *b),
        Some(V::Ulong(_)) => all!(V::Ulong(b) => *b),
        Some(V::Byte(_)) => all!(V::Byte(b) => *b),
        Some(V::Short(_)) => all!(V::Short(b) => *b),
        Some(V::Int(_)) => all!(V::Int(b) => *b),
        Some(V::Long(_)) => all!(V::Long(b) => *b),
        Some(V::Float(_)) => all!(V::Float(b) => f32::from_bits(*b)),
        Some(V::Double(_)) => all!(V::Double(b) => f64::from_bits(*b)),
        Some(V::Char(_)) => all!(V::Char(b) => char::from_u32(*b)?),
        Some(V::Ts(_)) => all!(V::Ts(b) => ts(*b)),
        Some(V::Uuid(_)) => all!(V::Uuid(b) => Uuid::from_bytes(*b)),
        Some(V::Bin(_)) => all!(V::Bin(b) => bin(b)),
        Some(V::Str(_)) => all!(V::Str(b) => bs(b)),
        Some(V::Sym(_)) => all!(V::Sym(b) => symbol(b)),
        _ => None,
    }
}

pub fn vto(v: &Variant) -> Result<V, String> {
    Ok(match v {
        Variant::Null => V::Null,
        Variant::Boolean(b) => V::Bool(*b),
        Variant::Ubyte(x) => V::Ubyte(*x),
        Variant::Ushort(x) => V::Ushort(*x),
        Variant::Uint(x) => V::Uint(*x),
        Variant::Ulong(x) => V::Ulong(*x),
        Variant::Byte(x) => V::Byte(*x),
        Variant::Short(x) => V::Short(*x),
        Variant::Int(x) => V::Int(*x),
        Variant::Long(x) => V::Long(*x),
        Variant::Float(x) => V::Float(x.0.to_bits()),
        Variant::Double(x) => V::Double(x.0.to_bits()),
        Variant::Decimal32(x) => V::Dec32(*x),
        Variant::Decimal64(x) => V::Dec64(*x),
        Variant::Decimal128(x) => V::Dec128(*x),
        Variant::Char(x) => V::Char(*x as u32),
        Variant::Timestamp(x) => V::Ts(ts_ms(x)),
        Variant::Uuid(x) => V::Uuid(*x.as_bytes()),
        Variant::Binary(b) => V::Bin(b.to_vec()),
        Variant::String(s) => V::Str(s.as_str().to_string()),
        Variant::Symbol(s) => V::Sym(s.as_str().to_string()),
        Variant::List(l) => V::List(l.iter().map(vto).collect::<Result<_, _>>()?),
        Variant::Map(m) => {
            let mut o = vec![];
            for (k, x) in &m.map {
                o.push((vto(k)?, vto(x)?));
            }
            V::Map(o)
        }
        Variant::Array(a) => {
            let l: Vec<Variant> = a.decode().map_err(|e| format!("array elements: {e:?}"))?;
            let d = a.element_constructor().descriptor().map(d_to);
            let mut o = vec![];
            for x in &l {
                let x = vto(x)?;
                o.push(match &d {
                    Some(d) => V::Desc(Box::new(d.clone()), Box::new(x)),
                    None => x,
                });
            }
            V::Array(o)
        }
        Variant::Described((d, x)) => V::Desc(Box::new(d_to(d)), Box::new(vto(x)?)),
        Variant::DescribedCompound(dc) => {
            let x: Variant = dc.decode().map_err(|e| format!("described compound: {e:?}"))?;
            V::Desc(Box::new(d_to(dc.descriptor())), Box::new(vto(&x)?))
        }
    })
}

// ---------- field helpers: V list element -> typed
type O<T> = Option<T>;
fn f<'a>(l: &'a [V], i: usize) -> &'a V {
    l.get(i).unwrap_or(&V::Null)
}
fn o_u32(v: &V) -> O<u32> {
    if let V::Uint(x) = v { Some(*x) } else { None }
}
fn o_u64(v: &V) -> O<u64> {
    if let V::Ulong(x) = v { Some(*x) } else { None }
}
fn o_u16(v: &V) -> O<u16> {
    if let V::Ushort(x) = v { Some(*x) } else { None }
}
fn o_u8(v: &V) -> O<u8> {
    if let V::Ubyte(x) = v { Some(*x) } else { None }
}
fn o_bool(v: &V) -> O<bool> {
    if let V::Bool(x) = v { Some(*x) } else { None }
}
fn o_str(v: &V) -> O<ByteString> {
    if let V::Str(x) = v { Some(bs(x)) } else { None }
}
fn o_sym(v: &V) -> O<Symbol> {
    if let V::Sym(x) = v { Some(symbol(x)) } else { None }
}
fn o_bin(v: &V) -> O<Bytes> {
    if let V::Bin(x) = v { Some(bin(x)) } else { None }
}
fn o_ts(v: &V) -> O<DateTime<Utc>> {
    if let V::Ts(x) = v { Some(ts(*x)) } else { None }
}
fn o_syms(v: &V) -> O<Symbols> {
    match v {
        V::Sym(x) => Some(Multiple(vec![symbol(x)])),
        V::Array(a) => Some(Multiple(a.iter().map(|x| o_sym(x).unwrap()).collect())),
        _ => None,
    }
}
fn o_fields(v: &V) -> O<Fields> {
    let V::Map(m) = v else { return None };
    let mut h = Fields::default();
    for (k, x) in m {
        h.insert(o_sym(k).unwrap(), variant(x)?);
    }
    Some(h)
}
pub fn o_vsm(v: &V) -> O<VecSymbolMap> {
    let V::Map(m) = v else { return None };
    let mut h = vec![];
    for (k, x) in m {
        h.push((o_sym(k).unwrap(), variant(x)?));
    }
    Some(VecSymbolMap(h))
}
fn o_map(v: &V) -> O<Map> {
    let V::Map(m) = v else { return None };
    let mut h = Map::default();
    for (k, x) in m {
        h.insert(variant(k)?, variant(x)?);
    }
    Some(h)
}
fn o_filter(v: &V) -> O<FilterSet> {
    let V::Map(m) = v else { return None };
    Some(m.iter().map(|(k, x)| (o_sym(k).unwrap(), o_str(x))).collect())
}
fn lst(v: &V) -> O<(u64, &[V])> {
    if let V::Desc(d, l) = v {
        let c = match &**d {
            V::Ulong(c) => *c,
            V::Sym(s) => crate::schema::code_of(s)?,
            _ => return None,
        };
        if let V::List(l) = &**l {
            return Some((c, l));
        }
    }
    None
}
fn cond(s: &str) -> ErrorCondition {
    let y = symbol(s);
    match s {
        "amqp:internal-error" => AmqpError::InternalError.into(),
        "amqp:not-found" => AmqpError::NotFound.into(),
        "amqp:unauthorized-access" => AmqpError::UnauthorizedAccess.into(),
        "amqp:decode-error" => AmqpError::DecodeError.into(),
        "amqp:resource-limit-exceeded" => AmqpError::ResourceLimitExceeded.into(),
        "amqp:not-allowed" => AmqpError::NotAllowed.into(),
        "amqp:invalid-field" => AmqpError::InvalidField.into(),
        "amqp:not-implemented" => AmqpError::NotImplemented.into(),
        "amqp:resource-locked" => AmqpError::ResourceLocked.into(),
        "amqp:precondition-failed" => AmqpError::PreconditionFailed.into(),
        "amqp:resource-deleted" => AmqpError::ResourceDeleted.into(),
        "amqp:illegal-state" => AmqpError::IllegalState.into(),
        "amqp:frame-size-too-small" => AmqpError::FrameSizeTooSmall.into(),
        "amqp:connection:forced" => ConnectionError::ConnectionForced.into(),
        "amqp:connection:framing-error" => ConnectionError::FramingError.into(),
        "amqp:connection:redirect" => ConnectionError::Redirect.into(),
        "amqp:session:window-violation" => SessionError::WindowViolation.into(),
        "amqp:session:errant-link" => SessionError::ErrantLink.into(),
        "amqp:session:handle-in-use" => SessionError::HandleInUse.into(),
        "amqp:session:unattached-handle" => SessionError::UnattachedHandle.into(),
        "amqp:link:detach-forced" => LinkError::DetachForced.into(),
        "amqp:link:transfer-limit-exceeded" => LinkError::TransferLimitExceeded.into(),
        "amqp:link:message-size-exceeded" => LinkError::MessageSizeExceeded.into(),
        "amqp:link:redirect" => LinkError::Redirect.into(),
        "amqp:link:stolen" => LinkError::Stolen.into(),
        _ => ErrorCondition::Custom(y),
    }
}
pub fn cond_str(c: &ErrorCondition) -> String {
    match c {
        ErrorCondition::AmqpError(e) => match e {
            AmqpError::InternalError => "amqp:internal-error",
            AmqpError::NotFound => "amqp:not-found",
            AmqpError::UnauthorizedAccess => "amqp:unauthorized-access",
            AmqpError::DecodeError => "amqp:decode-error",
            AmqpError::ResourceLimitExceeded => "amqp:resource-limit-exceeded",
            AmqpError::NotAllowed => "amqp:not-allowed",
            AmqpError::InvalidField => "amqp:invalid-field",
            AmqpError::NotImplemented => "amqp:not-implemented",
            AmqpError::ResourceLocked => "amqp:resource-locked",
            AmqpError::PreconditionFailed => "amqp:precondition-failed",
            AmqpError::ResourceDeleted => "amqp:resource-deleted",
            AmqpError::IllegalState => "amqp:illegal-state",
            AmqpError::FrameSizeTooSmall => "amqp:frame-size-too-small",
        }
        .into(),
        ErrorCondition::ConnectionError(e) => match e {
            ConnectionError::ConnectionForced => "amqp:connection:forced",
            ConnectionError::FramingError => "amqp:connection:framing-error",
            ConnectionError::Redirect => "amqp:connection:redirect",
        }
        .into(),
        ErrorCondition::SessionError(e) => match e {
            SessionError::WindowViolation => "amqp:session:window-violation",
            SessionError::ErrantLink => "amqp:session:errant-link",
            SessionError::HandleInUse => "amqp:session:handle-in-use",
            SessionError::UnattachedHandle => "amqp:session:unattached-handle",
        }
        .into(),
        ErrorCondition::LinkError(e) => match e {
            LinkError::DetachForced => "amqp:link:detach-forced",
            LinkError::TransferLimitExceeded => "amqp:link:transfer-limit-exceeded",
            LinkError::MessageSizeExceeded => "amqp:link:message-size-exceeded",
            LinkError::Redirect => "amqp:link:redirect",
            LinkError::Stolen => "amqp:link:stolen",
        }
        .into(),
        ErrorCondition::Custom(s) => s.as_str().into(),
    }
}
pub fn error(v: &V) -> O<Error> {
    let (_, l) = lst(v)?;
    let V::Sym(c) = f(l, 0) else { return None };
    Some(Error(Box::new(ErrorInner { condition: cond(c), description: o_str(f(l, 1)), info: o_vsm(f(l, 2)) })))
}
fn role(v: &V) -> Role {
    if *v == V::Bool(true) { Role::Receiver } else { Role::Sender }
}
fn snd(v: &V) -> SenderSettleMode {
    match v {
        V::Ubyte(0) => SenderSettleMode::Unsettled,
        V::Ubyte(1) => SenderSettleMode::Settled,
        _ => SenderSettleMode::Mixed,
    }
}
fn rcv(v: &V) -> O<ReceiverSettleMode> {
    match v {
        V::Ubyte(0) => Some(ReceiverSettleMode::First),
        V::Ubyte(1) => Some(ReceiverSettleMode::Second),
        _ => None,
    }
}
fn durab(v: &V) -> TerminusDurability {
    match v {
        V::Uint(1) => TerminusDurability::Configuration,
        V::Uint(2) => TerminusDurability::UnsettledState,
        _ => TerminusDurability::None,
    }
}
fn expiry(v: &V) -> TerminusExpiryPolicy {
    match v {
        V::Sym(s) if s == "link-detach" => TerminusExpiryPolicy::LinkDetach,
        V::Sym(s) if s == "connection-close" => TerminusExpiryPolicy::ConnectionClose,
        V::Sym(s) if s == "never" => TerminusExpiryPolicy::Never,
        _ => TerminusExpiryPolicy::SessionEnd,
    }
}
fn modified(l: &[V]) -> Modified {
    Modified { delivery_failed: o_bool(f(l, 0)), undeliverable_here: o_bool(f(l, 1)), message_annotations: o_vsm(f(l, 2)) }
}
pub fn state(v: &V) -> O<DeliveryState> {
    let (c, l) = lst(v)?;
    Some(match c {
        0x23 => DeliveryState::Received(Received { section_number: o_u32(f(l, 0))?, section_offset: o_u64(f(l, 1))? }),
        0x24 => DeliveryState::Accepted(Accepted {}),
        0x25 => DeliveryState::Rejected(Rejected { error: error(f(l, 0)) }),
        0x26 => DeliveryState::Released(Released {}),
        _ => DeliveryState::Modified(modified(l)),
    })
}
fn outcome(v: &V) -> O<Outcome> {
    let (c, l) = lst(v)?;
    Some(match c {
        0x24 => Outcome::Accepted(Accepted {}),
        0x25 => Outcome::Rejected(Rejected { error: error(f(l, 0)) }),
        0x26 => Outcome::Released(Released {}),
        _ => Outcome::Modified(modified(l)),
    })
}
fn msgid(v: &V) -> O<MessageId> {
    Some(match v {
        V::Ulong(x) => MessageId::Ulong(*x),
        V::Uuid(x) => MessageId::Uuid(Uuid::from_bytes(*x)),
        V::Bin(x) => MessageId::Binary(bin(x)),
        V::Str(x) => MessageId::String(bs(x)),
        _ => return None,
    })
}
fn distmode(v: &V) -> O<DistributionMode> {
    let V::Sym(s) = v else { return None };
    Some(match s.as_str() {
        "move" => DistributionMode::Move,
        "copy" => DistributionMode::Copy,
        _ => DistributionMode::Custom(symbol(s)),
    })
}
fn source(v: &V) -> O<Source> {
    let (_, l) = lst(v)?;
    Some(Source {
        address: o_str(f(l, 0)),
        durable: durab(f(l, 1)),
        expiry_policy: expiry(f(l, 2)),
        timeout: o_u32(f(l, 3)).unwrap_or(0),
        dynamic: o_bool(f(l, 4)).unwrap_or(false),
        dynamic_node_properties: o_fields(f(l, 5)),
        distribution_mode: distmode(f(l, 6)),
        filter: o_filter(f(l, 7)),
        default_outcome: outcome(f(l, 8)),
        outcomes: o_syms(f(l, 9)),
        capabilities: o_syms(f(l, 10)),
    })
}
fn target(v: &V) -> O<Target> {
    let (_, l) = lst(v)?;
    Some(Target {
        address: o_str(f(l, 0)),
        durable: durab(f(l, 1)),
        expiry_policy: expiry(f(l, 2)),
        timeout: o_u32(f(l, 3)).unwrap_or(0),
        dynamic: o_bool(f(l, 4)).unwrap_or(false),
        dynamic_node_properties: o_fields(f(l, 5)),
        capabilities: o_syms(f(l, 6)),
    })
}

/// Builds the crate's frame through its public fields
pub fn frame(v: &V, body: &[u8]) -> Frame {
    let (c, l) = lst(v).unwrap();
    match c {
        0x10 => Frame::Open(Open(Box::new(OpenInner {
            container_id: o_str(f(l, 0)).unwrap(),
            hostname: o_str(f(l, 1)),
            max_frame_size: o_u32(f(l, 2)).unwrap_or(u32::MAX),
            channel_max: o_u16(f(l, 3)).unwrap_or(u16::MAX),
            idle_time_out: o_u32(f(l, 4)),
            outgoing_locales: o_syms(f(l, 5)),
            incoming_locales: o_syms(f(l, 6)),
            offered_capabilities: o_syms(f(l, 7)),
            desired_capabilities: o_syms(f(l, 8)),
            properties: o_fields(f(l, 9)),
        }))),
        0x11 => Frame::Begin(Begin(Box::new(BeginInner {
            remote_channel: o_u16(f(l, 0)),
            next_outgoing_id: o_u32(f(l, 1)).unwrap(),
            incoming_window: o_u32(f(l, 2)).unwrap(),
            outgoing_window: o_u32(f(l, 3)).unwrap(),
            handle_max: o_u32(f(l, 4)).unwrap_or(u32::MAX),
            offered_capabilities: o_syms(f(l, 5)),
            desired_capabilities: o_syms(f(l, 6)),
            properties: o_fields(f(l, 7)),
        }))),
        0x12 => Frame::Attach(Attach(Box::new(AttachInner {
            name: o_str(f(l, 0)).unwrap(),
            handle: o_u32(f(l, 1)).unwrap(),
            role: role(f(l, 2)),
            snd_settle_mode: snd(f(l, 3)),
            rcv_settle_mode: rcv(f(l, 4)).unwrap_or(ReceiverSettleMode::First),
            source: source(f(l, 5)),
            target: target(f(l, 6)),
            unsettled: o_map(f(l, 7)),
            incomplete_unsettled: o_bool(f(l, 8)).unwrap_or(false),
            initial_delivery_count: o_u32(f(l, 9)),
            max_message_size: o_u64(f(l, 10)),
            offered_capabilities: o_syms(f(l, 11)),
            desired_capabilities: o_syms(f(l, 12)),
            properties: o_fields(f(l, 13)),
        }))),
        0x13 => Frame::Flow(Flow(Box::new(FlowInner {
            next_incoming_id: o_u32(f(l, 0)),
            incoming_window: o_u32(f(l, 1)).unwrap(),
            next_outgoing_id: o_u32(f(l, 2)).unwrap(),
            outgoing_window: o_u32(f(l, 3)).unwrap(),
            handle: o_u32(f(l, 4)),
            delivery_count: o_u32(f(l, 5)),
            link_credit: o_u32(f(l, 6)),
            available: o_u32(f(l, 7)),
            drain: o_bool(f(l, 8)).unwrap_or(false),
            echo: o_bool(f(l, 9)).unwrap_or(false),
            properties: o_fields(f(l, 10)),
        }))),
        0x14 => Frame::Transfer(Transfer(Box::new(TransferInner {
            handle: o_u32(f(l, 0)).unwrap(),
            delivery_id: o_u32(f(l, 1)),
            delivery_tag: o_bin(f(l, 2)),
            message_format: o_u32(f(l, 3)),
            settled: o_bool(f(l, 4)),
            more: o_bool(f(l, 5)).unwrap_or(false),
            rcv_settle_mode: rcv(f(l, 6)),
            state: state(f(l, 7)),
            resume: o_bool(f(l, 8)).unwrap_or(false),
            aborted: o_bool(f(l, 9)).unwrap_or(false),
            batchable: o_bool(f(l, 10)).unwrap_or(false),
            body: if body.is_empty() { None } else { Some(TransferBody::Data(bin(body))) },
        }))),
        0x15 => Frame::Disposition(Disposition(Box::new(DispositionInner {
            role: role(f(l, 0)),
            first: o_u32(f(l, 1)).unwrap(),
            last: o_u32(f(l, 2)),
            settled: o_bool(f(l, 3)).unwrap_or(false),
            state: state(f(l, 4)),
            batchable: o_bool(f(l, 5)).unwrap_or(false),
        }))),
        0x16 => Frame::Detach(Detach(Box::new(DetachInner {
            handle: o_u32(f(l, 0)).unwrap(),
            closed: o_bool(f(l, 1)).unwrap_or(false),
            error: error(f(l, 2)),
        }))),
        0x17 => Frame::End(End { error: error(f(l, 0)) }),
        0x18 => Frame::Close(Close { error: error(f(l, 0)) }),
        _ => panic!("not a performative"),
    }
}
pub fn sasl(v: &V) -> SaslFrameBody {
    let (c, l) = lst(v).unwrap();
    match c {
        0x40 => SaslFrameBody::SaslMechanisms(SaslMechanisms { sasl_server_mechanisms: o_syms(f(l, 0)).unwrap() }),
        0x41 => SaslFrameBody::SaslInit(SaslInit {
            mechanism: o_sym(f(l, 0)).unwrap(),
            initial_response: o_bin(f(l, 1)),
            hostname: o_str(f(l, 2)),
        }),
        0x42 => SaslFrameBody::SaslChallenge(SaslChallenge { challenge: o_bin(f(l, 0)).unwrap() }),
        0x43 => SaslFrameBody::SaslResponse(SaslResponse { response: o_bin(f(l, 0)).unwrap() }),
        _ => SaslFrameBody::SaslOutcome(SaslOutcome {
            code: match f(l, 0) {
                V::Ubyte(1) => SaslCode::Auth,
                V::Ubyte(2) => SaslCode::Sys,
                V::Ubyte(3) => SaslCode::SysPerm,
                V::Ubyte(4) => SaslCode::SysTemp,
                _ => SaslCode::Ok,
            },
            additional_data: o_bin(f(l, 1)),
        }),
    }
}
pub fn header(v: &V) -> O<Header> {
    let (_, l) = lst(v)?;
    Some(Header {
        durable: o_bool(f(l, 0)).unwrap_or(false),
        priority: o_u8(f(l, 1)).unwrap_or(4),
        ttl: o_u32(f(l, 2)),
        first_acquirer: o_bool(f(l, 3)).unwrap_or(false),
        delivery_count: o_u32(f(l, 4)).unwrap_or(0),
    })
}
pub fn properties(v: &V) -> O<Properties> {
    let (_, l) = lst(v)?;
    Some(Properties {
        message_id: msgid(f(l, 0)),
        user_id: o_bin(f(l, 1)),
        to: o_str(f(l, 2)),
        subject: o_str(f(l, 3)),
        reply_to: o_str(f(l, 4)),
        correlation_id: msgid(f(l, 5)),
        content_type: o_sym(f(l, 6)),
        content_encoding: o_sym(f(l, 7)),
        absolute_expiry_time: o_ts(f(l, 8)),
        creation_time: o_ts(f(l, 9)),
        group_id: o_str(f(l, 10)),
        group_sequence: o_u32(f(l, 11)),
        reply_to_group_id: o_str(f(l, 12)),
    })
}

// ---------- typed -> V (full field list, defaults explicit)
fn t_u32(x: O<u32>) -> V {
    x.map_or(V::Null, V::Uint)
}
fn t_u64(x: O<u64>) -> V {
    x.map_or(V::Null, V::Ulong)
}
fn t_bool(x: O<bool>) -> V {
    x.map_or(V::Null, V::Bool)
}
fn t_str(x: &O<ByteString>) -> V {
    x.as_ref().map_or(V::Null, |s| V::Str(s.to_string()))
}
fn t_sym(x: &O<Symbol>) -> V {
    x.as_ref().map_or(V::Null, |s| V::Sym(s.as_str().to_string()))
}
fn t_bin(x: &O<Bytes>) -> V {
    x.as_ref().map_or(V::Null, |s| V::Bin(s.to_vec()))
}
fn t_ts(x: &O<DateTime<Utc>>) -> V {
    x.as_ref().map_or(V::Null, |s| V::Ts(ts_ms(s)))
}
fn t_syms(x: &O<Symbols>) -> V {
    x.as_ref().map_or(V::Null, |m| V::Array(m.iter().map(|s| V::Sym(s.as_str().to_string())).collect()))
}
type RV = Result<V, String>;
fn t_fields(x: &O<Fields>) -> RV {
    let Some(m) = x else { return Ok(V::Null) };
    let mut o = vec![];
    for (k, v) in m {
        o.push((V::Sym(k.as_str().into()), vto(v)?));
    }
    Ok(V::Map(o))
}
pub fn t_vsm(x: &O<VecSymbolMap>) -> RV {
    let Some(m) = x else { return Ok(V::Null) };
    let mut o = vec![];
    for (k, v) in m.iter() {
        o.push((V::Sym(k.as_str().into()), vto(v)?));
    }
    Ok(V::Map(o))
}
pub fn t_vstm(x: &O<VecStringMap>) -> RV {
    let Some(m) = x else { return Ok(V::Null) };
    let mut o = vec![];
    for (k, v) in m.iter() {
        o.push((V::Str(k.as_str().into()), vto(v)?));
    }
    Ok(V::Map(o))
}
fn t_map(x: &O<Map>) -> RV {
    let Some(m) = x else { return Ok(V::Null) };
    let mut o = vec![];
    for (k, v) in m {
        o.push((vto(k)?, vto(v)?));
    }
    Ok(V::Map(o))
}
fn t_filter(x: &O<FilterSet>) -> V {
    x.as_ref().map_or(V::Null, |m| {
        V::Map(m.iter().map(|(k, v)| (V::Sym(k.as_str().into()), t_str(v))).collect())
    })
}
pub fn t_error(x: &O<Error>) -> RV {
    let Some(e) = x else { return Ok(V::Null) };
    Ok(desc(0x1d, V::List(vec![V::Sym(cond_str(&e.0.condition)), t_str(&e.0.description), t_vsm(&e.0.info)?])))
}
fn t_role(r: Role) -> V {
    V::Bool(matches!(r, Role::Receiver))
}
fn t_snd(r: SenderSettleMode) -> V {
    V::Ubyte(match r {
        SenderSettleMode::Unsettled => 0,
        SenderSettleMode::Settled => 1,
        SenderSettleMode::Mixed => 2,
    })
}
fn t_rcv(r: ReceiverSettleMode) -> V {
    V::Ubyte(match r {
        ReceiverSettleMode::First => 0,
        ReceiverSettleMode::Second => 1,
    })
}
fn t_dur(r: TerminusDurability) -> V {
    V::Uint(match r {
        TerminusDurability::None => 0,
        TerminusDurability::Configuration => 1,
        TerminusDurability::UnsettledState => 2,
    })
}
fn t_exp(r: TerminusExpiryPolicy) -> V {
    V::Sym(
        match r {
            TerminusExpiryPolicy::LinkDetach => "link-detach",
            TerminusExpiryPolicy::SessionEnd => "session-end",
            TerminusExpiryPolicy::ConnectionClose => "connection-close",
            TerminusExpiryPolicy::Never => "never",
        }
        .into(),
    )
}
fn t_modified(m: &Modified) -> RV {
    Ok(desc(0x27, V::List(vec![t_bool(m.delivery_failed), t_bool(m.undeliverable_here), t_vsm(&m.message_annotations)?])))
}
pub fn t_state(s: &DeliveryState) -> RV {
    Ok(match s {
        DeliveryState::Received(r) => desc(0x23, V::List(vec![V::Uint(r.section_number), V::Ulong(r.section_offset)])),
        DeliveryState::Accepted(_) => desc(0x24, V::List(vec![])),
        DeliveryState::Rejected(r) => desc(0x25, V::List(vec![t_error(&r.error)?])),
        DeliveryState::Released(_) => desc(0x26, V::List(vec![])),
        DeliveryState::Modified(m) => t_modified(m)?,
    })
}
fn t_outcome(s: &O<Outcome>) -> RV {
    Ok(match s {
        None => V::Null,
        Some(Outcome::Accepted(_)) => desc(0x24, V::List(vec![])),
        Some(Outcome::Rejected(r)) => desc(0x25, V::List(vec![t_error(&r.error)?])),
        Some(Outcome::Released(_)) => desc(0x26, V::List(vec![])),
        Some(Outcome::Modified(m)) => t_modified(m)?,
    })
}
fn t_msgid(x: &O<MessageId>) -> V {
    match x {
        None => V::Null,
        Some(MessageId::Ulong(n)) => V::Ulong(*n),
        Some(MessageId::Uuid(n)) => V::Uuid(*n.as_bytes()),
        Some(MessageId::Binary(n)) => V::Bin(n.to_vec()),
        Some(MessageId::String(n)) => V::Str(n.to_string()),
    }
}
fn t_source(x: &O<Source>) -> RV {
    let Some(s) = x else { return Ok(V::Null) };
    Ok(desc(
        0x28,
        V::List(vec![
            t_str(&s.address),
            t_dur(s.durable),
            t_exp(s.expiry_policy),
            V::Uint(s.timeout),
            V::Bool(s.dynamic),
            t_fields(&s.dynamic_node_properties)?,
            match &s.distribution_mode {
                None => V::Null,
                Some(DistributionMode::Move) => V::Sym("move".into()),
                Some(DistributionMode::Copy) => V::Sym("copy".into()),
                Some(DistributionMode::Custom(c)) => V::Sym(c.as_str().into()),
            },
            t_filter(&s.filter),
            t_outcome(&s.default_outcome)?,
            t_syms(&s.outcomes),
            t_syms(&s.capabilities),
        ]),
    ))
}
fn t_target(x: &O<Target>) -> RV {
    let Some(s) = x else { return Ok(V::Null) };
    Ok(desc(
        0x29,
        V::List(vec![
            t_str(&s.address),
            t_dur(s.durable),
            t_exp(s.expiry_policy),
            V::Uint(s.timeout),
            V::Bool(s.dynamic),
            t_fields(&s.dynamic_node_properties)?,
            t_syms(&s.capabilities),
        ]),
    ))
}

/// (performative, payload) of a decoded frame; None for the empty frame
pub fn t_frame(fr: &Frame) -> Result<Option<(V, Vec<u8>)>, String> {
    let mut payload = vec![];
    let v = match fr {
        Frame::Empty => return Ok(None),
        Frame::Open(o) => {
            let o = &o.0;
            desc(
                0x10,
                V::List(vec![
                    V::Str(o.container_id.to_string()),
                    t_str(&o.hostname),
                    V::Uint(o.max_frame_size),
                    V::Ushort(o.channel_max),
                    t_u32(o.idle_time_out),
                    t_syms(&o.outgoing_locales),
                    t_syms(&o.incoming_locales),
                    t_syms(&o.offered_capabilities),
                    t_syms(&o.desired_capabilities),
                    t_fields(&o.properties)?,
                ]),
            )
        }
        Frame::Begin(o) => {
            let o = &o.0;
            desc(
                0x11,
                V::List(vec![
                    o.remote_channel.map_or(V::Null, V::Ushort),
                    V::Uint(o.next_outgoing_id),
                    V::Uint(o.incoming_window),
                    V::Uint(o.outgoing_window),
                    V::Uint(o.handle_max),
                    t_syms(&o.offered_capabilities),
                    t_syms(&o.desired_capabilities),
                    t_fields(&o.properties)?,
                ]),
            )
        }
        Frame::Attach(o) => {
            let o = &o.0;
            desc(
                0x12,
                V::List(vec![
                    V::Str(o.name.to_string()),
                    V::Uint(o.handle),
                    t_role(o.role),
                    t_snd(o.snd_settle_mode),
                    t_rcv(o.rcv_settle_mode),
                    t_source(&o.source)?,
                    t_target(&o.target)?,
                    t_map(&o.unsettled)?,
                    V::Bool(o.incomplete_unsettled),
                    t_u32(o.initial_delivery_count),
                    t_u64(o.max_message_size),
                    t_syms(&o.offered_capabilities),
                    t_syms(&o.desired_capabilities),
                    t_fields(&o.properties)?,
                ]),
            )
        }
        Frame::Flow(o) => {
            let o = &o.0;
            desc(
                0x13,
                V::List(vec![
                    t_u32(o.next_incoming_id),
                    V::Uint(o.incoming_window),
                    V::Uint(o.next_outgoing_id),
                    V::Uint(o.outgoing_window),
                    t_u32(o.handle),
                    t_u32(o.delivery_count),
                    t_u32(o.link_credit),
                    t_u32(o.available),
                    V::Bool(o.drain),
                    V::Bool(o.echo),
                    t_fields(&o.properties)?,
                ]),
            )
        }
        Frame::Transfer(o) => {
            let o = &o.0;
            if let Some(TransferBody::Data(b)) = &o.body {
                payload = b.to_vec();
            }
            desc(
                0x14,
                V::List(vec![
                    V::Uint(o.handle),
                    t_u32(o.delivery_id),
                    t_bin(&o.delivery_tag),
                    t_u32(o.message_format),
                    t_bool(o.settled),
                    V::Bool(o.more),
                    o.rcv_settle_mode.map_or(V::Null, t_rcv),
                    match &o.state {
                        None => V::Null,
                        Some(s) => t_state(s)?,
                    },
                    V::Bool(o.resume),
                    V::Bool(o.aborted),
                    V::Bool(o.batchable),
                ]),
            )
        }
        Frame::Disposition(o) => {
            let o = &o.0;
            desc(
                0x15,
                V::List(vec![
                    t_role(o.role),
                    V::Uint(o.first),
                    t_u32(o.last),
                    V::Bool(o.settled),
                    match &o.state {
                        None => V::Null,
                        Some(s) => t_state(s)?,
                    },
                    V::Bool(o.batchable),
                ]),
            )
        }
        Frame::Detach(o) => {
            let o = &o.0;
            desc(0x16, V::List(vec![V::Uint(o.handle), V::Bool(o.closed), t_error(&o.error)?]))
        }
        Frame::End(o) => desc(0x17, V::List(vec![t_error(&o.error)?])),
        Frame::Close(o) => desc(0x18, V::List(vec![t_error(&o.error)?])),
    };
    Ok(Some((v, payload)))
}
pub fn t_sasl(b: &SaslFrameBody) -> V {
    match b {
        SaslFrameBody::SaslMechanisms(m) => {
            desc(0x40, V::List(vec![t_syms(&Some(m.sasl_server_mechanisms.clone()))]))
        }
        SaslFrameBody::SaslInit(m) => {
            desc(0x41, V::List(vec![V::Sym(m.mechanism.as_str().into()), t_bin(&m.initial_response), t_str(&m.hostname)]))
        }
        SaslFrameBody::SaslChallenge(m) => desc(0x42, V::List(vec![V::Bin(m.challenge.to_vec())])),
        SaslFrameBody::SaslResponse(m) => desc(0x43, V::List(vec![V::Bin(m.response.to_vec())])),
        SaslFrameBody::SaslOutcome(m) => desc(
            0x44,
            V::List(vec![
                V::Ubyte(match m.code {
                    SaslCode::Ok => 0,
                    SaslCode::Auth => 1,
                    SaslCode::Sys => 2,
                    SaslCode::SysPerm => 3,
                    SaslCode::SysTemp => 4,
                }),
                t_bin(&m.additional_data),
            ]),
        ),
    }
}
pub fn t_header(h: &Header) -> V {
    desc(
        0x70,
        V::List(vec![
            V::Bool(h.durable),
            V::Ubyte(h.priority),
            t_u32(h.ttl),
            V::Bool(h.first_acquirer),
            V::Uint(h.delivery_count),
        ]),
    )
}
pub fn t_props(p: &Properties) -> V {
    desc(
        0x73,
        V::List(vec![
            t_msgid(&p.message_id),
            t_bin(&p.user_id),
            t_str(&p.to),
            t_str(&p.subject),
            t_str(&p.reply_to),
            t_msgid(&p.correlation_id),
            t_sym(&p.content_type),
            t_sym(&p.content_encoding),
            t_ts(&p.absolute_expiry_time),
            t_ts(&p.creation_time),
            t_str(&p.group_id),
            t_u32(p.group_sequence),
            t_str(&p.reply_to_group_id),
        ]),
    )
}

/// message -> its sections in specification order
pub fn t_message(m: &Message) -> Result<Vec<V>, String> {
    let m = &m.0;
    let mut o = vec![];
    if let Some(h) = &m.header {
        o.push(t_header(h));
    }
    if m.delivery_annotations.is_some() {
        o.push(desc(0x71, t_vsm(&m.delivery_annotations)?));
    }
    if m.message_annotations.is_some() {
        o.push(desc(0x72, t_vsm(&m.message_annotations)?));
    }
    if let Some(p) = &m.properties {
        o.push(t_props(p));
    }
    if m.application_properties.is_some() {
        o.push(desc(0x74, t_vstm(&m.application_properties)?));
    }
    for d in &m.body.data {
        o.push(desc(0x75, V::Bin(d.to_vec())));
    }
    for d in &m.body.sequence {
        o.push(desc(0x76, vto(&Variant::List(d.clone()))?));
    }
    if let Some(v) = &m.body.value {
        o.push(desc(0x77, vto(v)?));
    }
    for n in &m.body.messages {
        let b = match n {
            TransferBody::Data(d) => d.to_vec(),
            TransferBody::Message(_) => return Err("nested typed message".into()),
        };
        o.push(desc(0x75, V::Bin(b)));
    }
    if m.footer.is_some() {
        o.push(desc(0x78, t_fields(&m.footer)?));
    }
    Ok(o)
}

#[allow(unused)]
pub fn amqp(ch: u16, v: &V, body: &[u8]) -> AmqpFrame {
    AmqpFrame::new(ch, frame(v, body))
}
#[allow(unused)]
pub fn sasl_frame(v: &V) -> SaslFrame {
    SaslFrame::new(sasl(v))
}
