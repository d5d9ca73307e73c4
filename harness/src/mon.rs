//! Online monitor of one AMQP endpoint, at the wire.  It is fed every frame delivered to the endpoint
//! (`rx`) and every frame the endpoint emitted (`tx`), and `quiet` whenever the endpoint has come to
//! rest.  It knows nothing about the implementation: the rules are those of AMQP 1.0 part 2.
//!
//! A limit that the peer lowered may be honoured late (the frame lowering it can still be unread), so
//! the monitor allows the largest limit announced since the endpoint was last at rest.
use crate::wire::desc;
use crate::wire::{V, WFrame};
use std::collections::{BTreeMap, HashMap};

pub const OPEN: u64 = 0x10;
pub const BEGIN: u64 = 0x11;
pub const ATTACH: u64 = 0x12;
pub const FLOW: u64 = 0x13;
pub const TRANSFER: u64 = 0x14;
pub const DISP: u64 = 0x15;
pub const DETACH: u64 = 0x16;
pub const END: u64 = 0x17;
pub const CLOSE: u64 = 0x18;

pub fn kind(code: u64) -> &'static str {
    match code {
        OPEN => "Open",
        BEGIN => "Begin",
        ATTACH => "Attach",
        FLOW => "Flow",
        TRANSFER => "Transfer",
        DISP => "Disposition",
        DETACH => "Detach",
        END => "End",
        CLOSE => "Close",
        0x40 => "SaslMechanisms",
        0x41 => "SaslInit",
        0x42 => "SaslChallenge",
        0x43 => "SaslResponse",
        0x44 => "SaslOutcome",
        _ => "?",
    }
}

/// Field access on a performative list
#[derive(Clone, Copy)]
pub struct F<'a>(pub &'a [V]);
impl<'a> F<'a> {
    pub fn get(&self, i: usize) -> Option<&'a V> {
        self.0.get(i).filter(|v| !v.is_null())
    }
    pub fn u(&self, i: usize) -> Option<u64> {
        match self.get(i)? {
            V::Ubyte(x) => Some(*x as u64),
            V::Ushort(x) => Some(*x as u64),
            V::Uint(x) => Some(*x as u64),
            V::Ulong(x) => Some(*x),
            _ => None,
        }
    }
    pub fn u32(&self, i: usize) -> Option<u32> {
        self.u(i).map(|x| x as u32)
    }
    pub fn b(&self, i: usize) -> Option<bool> {
        match self.get(i)? {
            V::Bool(b) => Some(*b),
            _ => None,
        }
    }
    pub fn s(&self, i: usize) -> Option<&'a str> {
        match self.get(i)? {
            V::Str(s) | V::Sym(s) => Some(s),
            _ => None,
        }
    }
    pub fn bin(&self, i: usize) -> Option<&'a [u8]> {
        match self.get(i)? {
            V::Bin(b) => Some(b),
            _ => None,
        }
    }
}

/// (condition, description) of an error value
pub fn err_of(v: Option<&V>) -> Option<(String, Option<String>)> {
    if let Some(V::Desc(_, b)) = v
        && let V::List(l) = &**b
    {
        let (c, d, i) = (F(l).s(0).unwrap_or(""), F(l).s(1), F(l).get(2).cloned().unwrap_or(V::Null));
        let c = if i == info_of(d) { c.to_string() } else { format!("{c}!info {i:?}") };
        return Some((c, d.map(String::from)));
    }
    None
}

/// The `info` that goes with an error of the given description
pub fn info_of(d: Option<&str>) -> V {
    match d {
        Some(d) if d.ends_with('i') => {
            V::Map(vec![(V::Sym("text".into()), V::Str(d.to_string())), (V::Sym("n".into()), V::Uint(u32::try_from(d.len()).unwrap()))])
        }
        _ => V::Null,
    }
}

/// A limit on a monotone count, as an offset from its start
#[derive(Clone, Debug, Default)]
pub struct Limit {
    pub cur: i64,
    pub max: i64,
    pub ever: i64,
}
impl Limit {
    pub fn new(v: i64) -> Limit {
        Limit { cur: v, max: v, ever: v }
    }
    pub fn set(&mut self, v: i64) {
        self.cur = v;
        self.max = self.max.max(v);
        self.ever = self.ever.max(v);
    }
    pub fn settle(&mut self) {
        self.max = self.cur;
    }
}

/// A performative as the specification sees it: absent fields and defaults are the same
pub fn seen(code: u64, l: &[V]) -> String {
    match crate::codec_checks::norm(desc(code, V::List(l.to_vec()))) {
        Ok(v) => format!("{:?}", single(v)),
        Err(e) => format!("unreadable: {e}"),
    }
}
/// one symbol and an array of one symbol are the same "multiple" field
pub fn single(v: V) -> V {
    match v {
        V::Array(mut l) if l.len() == 1 && matches!(l[0], V::Sym(_)) => l.remove(0),
        V::Desc(d, b) => V::Desc(d, Box::new(single(*b))),
        V::List(l) => V::List(l.into_iter().map(single).collect()),
        v => v,
    }
}
pub fn serial_diff(a: u32, b: u32) -> i64 {
    a.wrapping_sub(b) as i32 as i64
}

#[derive(Clone, Debug, Default)]
pub struct TxDel {
    pub lh: u32,
    pub id: u32,
    pub tag: Vec<u8>,
    pub format: u32,
    pub body: Vec<u8>,
    /// sent settled
    pub presettled: bool,
    pub done: bool,
    pub aborted: bool,
    pub settled_by_peer: bool,
    pub settled_by_us: bool,
    pub state: Option<V>,
    /// every state the peer ever gave it
    pub states: Vec<V>,
    pub frames: u32,
    pub link_uid: usize,
    /// the endpoint's own dispositions: settled, state
    pub disp: Vec<(bool, V)>,
}

#[derive(Clone, Debug, Default)]
pub struct RxDel {
    pub rh: u32,
    pub link_uid: usize,
    pub id: u32,
    pub tag: Vec<u8>,
    pub body: Vec<u8>,
    pub format: u32,
    pub done: bool,
    pub aborted: bool,
    pub peer_settled: bool,
    /// peer settled it since the last quiet point: a disposition may cross
    pub peer_settled_fresh: bool,
    pub us_settled: bool,
    /// the states the peer gave
    pub states: Vec<V>,
    pub disp: Vec<V>,
    pub overrun: bool,
    /// its first Transfer
    pub perf: Vec<V>,
    /// a Transfer of it said so
    pub presettled: bool,
}

#[derive(Clone, Debug, Default)]
pub struct MLink {
    pub uid: usize,
    pub name: String,
    /// the endpoint under test is the sender
    pub sender: bool,
    pub lh: u32,
    pub rh: Option<u32>,
    pub att_tx: bool,
    pub att_rx: bool,
    pub det_tx: bool,
    pub det_rx: bool,
    /// the peer's Detach came before the endpoint's own
    pub det_rx_first: bool,
    pub det_tx_err: Option<(String, Option<String>)>,
    pub det_rx_err: Option<(String, Option<String>)>,
    /// peer's attach was a refusal (null source/target to be followed by detach)
    pub initial: u32,
    pub begun: i64,
    pub credit: Limit,
    pub cur: Option<usize>, // index into tx/rx deliveries of the open multi-frame delivery
    pub peer_max_msg: u64,
    pub own_max_msg: u64,
    pub local_init: bool,
    pub flows_tx: u32,
    /// Flows of the peer that named the credit of this link
    pub flows_rx: u32,
    pub overrun: bool,
    /// the Attach of each side
    pub att_tx_v: Vec<V>,
    pub att_rx_v: Vec<V>,
}
impl MLink {
    pub fn live(&self) -> bool {
        self.att_tx && self.att_rx && !self.det_tx && !self.det_rx
    }
}

#[derive(Clone, Debug, Default)]
pub struct PendingAttach {
    pub name: String,
    pub sut_sender: bool,
    pub rh: u32,
    pub initial: u32,
    pub max_msg: u64,
    pub det_rx: bool,
    pub det_err: Option<(String, Option<String>)>,
    pub answered: bool,
    pub perf: Vec<V>,
    /// (delivery-count, link-credit) of the last Flow for it
    pub flow: Option<(Option<u32>, u32)>,
}

#[derive(Clone, Debug, Default)]
pub struct MSess {
    pub uid: usize,
    pub local: u16,
    pub remote: Option<u16>,
    pub begin_tx: bool,
    pub begin_rx: bool,
    pub end_tx: bool,
    pub end_rx: bool,
    pub local_init: bool,
    pub tx_first: u32,
    pub rx_first: u32,
    pub tx_frames: i64,
    pub rx_frames: i64,
    /// transfer frames of the peer surely processed
    pub rx_rested: i64,
    pub window: Limit,
    pub next_delivery: Option<u32>,
    pub links: Vec<MLink>,
    pub pend: Vec<PendingAttach>,
    pub tx: Vec<TxDel>,
    pub rx: Vec<RxDel>,
    pub end_tx_err: Option<(String, Option<String>)>,
    pub end_rx_err: Option<(String, Option<String>)>,
    /// the peer's End came before the endpoint's own
    pub end_rx_first: bool,
    /// the Begin of each side
    pub begin_tx_v: Vec<V>,
    pub begin_rx_v: Vec<V>,
}

impl MSess {
    pub fn live(&self) -> bool {
        self.begin_tx && self.begin_rx && !self.end_tx && !self.end_rx
    }
    pub fn by_lh(&mut self, lh: u32) -> Option<&mut MLink> {
        self.links.iter_mut().rev().find(|l| l.att_tx && l.lh == lh)
    }
    pub fn by_rh(&mut self, rh: u32) -> Option<usize> {
        self.links.iter().rposition(|l| l.att_rx && !l.det_rx && l.rh == Some(rh))
    }
    pub fn link(&self, uid: usize) -> Option<&MLink> {
        self.links.iter().find(|l| l.uid == uid)
    }
}

#[derive(Clone, Debug, Default)]
pub struct PendingBegin {
    pub ch: u16,
    pub noi: u32,
    pub iw: u32,
    pub frames: Vec<WFrame>,
    pub perf: Vec<V>,
}

/// An event the control service has to see
#[derive(Clone, Debug)]
pub struct Ev {
    pub kind: &'static str,
    pub sess: usize,
    pub name: String,
    pub detail: String,
}

#[derive(Default)]
pub struct Mon {
    /// the peer does not conform any more: record, do not judge
    pub off: bool,
    pub log: Vec<String>,
    pub viols: Vec<(String, String, String)>,
    pub counts: BTreeMap<String, u64>,
    pub peer_max_frame: Option<u32>,
    pub own_max_frame: Option<u32>,
    pub peer_channel_max: Option<u16>,
    pub own_channel_max: Option<u16>,
    pub own_idle: Option<u32>,
    pub hdr_tx: Vec<[u8; 8]>,
    pub open_tx: bool,
    pub open_rx: bool,
    pub close_tx: bool,
    pub close_rx: bool,
    pub close_tx_err: Option<(String, Option<String>)>,
    pub close_rx_err: Option<(String, Option<String>)>,
    pub sess: Vec<MSess>,
    /// peer channel -> index of live session
    pub rmap: HashMap<u16, usize>,
    pub pend_begin: Vec<PendingBegin>,
    /// what the control service has to be told, in wire order
    pub events: Vec<Ev>,
    pub next_uid: usize,
    /// answers may legitimately be outstanding (the application holds a control event)
    pub hold: bool,
    /// the peer broke the protocol on purpose: only safety rules about what is emitted apply
    pub hostile: bool,
    /// the transport is gone
    pub lost: bool,
    /// user-chosen tags may repeat
    pub dup_tags: bool,
    pub big_frames: u64,
    pub tx_total: u64,
    pub rx_total: u64,
}

fn short(v: &V) -> String {
    match v {
        V::Null => "-".into(),
        V::Bool(b) => b.to_string(),
        V::Ubyte(x) => x.to_string(),
        V::Ushort(x) => x.to_string(),
        V::Uint(x) => x.to_string(),
        V::Ulong(x) => x.to_string(),
        V::Str(s) => format!("'{s}'"),
        V::Sym(s) => format!(":{s}"),
        V::Bin(b) if b.len() <= 8 => format!("x{}", b.iter().map(|x| format!("{x:02x}")).collect::<String>()),
        V::Bin(b) => format!("bin[{}]", b.len()),
        V::Desc(d, b) => format!("{}{}", short(d), short(b)),
        V::List(l) => format!("[{}]", l.iter().map(short).collect::<Vec<_>>().join(" ")),
        V::Map(m) => format!("map[{}]", m.len()),
        V::Array(m) => format!("arr[{}]", m.len()),
        _ => format!("{v:?}"),
    }
}

pub fn show(f: &WFrame) -> String {
    match f.parts() {
        Ok(Some((c, l))) => {
            let fields = if l.len() > 12 { &l[..12] } else { l };
            format!(
                "ch{} {}({}){}",
                f.channel,
                kind(c),
                fields.iter().map(short).collect::<Vec<_>>().join(" "),
                if f.payload.is_empty() { String::new() } else { format!(" +{}B", f.payload.len()) }
            )
        }
        Ok(None) => format!("ch{} empty", f.channel),
        Err(e) => format!("ch{} malformed {e:?}", f.channel),
    }
}

impl Mon {
    pub fn v(&mut self, prop: &str, key: &str, what: impl Into<String>) {
        let what: String = what.into();
        self.log.push(format!("!! {prop} {key}: {what}"));
        if self.viols.len() < 50 {
            let n = self.log.len();
            let from = n.saturating_sub(60);
            let w = format!("{what}\n  trace:\n    {}", self.log[from..].join("\n    "));
            self.viols.push((prop.into(), key.into(), w));
        }
    }
    pub fn c(&mut self, k: &str) {
        if let Some(c) = self.counts.get_mut(k) {
            *c += 1;
        } else {
            self.counts.insert(k.into(), 1);
        }
    }
    pub fn note(&mut self, s: impl Into<String>) {
        self.log.push(format!("   -- {}", s.into()));
    }
    fn uid(&mut self) -> usize {
        self.next_uid += 1;
        self.next_uid
    }
    pub fn find_local(&self, ch: u16) -> Option<usize> {
        self.sess.iter().rposition(|s| s.begin_tx && s.local == ch)
    }
    pub fn channel_limit(&self) -> u16 {
        self.peer_channel_max.unwrap_or(u16::MAX).min(self.own_channel_max.unwrap_or(u16::MAX))
    }

    // ---- frames delivered to the endpoint -----------------------------------------------------
    pub fn rx(&mut self, f: &WFrame) {
        self.rx_total += 1;
        self.log.push(format!("> {}", show(f)));
        if f.ftype != 0 {
            return;
        }
        let Ok(Some((code, l))) = f.parts() else {
            return;
        };
        self.c(&format!("rx {}", kind(code)));
        let l = F(l);
        match code {
            OPEN => {
                self.open_rx = true;
                self.peer_max_frame = Some(l.u32(2).unwrap_or(u32::MAX));
                self.peer_channel_max = Some(l.u(3).unwrap_or(65535) as u16);
            }
            CLOSE => {
                self.close_rx = true;
                self.close_rx_err = err_of(l.get(0));
                self.events.push(Ev { kind: "ProtocolError", sess: 0, name: String::new(), detail: format!("{:?}", self.close_rx_err) });
            }
            BEGIN => {
                let noi = l.u32(1).unwrap_or(0);
                let iw = l.u32(2).unwrap_or(0);
                if let Some(rc) = l.u(0) {
                    if let Some(i) = self.find_local(rc as u16)
                        && !self.sess[i].begin_rx
                    {
                        let s = &mut self.sess[i];
                        s.begin_rx = true;
                        s.remote = Some(f.channel);
                        s.rx_first = noi;
                        s.window = Limit::new(iw as i64);
                        s.begin_rx_v = l.0.to_vec();
                        self.rmap.insert(f.channel, i);
                    }
                } else {
                    self.pend_begin.push(PendingBegin { ch: f.channel, noi, iw, frames: vec![], perf: l.0.to_vec() });
                }
            }
            _ => {
                if let Some(&i) = self.rmap.get(&f.channel) {
                    self.rx_sess(i, code, l, f);
                } else if let Some(p) = self.pend_begin.iter_mut().rev().find(|p| p.ch == f.channel) {
                    // pipelined behind a Begin that is not answered yet
                    p.frames.push(f.clone());
                }
            }
        }
    }

    fn rx_sess(&mut self, i: usize, code: u64, l: F, f: &WFrame) {
        let mut ev: Option<(&'static str, String)> = None;
        let s = &mut self.sess[i];
        let suid = s.uid;
        match code {
            END => {
                ev = Some(("RemoteSessionEnded", String::new()));
                s.end_rx = true;
                s.end_rx_first = !s.end_tx;
                s.end_rx_err = err_of(l.get(0));
                self.rmap.remove(&f.channel);
            }
            ATTACH => {
                let name = l.s(0).unwrap_or("").to_string();
                let rh = l.u32(1).unwrap_or(0);
                let peer_receiver = l.b(2).unwrap_or(false);
                let initial = l.u32(9).unwrap_or(0);
                let max_msg = l.u(10).unwrap_or(0);
                if let Some(k) = s.links.iter_mut().find(|k| {
                    k.name == name && k.sender == peer_receiver && k.att_tx && !k.att_rx && k.local_init
                        && !k.det_rx
                }) {
                    k.att_rx = true;
                    k.rh = Some(rh);
                    k.peer_max_msg = max_msg;
                    k.att_rx_v = l.0.to_vec();
                    if !k.sender {
                        k.initial = initial;
                    }
                } else {
                    ev = Some((if peer_receiver { "AttachSender" } else { "AttachReceiver" }, name.clone()));
                    s.pend.push(PendingAttach {
                        name,
                        sut_sender: peer_receiver,
                        rh,
                        initial,
                        max_msg,
                        perf: l.0.to_vec(),
                        ..Default::default()
                    });
                }
            }
            DETACH => {
                let rh = l.u32(0).unwrap_or(0);
                if let Some(k) = s.by_rh(rh) {
                    let k = &mut s.links[k];
                    k.det_rx = true;
                    k.det_rx_first = !k.det_tx;
                    k.det_rx_err = err_of(l.get(2));
                    let kind = if k.sender { "RemoteDetachSender" } else { "RemoteDetachReceiver" };
                    ev = Some((kind, k.name.clone()));
                } else if let Some(p) = s.pend.iter_mut().find(|p| p.rh == rh && !p.det_rx) {
                    p.det_rx = true;
                    p.det_err = err_of(l.get(2));
                    let kind = if p.sut_sender { "RemoteDetachSender" } else { "RemoteDetachReceiver" };
                    ev = Some((kind, p.name.clone()));
                }
            }
            FLOW => {
                let nii = l.u32(0);
                let iw = l.u32(1).unwrap_or(0);
                let base = nii.map_or(0, |n| serial_diff(n, s.tx_first));
                s.window.set(base + iw as i64);
                if let Some(h) = l.u32(4) {
                    if let Some(k) = s.by_rh(h) {
                        let k = &mut s.links[k];
                        if k.sender {
                            ev = Some(("Flow", k.name.clone()));
                        }
                        if k.sender && let Some(cr) = l.u32(6) {
                            let base = l.u32(5).map_or(0, |d| serial_diff(d, k.initial));
                            k.credit.set(base + cr as i64);
                            k.flows_rx += 1;
                        }
                    } else if let Some(p) = s.pend.iter_mut().find(|p| p.rh == h && !p.det_rx && p.sut_sender) {
                        ev = Some(("Flow", p.name.clone()));
                        if let Some(cr) = l.u32(6) {
                            p.flow = Some((l.u32(5), cr));
                        }
                    }
                }
            }
            TRANSFER => {
                s.rx_frames += 1;
                let rh = l.u32(0).unwrap_or(0);
                let more = l.b(5).unwrap_or(false);
                let aborted = l.b(9).unwrap_or(false);
                let settled = l.b(4);
                if let Some(ki) = s.by_rh(rh)
                    && !s.links[ki].sender
                {
                    let d = match s.links[ki].cur {
                        Some(d) => d,
                        None => {
                            let k = &mut s.links[ki];
                            k.begun += 1;
                            let overrun = k.begun > k.credit.ever;
                            if overrun {
                                k.overrun = true;
                            }
                            s.rx.push(RxDel {
                                rh,
                                link_uid: s.links[ki].uid,
                                id: l.u32(1).unwrap_or(0),
                                tag: l.bin(2).unwrap_or(&[]).to_vec(),
                                format: l.u32(3).unwrap_or(0),
                                overrun,
                                perf: l.0.to_vec(),
                                ..Default::default()
                            });
                            s.rx.len() - 1
                        }
                    };
                    let r = &mut s.rx[d];
                    r.body.extend_from_slice(&f.payload);
                    if settled == Some(true) {
                        r.presettled = true;
                        r.peer_settled = true;
                    }
                    if aborted {
                        r.aborted = true;
                        r.body.clear();
                        s.links[ki].cur = None;
                    } else if more {
                        s.links[ki].cur = Some(d);
                    } else {
                        r.done = true;
                        s.links[ki].cur = None;
                    }
                }
            }
            DISP => {
                let peer_receiver = l.b(0).unwrap_or(false);
                let first = l.u32(1).unwrap_or(0);
                let last = l.u32(2).unwrap_or(first);
                let settled = l.b(3).unwrap_or(false);
                let n = last.wrapping_sub(first);
                if peer_receiver {
                    for d in s.tx.iter_mut() {
                        if d.id.wrapping_sub(first) <= n && !d.settled_by_peer && !d.presettled {
                            if let Some(v) = l.get(4) {
                                d.state = Some(v.clone());
                                d.states.push(v.clone());
                            }
                            if settled {
                                d.settled_by_peer = true;
                            }
                        }
                    }
                } else {
                    for d in s.rx.iter_mut() {
                        if d.id.wrapping_sub(first) <= n && !d.peer_settled {
                            if let Some(v) = l.get(4) {
                                d.states.push(v.clone());
                            }
                            if settled {
                                d.peer_settled = true;
                                d.peer_settled_fresh = true;
                            }
                        }
                    }
                }
            }
            _ => {}
        }
        if let Some((kind, name)) = ev {
            let detail = if code == END { String::new() } else { seen(code, l.0) };
            self.events.push(Ev { kind, sess: suid, name, detail });
        }
    }

    // ---- frames the endpoint emitted ----------------------------------------------------------
    pub fn tx_header(&mut self, h: &[u8]) {
        self.log.push(format!("< header {h:?}"));
        let mut a = [0; 8];
        a.copy_from_slice(&h[..8]);
        self.hdr_tx.push(a);
    }

    pub fn tx(&mut self, f: &WFrame, size: usize) {
        self.tx_total += 1;
        self.log.push(format!("< {}", show(f)));
        if self.off {
            if matches!(f.parts(), Ok(Some((CLOSE, _)))) {
                self.close_tx = true;
            }
            return;
        }
        if f.ftype != 0 {
            if self.open_tx {
                self.v("N01", "sasl-after-open", "a SASL frame was emitted after Open");
            }
            return;
        }
        let parts = match f.parts() {
            Ok(p) => p,
            Err(e) => {
                self.v("C03", "malformed-frame", format!("endpoint emitted a malformed frame: {e:?}"));
                return;
            }
        };
        if self.close_tx {
            self.v("S09", "frame-after-close", format!("emitted after Close: {}", show(f)));
        }
        if self.open_rx
            && let Some(m) = self.peer_max_frame
        {
            if size > m as usize {
                self.v(
                    "N02",
                    "frame-exceeds-max",
                    format!("frame of {size} bytes, peer's max-frame-size is {m}: {}", show(f)),
                );
            }
            if size * 10 > m as usize * 9 {
                self.big_frames += 1;
            }
        }
        let Some((code, l)) = parts else {
            self.c("tx empty");
            if !self.open_tx {
                self.v("N01", "frame-before-open", "an empty frame was emitted before Open");
            }
            return;
        };
        self.c(&format!("tx {}", kind(code)));
        let l = F(l);
        if code != OPEN && !self.open_tx {
            self.v("N01", "frame-before-open", format!("emitted before Open: {}", show(f)));
        }
        match code {
            OPEN => {
                if self.open_tx {
                    self.v("N01", "second-open", "Open was emitted twice");
                }
                self.open_tx = true;
                self.own_max_frame = Some(l.u32(2).unwrap_or(u32::MAX));
                self.own_channel_max = Some(l.u(3).unwrap_or(65535) as u16);
                self.own_idle = l.u32(4);
            }
            CLOSE => {
                self.close_tx = true;
                self.close_tx_err = err_of(l.get(0));
            }
            BEGIN => self.tx_begin(f.channel, l),
            _ => {
                let Some(i) = self.find_local(f.channel) else {
                    self.v("N03", "frame-on-unbegun-channel", format!("no Begin on the channel: {}", show(f)));
                    return;
                };
                if self.sess[i].end_tx {
                    let k = if code == END { "second-end" } else { "frame-after-end" };
                    self.v("S09", k, format!("emitted after End on the channel: {}", show(f)));
                    return;
                }
                self.tx_sess(i, code, l, f);
            }
        }
    }

    fn tx_begin(&mut self, ch: u16, l: F) {
        // the own maximum limits what the peer may use, and what the endpoint begins itself
        let lim = if l.u(0).is_some() { self.peer_channel_max.unwrap_or(u16::MAX) } else { self.channel_limit() };
        if ch > lim {
            self.v("N03", "channel-above-max", format!("Begin on channel {ch}, the negotiated maximum is {lim}"));
        }
        if let Some(i) = self.find_local(ch) {
            let s = &self.sess[i];
            if !(s.end_tx && s.end_rx) {
                self.v(
                    "N03",
                    "channel-reused-early",
                    format!("Begin on channel {ch} while its previous session is not fully ended"),
                );
            }
        }
        let uid = self.uid();
        let mut s = MSess {
            uid,
            local: ch,
            begin_tx: true,
            tx_first: l.u32(1).unwrap_or(0),
            begin_tx_v: l.0.to_vec(),
            ..Default::default()
        };
        if let Some(rc) = l.u(0) {
            let rc = rc as u16;
            if let Some(p) = self.pend_begin.iter().position(|p| p.ch == rc) {
                let p = self.pend_begin.remove(p);
                s.remote = Some(p.ch);
                s.begin_rx = true;
                s.rx_first = p.noi;
                s.window = Limit::new(p.iw as i64);
                s.begin_rx_v = p.perf;
                self.sess.push(s);
                let i = self.sess.len() - 1;
                self.rmap.insert(p.ch, i);
                for f in p.frames {
                    if let Ok(Some((c, l))) = f.parts() {
                        self.rx_sess(i, c, F(l), &f);
                    }
                }
            } else {
                self.v("N03", "begin-answers-nothing", format!("Begin names remote-channel {rc} which has no open Begin"));
                self.sess.push(s);
            }
        } else {
            s.local_init = true;
            self.sess.push(s);
        }
    }

    #[allow(clippy::too_many_lines)]
    fn tx_sess(&mut self, i: usize, code: u64, l: F, f: &WFrame) {
        let mut bad: Vec<(&'static str, &'static str, String)> = vec![];
        let uid = self.next_uid + 1;
        let dup_tags = self.dup_tags;
        let s = &mut self.sess[i];
        match code {
            END => {
                s.end_tx = true;
                s.end_tx_err = err_of(l.get(0));
            }
            ATTACH => {
                let name = l.s(0).unwrap_or("").to_string();
                let lh = l.u32(1).unwrap_or(0);
                let receiver = l.b(2).unwrap_or(false);
                if let Some(k) = s.by_lh(lh)
                    && !k.det_tx
                {
                    bad.push(("S09", "attach-on-used-handle", format!("handle {lh} is still attached to '{}'", k.name)));
                }
                let mut k = MLink {
                    uid,
                    name: name.clone(),
                    sender: !receiver,
                    lh,
                    att_tx: true,
                    own_max_msg: l.u(10).unwrap_or(0),
                    initial: l.u32(9).unwrap_or(0),
                    att_tx_v: l.0.to_vec(),
                    ..Default::default()
                };
                if let Some(p) = s.pend.iter().position(|p| !p.answered && p.name == name && p.sut_sender == k.sender) {
                    let p = s.pend.remove(p);
                    k.rh = Some(p.rh);
                    k.att_rx = true;
                    k.det_rx = p.det_rx;
                    k.det_rx_first = p.det_rx;
                    k.det_rx_err = p.det_err;
                    k.peer_max_msg = p.max_msg;
                    k.att_rx_v = p.perf;
                    if !k.sender {
                        k.initial = p.initial;
                    } else if let Some((dc, cr)) = p.flow {
                        let base = dc.map_or(0, |d| serial_diff(d, k.initial));
                        k.credit.set(base + cr as i64);
                    }
                } else {
                    k.local_init = true;
                }
                s.links.push(k);
                self.next_uid += 1;
            }
            DETACH => {
                let lh = l.u32(0).unwrap_or(0);
                match s.by_lh(lh) {
                    None => bad.push(("S09", "detach-unattached", format!("Detach of handle {lh} which was never attached"))),
                    Some(k) if k.det_tx => bad.push(("S09", "second-detach", format!("second Detach on handle {lh} ('{}')", k.name))),
                    Some(k) => {
                        k.det_tx = true;
                        k.det_tx_err = err_of(l.get(2));
                        let overrun = k.overrun;
                        let cond = k.det_tx_err.as_ref().map(|e| e.0.clone()).unwrap_or_default();
                        if cond == "amqp:link:transfer-limit-exceeded" && !k.sender && !overrun {
                            bad.push((
                                "S03",
                                "refused-within-credit",
                                format!("link detached with transfer-limit-exceeded after {} deliveries, granted {}", k.begun, k.credit.ever),
                            ));
                        }
                    }
                }
            }
            FLOW => {
                if !self.hostile && s.begin_rx {
                    // the state of the session it announces
                    match l.u32(0) {
                        None => bad.push(("S03", "flow-without-incoming-id", show(f))),
                        Some(n) => {
                            let off = serial_diff(n, s.rx_first);
                            if off < s.rx_rested || off > s.rx_frames {
                                bad.push((
                                    "S03",
                                    "flow-incoming-id",
                                    format!("Flow announces next-incoming-id {n}, the peer began at {} and sent {} transfers ({} surely processed)", s.rx_first, s.rx_frames, s.rx_rested),
                                ));
                            }
                            let left = off + l.u32(1).unwrap_or(0) as i64 - s.rx_frames;
                            if left <= 0 {
                                bad.push(("S03", "flow-window-closed", format!("Flow leaves the peer a window of {left}")));
                            }
                        }
                    }
                    let want = s.tx_first.wrapping_add(s.tx_frames as u32);
                    if l.u32(2) != Some(want) {
                        bad.push(("S03", "flow-outgoing-id", format!("Flow announces next-outgoing-id {:?}, {} transfers were sent from {}", l.u32(2), s.tx_frames, s.tx_first)));
                    }
                }
                if let Some(lh) = l.u32(4) {
                    match s.by_lh(lh) {
                        None => bad.push(("S09", "flow-unattached", format!("Flow for handle {lh} which is not attached"))),
                        Some(k) if k.det_tx => bad.push(("S09", "flow-after-detach", format!("Flow for handle {lh} after its Detach"))),
                        Some(k) if !k.sender => {
                            k.flows_tx += 1;
                            let cr = l.u32(6).unwrap_or(0);
                            match l.u32(5) {
                                None => {
                                    if k.att_rx && k.begun > 0 {
                                        bad.push(("S03", "flow-without-count", format!("Flow for '{}' has no delivery-count after {} deliveries", k.name, k.begun)));
                                    }
                                    k.credit.set(cr as i64);
                                }
                                Some(dc) => {
                                    let off = serial_diff(dc, k.initial);
                                    if off < 0 || off > k.begun {
                                        bad.push((
                                            "S03",
                                            "flow-delivery-count",
                                            format!("Flow for '{}' announces delivery-count {dc} (initial {}), {} deliveries were sent to it", k.name, k.initial, k.begun),
                                        ));
                                    }
                                    k.credit.set(off + cr as i64);
                                }
                            }
                        }
                        Some(_) => {}
                    }
                }
            }
            TRANSFER => {
                let lh = l.u32(0);
                let Some(lh) = lh else {
                    self.v("S06", "no-handle", show(f));
                    return;
                };
                s.tx_frames += 1;
                if s.tx_frames > s.window.max {
                    bad.push((
                        "S02",
                        "window-exceeded",
                        format!("transfer frame number {} on the session, the peer's window allows {}", s.tx_frames, s.window.max),
                    ));
                }
                let Some(ki) = s.links.iter().rposition(|k| k.att_tx && k.lh == lh) else {
                    self.v("S06", "transfer-unattached", show(f));
                    return;
                };
                if s.links[ki].det_tx {
                    bad.push(("S09", "transfer-after-detach", format!("Transfer on handle {lh} after its Detach")));
                } else if !s.links[ki].sender {
                    bad.push(("S06", "transfer-on-receiver", format!("Transfer on receiver handle {lh}")));
                } else if !s.links[ki].att_rx {
                    bad.push(("S06", "transfer-before-attach", format!("Transfer on handle {lh} before the peer attached")));
                }
                let more = l.b(5).unwrap_or(false);
                let aborted = l.b(9).unwrap_or(false);
                let settled = l.b(4);
                let d = match s.links[ki].cur {
                    Some(d) => {
                        let cur = &s.tx[d];
                        if let Some(id) = l.u32(1)
                            && id != cur.id
                        {
                            bad.push(("S06", "id-changes", format!("continuation carries delivery-id {id}, the delivery is {}", cur.id)));
                        }
                        if let Some(t) = l.bin(2)
                            && t != cur.tag
                        {
                            bad.push(("S06", "tag-changes", format!("continuation carries another tag: {}", show(f))));
                        }
                        if let Some(m) = l.u32(3)
                            && m != cur.format
                        {
                            bad.push(("S06", "format-changes", show(f)));
                        }
                        if settled == Some(false) && cur.presettled && cur.frames > 0 {
                            bad.push(("S06", "settled-changes", show(f)));
                        }
                        d
                    }
                    None => {
                        let k = &mut s.links[ki];
                        k.begun += 1;
                        if k.begun > k.credit.max {
                            bad.push((
                                "S01",
                                "credit-exceeded",
                                format!("delivery number {} on '{}', the receiver permits {}", k.begun, k.name, k.credit.max),
                            ));
                        }
                        let (kuid, klh) = (k.uid, k.lh);
                        let id = l.u32(1);
                        let tag = l.bin(2);
                        match (id, s.next_delivery) {
                            (None, _) => bad.push(("S06", "no-delivery-id", show(f))),
                            (Some(id), Some(n)) if id != n => {
                                bad.push(("S06", "id-not-consecutive", format!("delivery-id {id}, expected {n}")));
                            }
                            _ => {}
                        }
                        if let Some(id) = id {
                            s.next_delivery = Some(id.wrapping_add(1));
                        }
                        match tag {
                            None => bad.push(("S06", "no-tag", show(f))),
                            Some(t) if t.len() > 32 => bad.push(("S06", "tag-too-long", format!("tag of {} bytes", t.len()))),
                            Some(t) => {
                                if !dup_tags
                                    && settled != Some(true)
                                    && s.tx.iter().any(|d| {
                                        d.link_uid == kuid
                                            && d.tag == t
                                            && !d.presettled
                                            && !d.settled_by_peer
                                            && !d.settled_by_us
                                            && !d.aborted
                                    })
                                {
                                    bad.push(("S06", "tag-reused", format!("tag {t:?} is in use by an unsettled delivery of the link")));
                                }
                            }
                        }
                        s.tx.push(TxDel {
                            lh: klh,
                            link_uid: kuid,
                            id: id.unwrap_or(0),
                            tag: tag.unwrap_or(&[]).to_vec(),
                            format: l.u32(3).unwrap_or(0),
                            ..Default::default()
                        });
                        s.tx.len() - 1
                    }
                };
                let t = &mut s.tx[d];
                t.frames += 1;
                t.body.extend_from_slice(&f.payload);
                if settled == Some(true) {
                    t.presettled = true;
                }
                if aborted {
                    t.aborted = true;
                    s.links[ki].cur = None;
                } else if more {
                    s.links[ki].cur = Some(d);
                } else {
                    t.done = true;
                    s.links[ki].cur = None;
                }
            }
            DISP => {
                let role_receiver = l.b(0).unwrap_or(false);
                let first = l.u32(1).unwrap_or(0);
                let last = l.u32(2).unwrap_or(first);
                let settled = l.b(3).unwrap_or(false);
                let n = last.wrapping_sub(first);
                if n > 100_000 {
                    bad.push(("S05", "disposition-range", show(f)));
                }
                if role_receiver {
                    let mut hit = 0u32;
                    for d in s.rx.iter_mut().filter(|d| d.id.wrapping_sub(first) <= n) {
                        hit += 1;
                        if d.us_settled {
                            bad.push(("S05", "settled-twice", format!("second disposition for delivery {} after settling it", d.id)));
                        }
                        if d.peer_settled && !d.peer_settled_fresh {
                            bad.push(("S05", "disposition-after-remote-settled", format!("disposition for delivery {} which the sender had already settled", d.id)));
                        }
                        if d.aborted {
                            bad.push(("S05", "disposition-aborted", format!("disposition for aborted delivery {}", d.id)));
                        }
                        if settled {
                            d.us_settled = true;
                        }
                        d.disp.push(l.get(4).cloned().unwrap_or(V::Null));
                    }
                    if hit == 0 {
                        bad.push(("S05", "disposition-unknown-id", format!("disposition for ids no delivery has: {}", show(f))));
                    }
                } else {
                    let mut hit = 0u32;
                    for d in s.tx.iter_mut().filter(|d| d.id.wrapping_sub(first) <= n) {
                        hit += 1;
                        if d.settled_by_us || d.presettled {
                            bad.push(("S05", "settled-twice", format!("the sender's disposition for delivery {} which it has settled", d.id)));
                        }
                        if settled {
                            d.settled_by_us = true;
                        }
                        d.disp.push((settled, l.get(4).cloned().unwrap_or(V::Null)));
                    }
                    if hit == 0 {
                        bad.push(("S05", "disposition-unknown-id", format!("the sender's disposition for ids no delivery has: {}", show(f))));
                    }
                }
            }
            OPEN => bad.push(("N01", "second-open", show(f))),
            _ => bad.push(("S09", "unexpected-frame", show(f))),
        }
        for (p, k, w) in bad {
            self.v(p, k, w);
        }
    }

    /// The endpoint is at rest.
    pub fn quiet(&mut self) {
        let mut bad: Vec<(&'static str, &'static str, String)> = vec![];
        let alive = !self.close_tx && !self.close_rx && !self.lost;
        for s in &mut self.sess {
            s.window.settle();
            if !self.hold {
                s.rx_rested = s.rx_frames;
            }
            for d in &mut s.rx {
                d.peer_settled_fresh = false;
            }
            for k in &mut s.links {
                if !self.hold {
                    k.credit.settle();
                }
            }
            if self.hold || self.hostile || !alive {
                continue;
            }
            if s.end_rx && !s.end_tx {
                bad.push(("S09", "end-unanswered", format!("End on channel {:?} was not answered", s.remote)));
            }
            if !s.live() {
                continue;
            }
            for k in &s.links {
                if k.det_rx && !k.det_tx {
                    bad.push(("S09", "detach-unanswered", format!("Detach of '{}' (peer handle {:?}) was not answered", k.name, k.rh)));
                }
            }
            for p in &s.pend {
                if !p.answered {
                    bad.push(("S09", "attach-unanswered", format!("Attach of '{}' (peer handle {}) was not answered", p.name, p.rh)));
                }
            }
        }
        if !self.hold && !self.hostile {
            if alive {
                for p in &self.pend_begin {
                    bad.push(("S09", "begin-unanswered", format!("Begin on peer channel {} was not answered", p.ch)));
                }
            }
            if self.close_rx && !self.close_tx && self.open_tx {
                bad.push(("S09", "close-unanswered", "Close was not answered".into()));
            }
        }
        for (p, k, w) in bad {
            self.v(p, k, w);
        }
        // report each of these once
        for s in &mut self.sess {
            if self.hold || self.hostile {
                continue;
            }
            if s.end_rx && !s.end_tx {
                s.end_tx = true;
            }
            for k in &mut s.links {
                if k.det_rx {
                    k.det_tx = true;
                }
            }
            {
                for p in &mut s.pend {
                    p.answered = true;
                }
            }
        }
    }
}
