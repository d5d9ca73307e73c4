//! A scripted AMQP peer and an application driven at random around one real endpoint.  The peer obeys
//! the protocol, and everything the endpoint and its API do is judged against the wire monitor's state.
use crate::app::{self, App, Err2, Inbox, SutCfg, proto_err};
use crate::conv;
use crate::mon::{self, F, MLink};
use crate::net::{Slot, Wire, yield_now};
use crate::rng::Rng;
use crate::wire::{Style, V, desc, st, sym};
use ntex_amqp::error::AmqpProtocolError;
use ntex_amqp::{Delivery, ReceiverLink, SenderLink, Session};
use ntex_bytes::Bytes;
use ntex_io::testing::IoTest;
use std::cell::{Cell, RefCell};
use std::collections::{BTreeMap, HashMap, HashSet};
use std::rc::Rc;

type E = AmqpProtocolError;
type PErr = (&'static str, Option<Err2>);

#[path = "judge.rs"]
mod judge;
#[path = "hostile.rs"]
mod hostile;

pub const MAIN: &[(&str, u32)] = &[
    ("a_open", 6),
    ("a_attach_s", 8),
    ("a_attach_r", 6),
    ("a_send", 30),
    ("a_wait", 14),
    ("a_ready", 4),
    ("a_credit", 5),
    ("a_settle", 14),
    ("a_drop", 1),
    ("a_cancel", 2),
    ("a_close_link", 3),
    ("a_end", 1),
    ("a_onclose", 2),
    ("a_ssettle", 1),
    ("p_answer", 30),
    ("p_begin", 4),
    ("p_attach_s", 6),
    ("p_attach_r", 6),
    ("p_pipeline", 2),
    ("p_credit", 18),
    ("p_window", 8),
    ("p_transfer", 26),
    ("p_disp", 16),
    ("p_sdisp", 5),
    ("a_rwait", 2),
    ("p_detach", 3),
    ("p_end", 1),
    ("p_echo", 1),
    ("p_empty", 1),
    ("g_hold", 0),
    ("g_release", 8),
    ("g_unready", 0),
    ("a_burst", 0),
];

/// `small_window` while several hundred messages are to be sent
const WIDE: usize = 1000;
#[derive(Clone, Debug)]
pub struct Prof {
    pub w: BTreeMap<&'static str, u32>,
    pub steps: (usize, usize),
    pub max_frames: Vec<u32>,
    pub ch_max: Vec<u16>,
    pub own_ch_max: Vec<u16>,
    /// percentage of sends / transfers with a big body
    pub big: usize,
    pub big_max: usize,
    /// percentage of links with a message size limit
    pub limits: usize,
    /// percentage of refusals / errors attached to closings
    pub errs: usize,
    pub refuse: usize,
    /// session windows: percentage of small ones
    pub small_window: usize,
    /// percentage of steps followed by rest
    pub rest: usize,
    pub slow_peer: usize,
    pub long_err: bool,
    pub extreme: usize,
    /// names of links are shared by the two directions / used again
    pub reuse_names: usize,
    pub fail_ctl: usize,
    pub overrun: bool,
    pub max_links: usize,
    pub max_sess: usize,
    /// percentage of attaches, begins and transfers with many fields
    pub rich: usize,
    /// percentage of histories whose services take one call at a time / end with a failed readiness check
    pub serial: usize,
    pub fail_ready: usize,
}
impl Default for Prof {
    fn default() -> Prof {
        Prof {
            w: MAIN.iter().copied().collect(),
            steps: (20, 90),
            max_frames: vec![512, 1024, 4096, 65535, u32::MAX],
            ch_max: vec![65535],
            own_ch_max: vec![1024],
            big: 10,
            big_max: 6000,
            limits: 10,
            errs: 40,
            refuse: 8,
            small_window: 35,
            rest: 55,
            slow_peer: 5,
            long_err: false,
            extreme: 25,
            reuse_names: 10,
            fail_ctl: 0,
            overrun: false,
            max_links: 25,
            max_sess: 13,
            rich: 3,
            serial: 0,
            fail_ready: 0,
        }
    }
}
impl Prof {
    pub fn set(mut self, w: &[(&'static str, u32)]) -> Self {
        for (k, v) in w {
            assert!(self.w.insert(k, *v).is_some(), "{k}");
        }
        self
    }
}

struct WaitOp {
    slot: Slot<Result<Option<ntex_amqp::codec::protocol::DeliveryState>, E>>,
    judged: bool,
    after_settle: bool,
    known: usize,
}

struct SendOp {
    id: u32,
    body: Vec<u8>,
    tag: Option<Vec<u8>>,
    settled: bool,
    format: Option<u32>,
    slot: Slot<Result<Delivery, E>>,
    delivery: Option<Rc<RefCell<Delivery>>>,
    ok: bool,
    err: Option<PErr>,
    err_judged: bool,
    cancelled: bool,
    stop: Rc<Cell<bool>>,
    waker: Rc<RefCell<Option<std::task::Waker>>>,
    waits: Vec<WaitOp>,
    did: Option<u32>,
    over: bool,
    local_settled: Option<V>,
    /// what the application did with it: settled, state
    own: Vec<(bool, V)>,
    dropped: bool,
    born_dead: bool,
}

#[derive(Default)]
struct PartTx {
    id: u32,
    tag: Vec<u8>,
    rest: Vec<Vec<u8>>,
    format: Option<u32>,
    settled: bool,
    settle_last: bool,
    abort_at: Option<usize>,
    sent: usize,
    limit_left: Option<i64>,
}

struct WLink {
    name: String,
    suid: usize,
    sender: bool,
    local: bool,
    aslot_s: Option<Slot<Result<SenderLink, E>>>,
    aslot_r: Option<Slot<Result<ReceiverLink, E>>>,
    s: Option<SenderLink>,
    r: Option<ReceiverLink>,
    attach_err: Option<PErr>,
    close: Vec<Slot<Result<(), E>>>,
    app_closed: bool,
    close_err: Option<Err2>,
    close_judged: bool,
    /// the endpoint has to detach the link itself, with this condition
    must_detach: Option<(String, Option<String>)>,
    sends: Vec<SendOp>,
    on_close: Vec<Slot<()>>,
    ready: Vec<Slot<bool>>,
    /// waits for a credit update that began without credit
    /// pending on_credit_update() with the number of Flows before it, if there was credit already
    credit_upd: Vec<(Slot<()>, Option<u32>)>,
    part: Option<PartTx>,
    peer_refused: bool,
    peer_err: Option<Err2>,
    own_limit: u64,
    /// credit a service granted while the link was being attached, and nothing since
    granted: Option<u32>,
    /// given to a sender by the application
    set_limit: u64,
    seen: usize,
    uid: Option<usize>,
    refuse: Option<String>,
    oversize_sent: bool,
    size_limit_hit: bool,
    /// the failure that detaches the link has been caused
    fail_armed: bool,
    /// number of the attach of the peer
    att_id: u32,
    ctl_done: bool,
    inbox: Option<Rc<RefCell<Inbox>>>,
    msgs_ok: usize,
    tx_ok: usize,
    ev_loose: bool,
    /// fields the application gave to the builder: (field, value)
    given: Option<Vec<(usize, V)>>,
    given_ok: bool,
    /// the Attach may be larger than the peer's frames
    too_big: bool,
    view_ok: bool,
}

struct WSess {
    uid: usize,
    chan: u16,
    s: Session,
    end: Vec<Slot<Result<(), E>>>,
    end_judged: bool,
    app_ended: bool,
}

struct PeerSess {
    next_id: u32,
}

pub struct World {
    pub rng: Rng,
    pub w: Wire,
    pub app: Rc<App>,
    pub ended: Slot<Result<(), String>>,
    pub p: Prof,
    pub cfg: SutCfg,
    prop: String,
    sess: Vec<WSess>,
    links: Vec<WLink>,
    opening: Vec<Slot<Result<Session, E>>>,
    /// no channel was free when open_session was called
    opening_full: Vec<bool>,
    /// what was given to the session's builder, and whether it may not fit a frame
    opening_given: Vec<(Vec<V>, bool)>,
    psess: HashMap<(u16, usize), PeerSess>,
    next_attach: u32,
    next_name: u32,
    next_op: u32,
    pub trace: Vec<&'static str>,
    app_conn_closed: bool,
    app_conn_err: Option<Err2>,
    cut: bool,
    conn_close: Vec<Slot<Result<(), E>>>,
    conn_on_close: Vec<Slot<()>>,
    ctl_seen: usize,
    ev_seen: usize,
    reported: HashSet<String>,
    conn_ever_dead: bool,
    /// the endpoint has another reason to close the connection
    conn_cause: bool,
    /// get_error() of the connection when it was first there
    conn_err: Option<PErr>,
}

fn perf(code: u64, l: Vec<V>) -> V {
    desc(code, V::List(l))
}
fn ou(x: Option<u32>) -> V {
    x.map_or(V::Null, V::Uint)
}
fn err_v(e: &Option<Err2>) -> V {
    match e {
        None => V::Null,
        Some((c, d)) => desc(0x1d, V::List(vec![sym(c), d.as_ref().map_or(V::Null, |d| st(d)), mon::info_of(d.as_deref())])),
    }
}
/// trailing nulls of lists do not matter, nor does how an absent error is written
pub fn norm(v: &V) -> V {
    match v {
        V::Desc(d, b) => V::Desc(d.clone(), Box::new(norm(b))),
        V::List(l) => {
            let mut l: Vec<V> = l.iter().map(norm).collect();
            while l.last().is_some_and(V::is_null) {
                l.pop();
            }
            V::List(l)
        }
        _ => v.clone(),
    }
}
fn code_of(v: &V) -> u64 {
    match v {
        V::Desc(d, _) => match &**d {
            V::Ulong(x) => *x,
            _ => 0,
        },
        _ => 0,
    }
}
/// what was emitted for an error; a description is cut if its frame would exceed the peer's max-frame-size
fn same_err(got: &Option<Err2>, want: &Option<Err2>, max: Option<u32>) -> bool {
    if got == want {
        return true;
    }
    let (Some(g), Some(w)) = (got, want) else { return false };
    let d = w.1.as_deref().unwrap_or("");
    let info = if mon::info_of(Some(d)).is_null() { 0 } else { d.len() + 30 };
    let full = d.len() + w.0.len() + info;
    if info > 0 && g.0.split('!').next() == Some(&w.0) && g.0.ends_with("Null") && g.1 == w.1 {
        // only the map was given up
        return max.is_some_and(|m| full + 120 > m as usize);
    }
    g.0 == w.0 && d.starts_with(g.1.as_deref().unwrap_or("")) && max.is_some_and(|m| full + 120 > m as usize && g.1.as_ref().map_or(0, String::len) + 160 + w.0.len() > m as usize)
}
fn same_sent_state(got: &V, want: &V, max: Option<u32>) -> bool {
    if same_state(got, want) {
        return true;
    }
    let e = |v: &V| match v {
        V::Desc(_, b) => match &**b {
            V::List(l) => mon::err_of(l.first()),
            _ => None,
        },
        _ => None,
    };
    code_of(got) == 0x25 && code_of(want) == 0x25 && e(got).is_some() && same_err(&e(got), &e(want), max)
}
/// modified: absent flags are false
fn same_state(a: &V, b: &V) -> bool {
    if code_of(a) == 0x27 && code_of(b) == 0x27 {
        let f = |v: &V| match v {
            V::Desc(_, b) => match &**b {
                V::List(l) => (F(l).b(0).unwrap_or(false), F(l).b(1).unwrap_or(false), l.get(2).cloned().filter(|v| !v.is_null())),
                _ => (false, false, None),
            },
            _ => (false, false, None),
        };
        return f(a) == f(b);
    }
    norm(a) == norm(b)
}

impl World {
    pub fn prop_hint(&self) -> &str {
        &self.prop
    }
    /// Connects a client or server and completes the plain handshake
    pub async fn connect(prop: &str, p: Prof, mut rng: Rng) -> World {
        let cfg = SutCfg {
            server: rng.chance(50),
            own_channel_max: *rng.pick(&p.own_ch_max),
            own_max_frame: *rng.pick(&[1024, 4096, 65535]),
            ..SutCfg::default()
        };
        let (peer, sut) = IoTest::create();
        let style = if rng.chance(60) { Style::random(Rng::new(rng.u64())) } else { Style::smallest() };
        let mut w = Wire::new(peer, style);
        w.ext = rng.chance(10);
        if rng.chance(p.slow_peer) {
            w.cap = rng.range(40, 2000);
        }
        let app = Rc::new(App::default());
        w.app = Some(app.clone());
        let mut serial = false;
        for r in &app.ready {
            if rng.chance(p.serial) {
                r.serial.set(true);
                serial = true;
            }
        }
        if serial {
            w.mon.c("histories with services that take one call at a time");
            w.mon.note(format!("one call at a time: control {} publish {}", app.ready[0].serial.get(), app.ready[1].serial.get()));
            app.chaos(Rng::new(rng.u64()), 0);
        }
        let ended = app::start(&app, sut, &cfg);
        let mut wd = World {
            rng,
            w,
            app,
            ended,
            p,
            cfg,
            prop: prop.to_string(),
            sess: vec![],
            links: vec![],
            opening: vec![],
            opening_full: vec![],
            opening_given: vec![],
            psess: HashMap::new(),
            next_attach: 0,
            next_name: 0,
            next_op: 0,
            trace: vec![],
            app_conn_closed: false,
            app_conn_err: None,
            cut: false,
            conn_close: vec![],
            conn_on_close: vec![],
            ctl_seen: 0,
            ev_seen: 0,
            reported: HashSet::new(),
            conn_ever_dead: false,
            conn_cause: false,
            conn_err: None,
        };
        wd.handshake().await;
        wd
    }

    pub fn open_perf(&mut self) -> V {
        let mf = *self.rng.pick(&self.p.max_frames.clone());
        let cm = *self.rng.pick(&self.p.ch_max.clone());
        perf(
            mon::OPEN,
            vec![
                st("peer"),
                V::Null,
                if mf == u32::MAX && self.rng.chance(50) { V::Null } else { V::Uint(mf) },
                if cm == 65535 && self.rng.chance(50) { V::Null } else { V::Ushort(cm) },
            ],
        )
    }

    async fn handshake(&mut self) {
        self.w.queue_raw(b"AMQP\x00\x01\x00\x00".to_vec());
        let o = self.open_perf();
        self.w.queue(0, 0, Some(&o), &[]);
        let mut r = Rng::new(self.rng.u64());
        self.w.flush(&mut r).await;
        self.w.settle().await;
        let ok = matches!(&*self.app.opened.borrow(), Some(Ok(())));
        if !ok || !self.w.mon.open_tx {
            let s = format!("plain handshake did not complete: {:?} {:?}", self.app.opened.borrow(), self.ended.with(|r| format!("{r:?}")));
            self.v(&["*", "N01"], "handshake-failed", s);
        }
    }

    // ---- reporting ---------------------------------------------------------------------------
    /// "*" stands for the property being checked: a broken conforming history breaks them all
    pub fn v(&mut self, props: &[&str], key: &str, what: impl Into<String>) {
        let what = what.into();
        if self.w.mon.off {
            return;
        }
        if !self.reported.insert(format!("{key}:{}", &what[..what.len().min(60)].to_string())) {
            return;
        }
        let mut done = vec![];
        for p in props {
            let p = if *p == "*" { self.prop.clone() } else { (*p).to_string() };
            if !done.contains(&p) {
                self.w.mon.v(&p, key, what.clone());
                done.push(p);
            }
        }
    }

    // ---- state queries -----------------------------------------------------------------------
    pub fn conn_dead(&self) -> bool {
        !self.w.is_open() || self.w.mon.close_tx || self.w.mon.close_rx || self.ended.done() || self.app_conn_closed
    }
    fn ms(&self, uid: usize) -> Option<usize> {
        self.w.mon.sess.iter().position(|s| s.uid == uid)
    }
    fn sess_dead(&self, uid: usize) -> bool {
        self.conn_dead()
            || match self.ms(uid) {
                None => false,
                Some(i) => {
                    let s = &self.w.mon.sess[i];
                    s.end_tx || s.end_rx
                }
            }
            || self.sess.iter().any(|s| s.uid == uid && s.app_ended)
    }
    /// nothing that is pending on the session can still be answered
    fn sess_over(&self, uid: usize) -> bool {
        self.conn_dead() || self.ms(uid).is_some_and(|i| self.w.mon.sess[i].end_rx)
    }
    fn link_over(&self, li: usize) -> bool {
        let l = &self.links[li];
        // what arrives on a session after its End was sent is discarded
        let ended = self.sess.iter().any(|s| s.uid == l.suid && s.app_ended);
        self.sess_over(l.suid) || !ended && (l.app_closed || self.ml(li).is_some_and(|k| k.det_tx || k.det_rx))
    }
    /// the Detach of the peer has been seen
    fn link_gone(&self, li: usize) -> bool {
        let l = &self.links[li];
        let ended = self.sess.iter().any(|s| s.uid == l.suid && s.app_ended);
        self.sess_over(l.suid) || !ended && self.ml(li).is_some_and(|k| k.det_rx)
    }
    fn sess_live(&self, uid: usize) -> bool {
        !self.sess_dead(uid) && self.ms(uid).is_some_and(|i| self.w.mon.sess[i].live())
    }
    fn ml(&self, li: usize) -> Option<&MLink> {
        let l = &self.links[li];
        let i = self.ms(l.suid)?;
        let s = &self.w.mon.sess[i];
        match l.uid {
            Some(u) => s.link(u),
            None => None,
        }
    }
    /// binds world links to monitor links as they appear
    fn bind(&mut self) {
        let taken: HashSet<usize> = self.links.iter().filter_map(|l| l.uid).collect();
        for i in 0..self.links.len() {
            if self.links[i].uid.is_some() {
                continue;
            }
            let (suid, name, sender) = (self.links[i].suid, self.links[i].name.clone(), self.links[i].sender);
            if let Some(si) = self.ms(suid) {
                let u = self.w.mon.sess[si]
                    .links
                    .iter()
                    .find(|k| k.name == name && k.sender == sender && !taken.contains(&k.uid))
                    .map(|k| k.uid);
                self.links[i].uid = u;
            }
        }
    }
    fn link_dead(&self, li: usize) -> bool {
        let l = &self.links[li];
        if self.sess_dead(l.suid) || l.app_closed {
            return true;
        }
        match self.ml(li) {
            Some(k) => k.det_tx || k.det_rx,
            None => false,
        }
    }
    fn link_live(&self, li: usize) -> bool {
        !self.link_dead(li) && self.ml(li).is_some_and(MLink::live)
    }
    /// the peer may still send frames on the session
    fn peer_can(&self, si: usize) -> bool {
        let s = &self.w.mon.sess[si];
        self.w.is_open() && !self.w.mon.close_rx && !self.w.mon.close_tx && !self.ended.done() && s.begin_tx && s.begin_rx && !s.end_rx && s.remote.is_some()
    }

    // ---- peer primitives ---------------------------------------------------------------------
    async fn send(&mut self, ch: u16, p: &V, payload: &[u8]) {
        self.w.queue(0, ch, Some(p), payload);
        let mut r = Rng::new(self.rng.u64());
        self.w.flush(&mut r).await;
    }
    fn name(&mut self) -> String {
        if !self.links.is_empty() && self.rng.chance(self.p.reuse_names) {
            // a name that is free again, or is only used in the other direction
            let i = self.rng.below(self.links.len());
            return self.links[i].name.clone();
        }
        self.next_name += 1;
        format!("n{}", self.next_name)
    }
    fn name_free(&self, suid: usize, name: &str, sender: bool) -> bool {
        // any session: link names are per connection and direction
        let _ = suid;
        !self.links.iter().enumerate().any(|(i, l)| {
            l.name == name
                && l.sender == sender
                && !(self.w.mon.sess.iter().any(|s| s.uid == l.suid && s.end_tx && s.end_rx)
                    || self.ml(i).is_some_and(|k| k.det_tx && k.det_rx))
        })
    }
    fn error(&mut self) -> Option<Err2> {
        if !self.rng.chance(self.p.errs) {
            return None;
        }
        let c = *self.rng.pick(&[
            "amqp:internal-error",
            "amqp:not-found",
            "amqp:unauthorized-access",
            "amqp:link:detach-forced",
            "amqp:link:stolen",
            "amqp:resource-limit-exceeded",
            "amqp:connection:forced",
            "com.example:custom",
        ]);
        self.next_op += 1;
        let d = if self.rng.chance(80) {
            let n = if self.p.long_err && self.rng.chance(30) { self.rng.range(100, (self.cfg.own_max_frame as usize - 150).min(1500)) } else { 0 };
            let i = if n * 2 + 200 < self.cfg.own_max_frame as usize && self.rng.chance(25) { "i" } else { "" };
            // sometimes of characters of several bytes: a text is cut between characters only
            let fill = match self.rng.below(4) {
                0 if i.is_empty() => "\u{20ac}".repeat(n / 3),
                1 if i.is_empty() => "\u{1f600}".repeat(n / 4),
                _ => "x".repeat(n),
            };
            Some(format!("e{}{fill}{i}", self.next_op))
        } else {
            None
        };
        Some((c.to_string(), d))
    }
    fn free_handle(&mut self, si: usize) -> u32 {
        let s = &self.w.mon.sess[si];
        let used: HashSet<u32> = s
            .links
            .iter()
            .filter(|k| k.att_rx && !(k.det_rx && k.det_tx))
            .filter_map(|k| k.rh)
            .chain(s.pend.iter().map(|p| p.rh))
            .collect();
        let mut h = *self.rng.pick(&[0u32, 1, 2, 3, 7, 100, 65536, u32::MAX - 1, u32::MAX]);
        while used.contains(&h) {
            h = if self.rng.chance(80) { self.rng.below(40) as u32 } else { self.rng.u32() };
        }
        h
    }
    fn window_value(&mut self) -> u32 {
        if self.p.small_window == WIDE {
            return 100_000;
        }
        if self.rng.chance(self.p.small_window) {
            *self.rng.pick(&[0u32, 1, 1, 2, 3, 5])
        } else {
            *self.rng.pick(&[10u32, 100, 2048, 65535, i32::MAX as u32, u32::MAX])
        }
    }
    fn pkey(&self, si: usize) -> (u16, usize) {
        (self.w.mon.sess[si].remote.unwrap_or(0), self.w.mon.sess[si].uid)
    }
    fn delivery_id(&mut self, si: usize) -> u32 {
        let k = self.pkey(si);
        let start = *self.rng.pick(&[0u32, 1, 5, u32::MAX - 2, i32::MAX as u32]);
        let e = self.psess.entry(k).or_insert(PeerSess { next_id: start });
        let id = e.next_id;
        e.next_id = e.next_id.wrapping_add(1);
        id
    }
    fn live_sessions(&self) -> Vec<usize> {
        (0..self.w.mon.sess.len()).filter(|&i| self.w.mon.sess[i].live() && !self.conn_dead()).collect()
    }

    // ---- operations --------------------------------------------------------------------------
    async fn op(&mut self, name: &'static str) -> bool {
        match name {
            "a_open" => {
                self.settle_if_tight().await;
                self.a_open()
            }
            "a_attach_s" => self.a_attach(true),
            "a_attach_r" => self.a_attach(false),
            "a_send" => self.a_send().await,
            "a_wait" => self.a_wait().await,
            "a_ready" => self.a_ready(),
            "a_credit" => self.a_credit().await,
            "a_settle" => self.a_settle(),
            "a_drop" => self.a_drop(),
            "a_cancel" => self.a_cancel(),
            "a_close_link" => self.a_close_link(),
            "a_end" => self.a_end(),
            "a_onclose" => self.a_onclose(),
            "a_ssettle" => self.a_ssettle().await,
            "p_answer" => self.p_answer().await,
            "p_begin" => self.p_begin().await,
            "p_attach_s" => self.p_attach(false).await,
            "p_attach_r" => self.p_attach(true).await,
            "p_pipeline" => self.p_pipeline().await,
            "p_credit" => self.p_credit().await,
            "p_window" => self.p_window().await,
            "p_transfer" => self.p_transfer().await,
            "p_disp" => self.p_disp().await,
            "p_sdisp" => self.p_sdisp().await,
            "a_rwait" => self.a_rwait().await,
            "p_detach" => self.p_detach().await,
            "p_end" => self.p_end().await,
            "p_echo" => self.p_echo().await,
            "p_empty" => self.p_empty().await,
            "g_hold" => {
                if self.app.gate.get() || self.app.ready[0].serial.get() {
                    return false;
                }
                self.w.mon.note("control service holds");
                self.app.hold(true);
                self.w.mon.hold = true;
                true
            }
            "g_release" => self.release(),
            "g_unready" => self.unready().await,
            "a_burst" => self.a_burst().await,
            _ => unreachable!("{name}"),
        }
    }
    fn release(&mut self) -> bool {
        if !self.app.gate.get() {
            return false;
        }
        self.w.mon.note("control service released");
        self.app.hold(false);
        self.w.mon.hold = false;
        true
    }

    /// One of the services stops being ready until the endpoint is to rest the next time
    async fn unready(&mut self) -> bool {
        if self.app.ready.iter().any(|r| r.off.get()) || self.conn_dead() {
            return false;
        }
        let probe = self.rng.chance(40);
        if probe {
            self.rest().await;
        }
        if probe && self.app.ready[0].serial.get() && !self.app.gate.get() && self.rng.chance(50) {
            return self.busy().await;
        }
        let which = if self.cfg.server { self.rng.below(3) } else { 0 };
        self.w.mon.note(["control service is not ready", "publish service is not ready", "services are not ready"][which]);
        for (i, r) in self.app.ready.iter().enumerate() {
            if which == 2 || which == i {
                r.set(true);
            }
        }
        self.w.mon.c("windows in which a service is not ready");
        let c = self.live_sessions();
        if !probe || c.is_empty() || self.conn_dead() {
            return true;
        }
        self.held_back(&c).await;
        true
    }
    /// A control service that takes one call at a time is busy with a call
    async fn busy(&mut self) -> bool {
        let mut c = vec![];
        for i in self.live_sessions() {
            for (k, l) in self.w.mon.sess[i].links.iter().enumerate() {
                if l.live() && self.peer_can(i) {
                    c.push((i, k));
                }
            }
        }
        if c.is_empty() || self.conn_dead() {
            return true;
        }
        let (i, k) = *self.rng.pick(&c);
        let calls = self.app.ready[0].calls.get();
        self.w.mon.note("control service holds");
        self.app.hold(true);
        self.w.mon.hold = true;
        let l = &self.w.mon.sess[i].links[k];
        let (h, sender, dc, cr) = (l.rh.unwrap(), l.sender, l.initial.wrapping_add(l.begun as u32), (l.credit.cur - l.begun).max(0) as u32);
        let f = if sender { self.flow(i, Some(h), Some(dc), Some(cr), false) } else { self.flow(i, Some(h), None, None, false) };
        let ch = self.w.mon.sess[i].remote.unwrap();
        self.send(ch, &f, &[]).await;
        for _ in 0..40 {
            yield_now().await;
            self.w.drain();
        }
        let c = self.live_sessions();
        if self.app.ready[0].calls.get() == calls + 1 && self.app.ready[0].running.get() == 1 && !c.is_empty() {
            self.w.mon.c("windows in which the control service is busy with its one call");
            self.held_back(&c).await;
        }
        self.release();
        true
    }
    /// Nothing of what arrives now is acted upon
    async fn held_back(&mut self, c: &[usize]) {
        let i = *self.rng.pick(c);
        let n = |m: &mon::Mon| m.tx_total - m.counts.get("tx empty").copied().unwrap_or(0);
        let before = (n(&self.w.mon), self.app.ready[0].calls.get(), self.app.ready[1].calls.get(), self.app.pulled.get());
        let f = self.flow(i, None, None, None, true);
        let ch = self.w.mon.sess[i].remote.unwrap();
        self.send(ch, &f, &[]).await;
        for _ in 0..40 {
            yield_now().await;
            self.w.drain();
        }
        let after = (n(&self.w.mon), self.app.ready[0].calls.get(), self.app.ready[1].calls.get(), self.app.pulled.get());
        self.w.mon.c("input held back while a service is not ready");
        if before != after {
            self.v(&["E02"], "acted-while-unready", format!("a Flow with echo arrived while a service was not ready: (frames emitted, control calls, publish calls, messages received) went from {before:?} to {after:?}"));
        }
    }

    fn live_chan_count(&self) -> usize {
        self.w.mon.sess.iter().filter(|s| !(s.end_tx && s.end_rx)).count()
    }

    fn a_open(&mut self) -> bool {
        if self.conn_dead() || self.w.mon.sess.len() >= self.p.max_sess {
            return false;
        }
        let Some(c) = self.app.conn.borrow().clone() else { return false };
        self.w.mon.note("app: open_session");
        self.opening_full.push(self.live_chan_count() > self.w.mon.channel_limit() as usize);
        if self.rng.chance(self.p.rich) {
            let l = self.rich_list(true, mon::BEGIN, &[5, 6, 7], |l| {
                for (i, v) in [V::Null, V::Uint(1), V::Uint(u32::MAX), V::Uint(u32::MAX), V::Uint(u32::MAX)].into_iter().enumerate() {
                    l[i] = v;
                }
            });
            let v = desc(mon::BEGIN, V::List(l.clone()));
            let big = self.may_be_too_big(&v);
            self.opening_given.push((l[5..8].to_vec(), big));
            let ntex_amqp::codec::protocol::Frame::Begin(b) = conv::frame(&v, &[]) else { unreachable!() };
            self.w.mon.c("sessions built with parameters");
            self.opening.push(Slot::run(async move {
                let mut o = c.open_session();
                if let Some(x) = b.offered_capabilities() {
                    o = o.offered_capabilities(x.clone());
                }
                if let Some(x) = b.desired_capabilities() {
                    o = o.desired_capabilities(x.clone());
                }
                for (k, v) in b.properties().into_iter().flat_map(|p| p.iter()) {
                    o = o.property(k.clone(), v.clone());
                }
                if b.properties().is_some_and(|p| p.len() % 2 == 0) { o.await } else { o.attach().await }
            }));
            return true;
        }
        self.opening_given.push((vec![V::Null, V::Null, V::Null], false));
        self.opening.push(Slot::run(async move { c.open_session().await }));
        true
    }

    /// Random values for these fields of a performative, representable by the crate; `fix` sets the others
    fn rich_list(&mut self, own: bool, code: u64, fields: &[usize], fix: impl Fn(&mut Vec<V>)) -> Vec<V> {
        let huge = self.rng.chance(10);
        let max = self.w.mon.peer_max_frame.unwrap_or(512).min(self.cfg.own_max_frame).min(4000) as usize;
        for _ in 0..20 {
            let V::Desc(_, b) = crate::schema::gtype(&mut self.rng, code) else { continue };
            let V::List(mut l) = *b else { continue };
            let n = crate::schema::ty(code).unwrap().f.len();
            l.resize(n, V::Null);
            for (i, v) in l.iter_mut().enumerate() {
                if !fields.contains(&i) {
                    *v = V::Null;
                }
            }
            fix(&mut l);
            if own && self.rng.chance(6) {
                // a frame that only just fits, or just does not
                let last = n - 1;
                l[last] = V::Map(vec![(sym("pad"), st(&"p".repeat(60)))]);
                let size = crate::wire::encode(&desc(code, V::List(l.clone())), &mut Style::smallest()).len();
                let want = (max + self.rng.below(30) as usize).saturating_sub(24);
                if size < want && want - size < 3000 {
                    l[last] = V::Map(vec![(sym("pad"), st(&"p".repeat(60 + want - size)))]);
                    if !conv::representable(&desc(code, V::List(l.clone()))) {
                        continue;
                    }
                    self.w.mon.c("performatives as large as a frame");
                    return l;
                }
            }
            let v = desc(code, V::List(l.clone()));
            let size = crate::wire::encode(&v, &mut Style::smallest()).len();
            if (huge || size + 150 < max) && size < 20_000 && conv::representable(&v) {
                return l;
            }
        }
        let mut l = vec![V::Null; crate::schema::ty(code).unwrap().f.len()];
        fix(&mut l);
        l
    }
    /// the endpoint's encoding may be somewhat larger than the smallest one
    fn may_be_too_big(&self, v: &V) -> bool {
        let size = crate::wire::encode(v, &mut Style::smallest()).len();
        size + 8 + 80 > self.w.mon.peer_max_frame.unwrap_or(512) as usize
    }

    fn a_attach(&mut self, sender: bool) -> bool {
        let cand: Vec<usize> = (0..self.sess.len()).filter(|&i| self.sess_live(self.sess[i].uid)).collect();
        if cand.is_empty() || self.links.len() >= self.p.max_links {
            return false;
        }
        let si = *self.rng.pick(&cand);
        let name = self.name();
        if !self.name_free(self.sess[si].uid, &name, sender) {
            return false;
        }
        let s = self.sess[si].s.clone();
        let uid = self.sess[si].uid;
        self.w.mon.note(format!("app: attach {} '{name}' on ch{}", if sender { "sender" } else { "receiver" }, self.sess[si].chan));
        let mut l = self.new_link(name.clone(), uid, sender, true);
        if self.rng.chance(self.p.rich) {
            let fixed = name.clone();
            let term = desc(if sender { 0x29 } else { 0x28 }, V::List(vec![st(&name)]));
            let lim = if sender || !self.rng.chance(self.p.limits) { V::Null } else { V::Ulong(*self.rng.pick(&[1u64, 50, 300, 2000])) };
            let keep = self.rng.chance(50);
            let mut f: Vec<usize> = vec![3, 4, 5, 6, 7, 8, 9, 11, 12, 13];
            if sender {
                f.push(10);
            } else if let V::Ulong(n) = lim {
                l.own_limit = n;
            }
            let g = self.rich_list(true, mon::ATTACH, &f, |v| {
                v[0] = st(&fixed);
                v[1] = V::Uint(0);
                v[2] = V::Bool(!sender);
                let t = if sender { 6 } else { 5 };
                if v[t].is_null() || keep {
                    v[t] = term.clone();
                }
                if !sender {
                    v[10] = lim.clone();
                }
            });
            l.too_big = self.may_be_too_big(&desc(mon::ATTACH, V::List(g.clone())));
            let ntex_amqp::codec::protocol::Frame::Attach(a) = conv::frame(&desc(mon::ATTACH, V::List(g.clone())), &[]) else { unreachable!() };
            l.given = Some((2..14).map(|i| (i, g[i].clone())).collect());
            self.w.mon.c("links built with parameters");
            // through the builder's own methods where there are any
            let own = self.rng.chance(50);
            if sender {
                let b = s.build_sender_link(name.clone(), name);
                l.aslot_s = Some(Slot::run(async move {
                    let max = a.max_message_size();
                    let b = b.with_frame(move |f| {
                        let name = f.name().clone();
                        *f = a;
                        *f.name_mut() = name;
                        if own {
                            *f.max_message_size_mut() = None;
                        }
                    });
                    match max {
                        Some(m) if own => b.max_message_size(m).attach().await,
                        _ => b.attach().await,
                    }
                }));
            } else {
                let b = s.build_receiver_link(name.clone(), name);
                l.aslot_r = Some(Slot::run(async move {
                    if own {
                        let caps = a.source().and_then(|s| s.capabilities.clone());
                        let props = a.properties().cloned();
                        let max = a.max_message_size();
                        let mut b = b.with_frame(move |f| {
                            *f = a;
                            f.source_mut().as_mut().unwrap().capabilities = None;
                            *f.properties_mut() = None;
                            *f.max_message_size_mut() = None;
                        });
                        if let Some(m) = max {
                            b = b.max_message_size(m);
                        }
                        if let Some(c) = caps {
                            b = b.capabilities(c);
                        }
                        for (k, v) in props.into_iter().flat_map(|p| p.into_iter()) {
                            b = b.property(k.clone(), Some(1u32)).property(k.clone(), None::<u32>);
                            b = b.property(k, Some(v));
                        }
                        b.attach().await
                    } else {
                        b.with_frame(move |f| *f = a).attach().await
                    }
                }));
            }
            self.links.push(l);
            return true;
        }
        if sender {
            let b = s.build_sender_link(name.clone(), name);
            let idc = if self.rng.chance(self.p.extreme) { Some(*self.rng.pick(&[u32::MAX - 1, u32::MAX, i32::MAX as u32, 7])) } else { None };
            l.aslot_s = Some(Slot::run(async move {
                match idc {
                    Some(i) => b.with_frame(move |a| *a.initial_delivery_count_mut() = Some(i)).attach().await,
                    None => b.attach().await,
                }
            }));
        } else {
            let mut b = s.build_receiver_link(name.clone(), name);
            if self.rng.chance(self.p.limits) {
                l.own_limit = *self.rng.pick(&[1u64, 50, 300, 2000]);
                b = b.max_message_size(l.own_limit);
            }
            l.aslot_r = Some(Slot::run(b.attach()));
        }
        self.links.push(l);
        true
    }

    fn new_link(&self, name: String, suid: usize, sender: bool, local: bool) -> WLink {
        WLink {
            name,
            suid,
            sender,
            local,
            aslot_s: None,
            aslot_r: None,
            s: None,
            r: None,
            attach_err: None,
            close: vec![],
            app_closed: false,
            close_err: None,
            close_judged: false,
            must_detach: None,
            sends: vec![],
            on_close: vec![],
            ready: vec![],
            credit_upd: vec![],
            part: None,
            peer_refused: false,
            peer_err: None,
            own_limit: 0,
            granted: None,
            set_limit: 0,
            seen: 0,
            uid: None,
            refuse: None,
            oversize_sent: false,
            size_limit_hit: false,
            fail_armed: false,
            att_id: 0,
            ctl_done: false,
            inbox: None,
            msgs_ok: 0,
            tx_ok: 0,
            ev_loose: false,
            given: None,
            given_ok: false,
            too_big: false,
            view_ok: false,
        }
    }

    fn senders(&self) -> Vec<usize> {
        (0..self.links.len()).filter(|&i| self.links[i].s.is_some() && self.link_live(i)).collect()
    }
    fn receivers(&self) -> Vec<usize> {
        (0..self.links.len()).filter(|&i| !self.links[i].sender && self.link_live(i)).collect()
    }

    fn body(&mut self, id: u32, limit: u64) -> Vec<u8> {
        let n = if limit != 0 && limit < 100_000 && self.rng.chance(50) {
            let l = limit as usize;
            *self.rng.pick(&[l, l, l.saturating_sub(1), l.saturating_add(1), l.saturating_add(1), l.saturating_mul(2), l.saturating_add(700)])
        } else if self.rng.chance(self.p.big) {
            let m = self.w.mon.peer_max_frame.unwrap_or(512).min(self.p.big_max as u32) as usize;
            match self.rng.below(4) {
                0 => self.rng.range(1, self.p.big_max),
                1 => m.saturating_sub(self.rng.below(140)),
                2 => m * self.rng.range(1, 3) + self.rng.below(60),
                _ => (m.saturating_sub(self.rng.range(100, 180))) * self.rng.range(1, 4) + self.rng.below(3),
            }
        } else if self.rng.chance(4) {
            0
        } else {
            self.rng.range(8, 60)
        };
        let mut b = vec![];
        if n >= 8 {
            b.extend_from_slice(b"op:\0");
            b.extend_from_slice(&id.to_be_bytes());
            for i in 8..n {
                b.push((i as u32).wrapping_mul(31).wrapping_add(id.wrapping_mul(7)) as u8);
            }
        } else {
            b = vec![id as u8; n];
        }
        b
    }

    async fn a_send(&mut self) -> bool {
        let c = self.senders();
        if c.is_empty() {
            return false;
        }
        let li = *self.rng.pick(&c);
        // order of concurrent sends is only defined if nothing that wakes the earlier ones is in flight
        if self.links[li].sends.iter().any(|s| !s.slot.done() && !s.ok && s.err.is_none() && !s.cancelled) {
            self.rest().await;
            if !self.link_live(li) {
                return true;
            }
        }
        let n = if self.rng.chance(25) { self.rng.range(2, 6) } else { 1 };
        for _ in 0..n {
            self.one_send(li);
        }
        true
    }

    /// More deliveries than a byte can number are unsettled on one link at once
    async fn a_burst(&mut self) -> bool {
        let c = self.senders();
        if c.is_empty() || self.app.gate.get() {
            return false;
        }
        let li = *self.rng.pick(&c);
        self.rest().await;
        if !self.link_live(li) {
            return true;
        }
        let Some((i, k)) = self.links[li].uid.and_then(|u| {
            self.w.mon.sess.iter().enumerate().find_map(|(i, s)| s.links.iter().position(|l| l.uid == u).map(|k| (i, k)))
        }) else {
            return false;
        };
        if !self.peer_can(i) || !self.w.mon.sess[i].links[k].live() || !self.w.mon.sess[i].live() {
            return false;
        }
        let n = self.rng.range(280, 700);
        let (small, big) = (self.p.small_window, self.p.big);
        (self.p.small_window, self.p.big) = (WIDE, 0);
        let f = self.flow(i, None, None, None, false);
        let ch = self.w.mon.sess[i].remote.unwrap();
        self.send(ch, &f, &[]).await;
        let slow = self.rng.chance(30);
        if !slow {
            self.grant(i, k, Some(n as u32)).await;
        }
        for _ in 0..n {
            self.one_send(li);
        }
        if slow && self.peer_can(i) && self.w.mon.sess[i].live() && self.w.mon.sess[i].links[k].live() {
            self.grant(i, k, Some(n as u32)).await;
        }
        (self.p.small_window, self.p.big) = (small, big);
        self.w.settle().await;
        self.w.mon.c("bursts of several hundred messages");
        true
    }
    fn one_send(&mut self, li: usize) {
        self.next_op += 1;
        let id = self.next_op;
        let limit = self.ml(li).map_or(0, |k| k.peer_max_msg);
        if self.links[li].sends.is_empty() && self.rng.chance(self.p.limits) {
            // a limit of the application's own
            let n = *self.rng.pick(&[1u32, 30, 300, 2000]);
            if (limit == 0 || u64::from(n) < limit)
                && let Some(s) = &self.links[li].s
            {
                s.set_max_message_size(n);
                self.links[li].set_limit = u64::from(n);
            }
        }
        let limit = if self.links[li].set_limit > 0 { self.links[li].set_limit } else { limit };
        let body = self.body(id, limit);
        let tag = if self.rng.chance(30) {
            let n = self.rng.range(1, 28);
            let mut t = id.to_be_bytes().to_vec();
            t.extend(std::iter::repeat_n(b't', n));
            Some(t)
        } else {
            None
        };
        let settled = self.rng.chance(25);
        let format = if self.rng.chance(30) { Some(*self.rng.pick(&[0u32, 1, 77, u32::MAX])) } else { None };
        let s = self.links[li].s.clone().unwrap();
        let mut body = body;
        let mut own_format = None;
        let mut t = if self.rng.chance(8) {
            // a message, encoded by the crate where it is sent
            use ntex_amqp::codec::Encode;
            let mut m = if self.rng.chance(50) { crate::codec_checks::message(&mut self.rng, 1) } else { Default::default() };
            m.set_body(|b| b.set_data(Bytes::from(body.clone())));
            if self.rng.chance(40) {
                m.set_format(*self.rng.pick(&[0u32, 2, u32::MAX]));
            }
            own_format = m.0.message_format;
            let mut b = ntex_bytes::BytesMut::new();
            m.encode(&mut b);
            body = b.to_vec();
            self.w.mon.c("messages sent");
            #[allow(deprecated)]
            if self.rng.chance(50) { s.transfer(m) } else { s.delivery(m) }
        } else if self.rng.chance(50) {
            s.transfer(Bytes::from(body.clone()))
        } else {
            #[allow(deprecated)]
            s.delivery(Bytes::from(body.clone()))
        };
        let over = limit != 0 && body.len() as u64 > limit;
        if let Some(g) = &tag {
            t = t.tag(Bytes::from(g.clone()));
        }
        if settled {
            t = t.settled();
        }
        if let Some(f) = format {
            t = t.format(f);
        }
        let format = format.or(own_format);
        self.w.mon.note(format!("app: send op{id} on '{}' {}B settled={settled} tag={}", self.links[li].name, body.len(), tag.is_some()));
        let stop = Rc::new(Cell::new(false));
        let waker = Rc::new(RefCell::new(None));
        let slot = Slot::run_cancellable(async move { t.send().await }, stop.clone(), waker.clone());
        let born_dead = self.link_dead(li);
        self.links[li].sends.push(SendOp {
            id,
            body,
            tag,
            settled,
            format,
            slot,
            delivery: None,
            ok: false,
            err: None,
            err_judged: false,
            cancelled: false,
            stop,
            waker,
            waits: vec![],
            did: None,
            over,
            local_settled: None,
            own: vec![],
            dropped: false,
            born_dead,
        });
    }

    async fn a_wait(&mut self) -> bool {
        let rested = self.rng.chance(40);
        if rested {
            self.rest().await;
        }
        let c: Vec<(usize, usize)> = self.all_sends(|s| s.delivery.is_some() && s.waits.len() < 2);
        if c.is_empty() {
            return false;
        }
        let (li, k) = *self.rng.pick(&c);
        let d = self.links[li].sends[k].delivery.clone().unwrap();
        self.w.mon.note(format!("app: wait op{}", self.links[li].sends[k].id));
        #[allow(clippy::await_holding_refcell_ref)]
        let slot = Slot::run(async move {
            let d = d.borrow();
            d.wait().await
        });
        let after_settle = self.links[li].sends[k].local_settled.is_some();
        // what has surely been processed by now
        let known = if rested { self.tx_of(li, k).map_or(0, |d| d.states.len()) } else { 0 };
        self.links[li].sends[k].waits.push(WaitOp { slot, judged: false, after_settle, known });
        true
    }
    fn all_sends(&self, f: impl Fn(&SendOp) -> bool) -> Vec<(usize, usize)> {
        let mut o = vec![];
        for (i, l) in self.links.iter().enumerate() {
            for (k, s) in l.sends.iter().enumerate() {
                if f(s) {
                    o.push((i, k));
                }
            }
        }
        o
    }

    fn a_ready(&mut self) -> bool {
        let c = self.senders();
        if c.is_empty() {
            return false;
        }
        let li = *self.rng.pick(&c);
        let s = self.links[li].s.clone().unwrap();
        if (s.credit() == 0 || self.rng.chance(30)) && !s.is_closed() && self.rng.chance(40) {
            let had = if s.credit() == 0 { None } else { Some(self.ml(li).map_or(u32::MAX, |k| k.flows_rx)) };
            let w = s.on_credit_update();
            // it counts from when it is first asked
            let _ = w.poll_ready(&mut std::task::Context::from_waker(std::task::Waker::noop()));
            self.links[li].credit_upd.push((
                Slot::run(async move {
                    w.await;
                }),
                had,
            ));
            return true;
        }
        self.links[li].ready.push(Slot::run(async move { s.ready().await }));
        true
    }

    async fn a_credit(&mut self) -> bool {
        let c: Vec<usize> = self.receivers().into_iter().filter(|&i| self.links[i].r.is_some()).collect();
        if c.is_empty() {
            return false;
        }
        let li = *self.rng.pick(&c);
        let n = if self.rng.chance(self.p.extreme) {
            *self.rng.pick(&[0u32, 1, u32::MAX, i32::MAX as u32, 1000])
        } else {
            *self.rng.pick(&[0u32, 1, 1, 2, 5, 50])
        };
        self.rest().await;
        if !self.link_live(li) || self.app.gate.get() {
            return true;
        }
        let begun = self.ml(li).unwrap().begun;
        self.w.mon.note(format!("app: set_link_credit({n}) on '{}'", self.links[li].name));
        self.links[li].granted = None;
        self.links[li].r.as_ref().unwrap().set_link_credit(n);
        self.w.settle().await;
        if self.link_live(li) {
            let k = self.ml(li).unwrap();
            let (name, cur, part) = (k.name.clone(), k.credit.cur, i64::from(k.cur.is_some()));
            // a delivery in progress may count or not
            if k.begun == begun && cur != begun + i64::from(n) && cur != begun - part + i64::from(n) {
                self.v(
                    &["S03"],
                    "grant-not-announced",
                    format!("set_link_credit({n}) on '{name}' after {begun} deliveries: the peer may send up to {cur} in total"),
                );
            }
        }
        true
    }

    fn state(&mut self) -> V {
        match self.rng.below(10) {
            0..=4 => desc(0x24, V::List(vec![])),
            5 => desc(0x25, V::List(vec![])),
            6 | 7 => {
                let e = loop {
                    if let Some(e) = self.error() {
                        break e;
                    }
                    if self.p.errs == 0 {
                        break ("amqp:not-found".into(), None);
                    }
                };
                desc(0x25, V::List(vec![err_v(&Some(e))]))
            }
            8 => desc(0x26, V::List(vec![])),
            _ => desc(0x27, V::List(vec![V::Bool(true), V::Bool(self.rng.chance(50))])),
        }
    }

    fn unsettled_in(&self) -> Vec<(usize, usize)> {
        let mut o = vec![];
        for (li, l) in self.links.iter().enumerate() {
            if let Some(ib) = &l.inbox {
                for (i, m) in ib.borrow().msgs.iter().enumerate() {
                    if m.d.is_some() && !m.settled {
                        o.push((li, i));
                    }
                }
            }
        }
        o
    }

    fn a_settle(&mut self) -> bool {
        let c = self.unsettled_in();
        if c.is_empty() {
            return false;
        }
        let n = if self.rng.chance(20) { c.len().min(4) } else { 1 };
        for _ in 0..n {
            let c = self.unsettled_in();
            if c.is_empty() {
                break;
            }
            let (li, i) = *self.rng.pick(&c);
            let st = self.state();
            let two = self.rng.chance(15);
            let live = self.link_live(li);
            let key = self.links[li].name.clone();
            let ib = self.links[li].inbox.clone().unwrap();
            let mut ib = ib.borrow_mut();
            let m = &mut ib.msgs[i];
            let ps = self.peer_settled(li, m.id);
            m.loose |= !live || ps;
            self.w.mon.note(format!("app: settle delivery {} of '{key}' with {:x} two={two}", m.id, code_of(&st)));
            let d = m.d.as_mut().unwrap();
            if two {
                m.sent.push(st.clone());
                let r = self.links[li].r.clone();
                if let (true, Some(r)) = (live && !ps && !d.is_remote_settled() && self.rng.chance(30), r) {
                    // the frame itself
                    r.send_disposition(ntex_amqp::codec::protocol::Disposition(Box::new(ntex_amqp::codec::protocol::DispositionInner {
                        role: ntex_amqp::codec::protocol::Role::Receiver,
                        first: m.id,
                        last: if self.rng.chance(50) { Some(m.id) } else { None },
                        settled: false,
                        state: conv::state(&st),
                        batchable: self.rng.chance(50),
                    })));
                    self.w.mon.c("dispositions sent as frames");
                } else {
                    d.update_state(conv::state(&st).unwrap());
                }
                if self.rng.chance(50) {
                    continue;
                }
            }
            m.sent.push(st.clone());
            d.settle(conv::state(&st).unwrap());
            if self.rng.chance(15) {
                // settled is settled
                let st = self.rng.pick(&[0x24u64, 0x26]);
                let st = desc(*st, V::List(vec![]));
                d.settle(conv::state(&st).unwrap());
                d.update_state(conv::state(&st).unwrap());
                self.w.mon.c("deliveries settled again by their receiver");
            }
            m.settled = true;
            if self.rng.chance(50) {
                m.d = None;
            }
        }
        true
    }
    /// the application waits for the outcome of a delivery it received
    async fn a_rwait(&mut self) -> bool {
        let rested = self.rng.chance(40);
        if rested {
            self.rest().await;
        }
        let c: Vec<_> = self.unsettled_in();
        let mut c2 = vec![];
        for (li, i) in c {
            if self.links[li].inbox.as_ref().unwrap().borrow().msgs[i].waits < 2 {
                c2.push((li, i));
            }
        }
        if c2.is_empty() {
            return false;
        }
        let (li, i) = *self.rng.pick(&c2);
        let key = self.links[li].name.clone();
        let ib = self.links[li].inbox.clone().unwrap();
        let mut ib = ib.borrow_mut();
        let m = &mut ib.msgs[i];
        let uid = self.links[li].uid;
        let known = if rested {
            self.ms(self.links[li].suid)
                .and_then(|s| self.w.mon.sess[s].rx.iter().find(|d| Some(d.link_uid) == uid && d.id == m.id))
                .map_or(0, |d| d.states.len())
        } else {
            0
        };
        self.w.mon.note(format!("app: wait for delivery {} of '{key}'", m.id));
        let d = m.d.take().unwrap();
        m.waits += 1;
        m.wait = Some((
            Slot::run(async move {
                let r = d.wait().await;
                (r, d)
            }),
            known,
        ));
        true
    }
    fn peer_settled(&self, li: usize, id: u32) -> bool {
        let uid = self.links[li].uid;
        self.ms(self.links[li].suid)
            .is_some_and(|i| self.w.mon.sess[i].rx.iter().any(|d| Some(d.link_uid) == uid && d.id == id && d.peer_settled))
    }
    fn a_drop(&mut self) -> bool {
        let c = self.unsettled_in();
        if c.is_empty() {
            return false;
        }
        let (li, i) = *self.rng.pick(&c);
        let live = self.link_live(li);
        let key = self.links[li].name.clone();
        let ib = self.links[li].inbox.clone().unwrap();
        let mut ib = ib.borrow_mut();
        let m = &mut ib.msgs[i];
        let ps = self.peer_settled(li, m.id);
        m.loose |= !live || ps;
        self.w.mon.note(format!("app: drop delivery {} of '{key}'", m.id));
        m.sent.push(desc(0x25, V::List(vec![desc(0x1d, V::List(vec![sym("Internal error")]))])));
        m.d = None;
        m.settled = true;
        true
    }
    fn a_cancel(&mut self) -> bool {
        let c = self.all_sends(|s| !s.slot.done() && !s.ok && s.err.is_none() && !s.cancelled);
        if c.is_empty() {
            return false;
        }
        let (li, k) = *self.rng.pick(&c);
        let s = &mut self.links[li].sends[k];
        s.cancelled = true;
        s.stop.set(true);
        if let Some(w) = s.waker.borrow_mut().take() {
            w.wake();
        }
        let id = s.id;
        self.w.mon.note(format!("app: cancel op{id}"));
        true
    }
    fn a_close_link(&mut self) -> bool {
        let c: Vec<usize> = (0..self.links.len())
            .filter(|&i| self.link_live(i) && (self.links[i].s.is_some() || self.links[i].r.is_some()))
            .collect();
        if c.is_empty() {
            return false;
        }
        let li = *self.rng.pick(&c);
        let e = self.error();
        self.close_link(li, e);
        true
    }
    fn close_link(&mut self, li: usize, e: Option<Err2>) {
        self.w.mon.note(format!("app: close '{}' {e:?}", self.links[li].name));
        let pe = conv::error(&err_v(&e));
        let by_handle = if self.rng.chance(15) { self.ml(li).map(|k| k.lh) } else { None };
        let l = &mut self.links[li];
        l.app_closed = true;
        l.close_err = e;
        // or through the session, by handle
        if let Some(h) = by_handle {
            let (s, sender) = (self.sess.iter().find(|s| s.uid == l.suid).map(|s| s.s.clone()), l.sender);
            if let Some(s) = s {
                self.w.mon.c("links detached by handle");
                self.w.mon.note(format!("app: detach by handle {h}"));
                l.close.push(Slot::run(async move {
                    if sender { s.detach_sender_link(h, pe).await } else { s.detach_receiver_link(h, pe).await }
                }));
                return;
            }
        }
        let slot = match (l.s.clone(), l.r.clone(), pe) {
            (Some(s), _, None) => Slot::run(async move { s.close().await }),
            (Some(s), _, Some(e)) => Slot::run(async move { s.close_with_error(e).await }),
            (_, Some(r), None) => Slot::run(async move { r.close().await }),
            (_, Some(r), Some(e)) => Slot::run(async move { r.close_with_error(e).await }),
            _ => return,
        };
        l.close.push(slot);
    }
    fn a_end(&mut self) -> bool {
        let c: Vec<usize> = (0..self.sess.len()).filter(|&i| self.sess_live(self.sess[i].uid)).collect();
        if c.is_empty() {
            return false;
        }
        let i = *self.rng.pick(&c);
        self.end_session(i);
        true
    }
    fn end_session(&mut self, i: usize) {
        self.w.mon.note(format!("app: end session ch{}", self.sess[i].chan));
        let s = self.sess[i].s.clone();
        self.sess[i].app_ended = true;
        self.sess[i].end.push(Slot::run(async move { s.end().await }));
        if self.rng.chance(20) {
            // once more, while the first one waits
            let s = self.sess[i].s.clone();
            self.w.mon.c("sessions ended twice");
            self.sess[i].end.push(Slot::run(async move { s.end().await }));
        }
    }
    fn a_onclose(&mut self) -> bool {
        let c = self.senders();
        if c.is_empty() || self.rng.chance(30) {
            let Some(c) = self.app.conn.borrow().clone() else { return false };
            if self.conn_dead() {
                return false;
            }
            let w = c.on_close();
            self.conn_on_close.push(Slot::run(async move {
                w.await;
            }));
            return true;
        }
        let li = *self.rng.pick(&c);
        let w = self.links[li].s.as_ref().unwrap().on_close();
        self.links[li].on_close.push(Slot::run(async move {
            w.await;
        }));
        true
    }
    /// the sender settles a delivery on its own
    async fn a_ssettle(&mut self) -> bool {
        self.rest().await;
        let c = self.all_sends(|s| {
            s.delivery.is_some() && !s.settled && s.local_settled.is_none() && s.waits.iter().all(|w| w.judged)
        });
        let c: Vec<_> = c.into_iter().filter(|&(li, _)| self.link_live(li)).collect();
        if c.is_empty() {
            return false;
        }
        let (li, k) = *self.rng.pick(&c);
        let st = self.state();
        let how = self.rng.below(10);
        let again = how >= 5 && self.rng.chance(30);
        if again {
            self.w.mon.c("deliveries settled again by their sender");
        }
        let s = &mut self.links[li].sends[k];
        let id = s.id;
        if how < 2 {
            if Rc::strong_count(s.delivery.as_ref().unwrap()) > 1 {
                return false;
            }
            s.delivery = None;
            s.dropped = true;
            self.w.mon.note(format!("app: sender drops op{id}"));
            return true;
        }
        let d = s.delivery.clone().unwrap();
        let Ok(mut d) = d.try_borrow_mut() else { return false };
        if how < 5 {
            d.update_state(conv::state(&st).unwrap());
            drop(d);
            s.own.push((false, st));
            self.w.mon.note(format!("app: sender updates the state of op{id}"));
            return true;
        }
        d.settle(conv::state(&st).unwrap());
        if again {
            let st = desc(0x24, V::List(vec![]));
            d.settle(conv::state(&st).unwrap());
            d.update_state(conv::state(&st).unwrap());
        }
        s.own.push((true, st.clone()));
        s.local_settled = Some(st);
        drop(d);
        self.w.mon.note(format!("app: sender settles op{id}"));
        true
    }

    // ---- peer operations ---------------------------------------------------------------------
    async fn p_answer(&mut self) -> bool {
        // everything the endpoint waits for
        let mut todo: Vec<(u8, usize, usize)> = vec![];
        if !self.w.is_open() || self.w.mon.close_rx || self.ended.done() {
            return false;
        }
        for (i, s) in self.w.mon.sess.iter().enumerate() {
            if s.local_init && !s.begin_rx {
                todo.push((0, i, 0));
            }
            if self.peer_can(i) {
                if s.end_tx {
                    todo.push((3, i, 0));
                    continue;
                }
                for (k, l) in s.links.iter().enumerate() {
                    if l.local_init && !l.att_rx {
                        todo.push((1, i, k));
                    }
                    if l.att_rx && l.det_tx && !l.det_rx {
                        todo.push((2, i, k));
                    }
                }
            }
        }
        if todo.is_empty() {
            return false;
        }
        let n = if self.rng.chance(30) { todo.len() } else { 1 };
        for _ in 0..n {
            if todo.is_empty() {
                break;
            }
            let k = self.rng.below(todo.len());
            let (t, i, k) = todo.swap_remove(k);
            self.answer(t, i, k).await;
        }
        true
    }
    async fn answer(&mut self, t: u8, i: usize, k: usize) {
        if !self.w.is_open() || self.w.mon.close_rx {
            return;
        }
        match t {
            0 => {
                if self.w.mon.sess[i].begin_rx {
                    return;
                }
                let local = self.w.mon.sess[i].local;
                let ch = self.free_channel();
                let noi = *self.rng.pick(&[0u32, 1, 100, u32::MAX, u32::MAX - 3]);
                let iw = self.window_value();
                let p = perf(
                    mon::BEGIN,
                    vec![V::Ushort(local), V::Uint(noi), V::Uint(iw), V::Uint(*self.rng.pick(&[0u32, 1, 1000, u32::MAX]))],
                );
                self.send(ch, &p, &[]).await;
                // the endpoint's End may have crossed it
            }
            1 => {
                if !self.peer_can(i) || self.w.mon.sess[i].end_tx || self.w.mon.sess[i].links[k].att_rx {
                    return;
                }
                let h = self.free_handle(i);
                let ch = self.w.mon.sess[i].remote.unwrap();
                let (name, sut_sender, uid) = {
                    let l = &self.w.mon.sess[i].links[k];
                    (l.name.clone(), l.sender, l.uid)
                };
                let refuse = self.rng.chance(self.p.refuse);
                let max = if self.rng.chance(self.p.limits) { V::Ulong(*self.rng.pick(&[0u64, 1, 20, 100, 700, 5000, u64::MAX, 1 << 32, (1 << 32) + 20])) } else { V::Null };
                let a = self.attach_perf(&name, h, sut_sender, refuse, max, 0);
                self.send(ch, &a, &[]).await;
                if refuse {
                    let e = self.error();
                    if let Some(li) = self.links.iter().position(|l| l.uid == Some(uid) || (l.uid.is_none() && l.name == name && l.sender == sut_sender)) {
                        self.links[li].peer_refused = true;
                        self.links[li].peer_err = e.clone();
                    }
                    if !self.rng.chance(80) {
                        self.rest().await;
                    }
                    if self.peer_can(i) {
                        let d = perf(mon::DETACH, vec![V::Uint(h), V::Bool(true), err_v(&e)]);
                        self.send(ch, &d, &[]).await;
                    }
                }
            }
            2 => {
                if !self.peer_can(i) || self.w.mon.sess[i].links[k].det_rx || self.w.mon.sess[i].end_tx {
                    return;
                }
                let (ch, h) = (self.w.mon.sess[i].remote.unwrap(), self.w.mon.sess[i].links[k].rh.unwrap());
                let e = if self.rng.chance(25) { self.error() } else { None };
                let d = perf(mon::DETACH, vec![V::Uint(h), V::Bool(true), err_v(&e)]);
                self.drop_part(i, k);
                self.send(ch, &d, &[]).await;
            }
            _ => {
                if !self.peer_can(i) {
                    return;
                }
                let ch = self.w.mon.sess[i].remote.unwrap();
                let e = if self.rng.chance(25) { self.error() } else { None };
                self.send(ch, &perf(mon::END, vec![err_v(&e)]), &[]).await;
            }
        }
    }
    fn drop_part(&mut self, si: usize, k: usize) {
        let uid = self.w.mon.sess[si].links[k].uid;
        if let Some(l) = self.links.iter_mut().find(|l| l.uid == Some(uid)) {
            l.part = None;
        }
    }
    /// Attach as the peer sends it; `peer_receiver`: the endpoint under test is the sender
    fn attach_perf(&mut self, name: &str, h: u32, peer_receiver: bool, refused: bool, max: V, id: u32) -> V {
        let source = desc(0x28, V::List(vec![st(name)]));
        let target = desc(0x29, V::List(vec![st(name)]));
        let idc = if peer_receiver {
            V::Null
        } else {
            V::Uint(if self.rng.chance(self.p.extreme) { *self.rng.pick(&[u32::MAX, u32::MAX - 2, i32::MAX as u32, 9]) } else { 0 })
        };
        let (s, t) = if refused {
            if peer_receiver { (source, V::Null) } else { (V::Null, target) }
        } else {
            (source, target)
        };
        perf(
            mon::ATTACH,
            vec![
                st(name),
                V::Uint(h),
                V::Bool(peer_receiver),
                if self.rng.chance(50) { V::Null } else { V::Ubyte(2) },
                if self.rng.chance(50) { V::Null } else { V::Ubyte(0) },
                s,
                t,
                V::Null,
                V::Null,
                idc,
                max,
                V::Null,
                V::Null,
                if id > 0 { V::Map(vec![(sym("id"), V::Uint(id))]) } else { V::Null },
            ],
        )
    }
    fn free_channel(&mut self) -> u16 {
        let used: HashSet<u16> = self
            .w
            .mon
            .sess
            .iter()
            .filter(|s| !(s.end_rx && s.end_tx))
            .filter_map(|s| s.remote)
            .chain(self.w.mon.pend_begin.iter().map(|p| p.ch))
            .collect();
        let lim = self.cfg.own_channel_max;
        let mut c = *self.rng.pick(&[0u16, 1, 2, 5, lim, 256, lim / 2 + 1]);
        c = c.min(lim);
        let mut n = 0;
        while used.contains(&c) {
            c = self.rng.below((lim as usize + 1).min(if n > 50 { 65536 } else { 30 })) as u16;
            n += 1;
            if n > 1000 {
                return 60000;
            }
        }
        c
    }
    fn begin_perf(&mut self) -> V {
        let noi = *self.rng.pick(&[0u32, 1, 77, u32::MAX]);
        let iw = self.window_value();
        let mut l = vec![V::Null, V::Uint(noi), V::Uint(iw), V::Uint(100)];
        if self.rng.chance(self.p.rich) {
            let x = self.rich_list(false, mon::BEGIN, &[4, 5, 6, 7], |v| v[..4].clone_from_slice(&l));
            let v = perf(mon::BEGIN, x.clone());
            if crate::wire::encode(&v, &mut Style::smallest()).len() < 300 {
                l = x;
            }
        }
        perf(mon::BEGIN, l)
    }
    async fn settle_if_tight(&mut self) {
        if self.w.mon.channel_limit() < 20 {
            self.w.settle().await;
            self.sync();
        }
    }
    async fn p_begin(&mut self) -> bool {
        if self.conn_dead() || self.w.mon.sess.len() >= self.p.max_sess {
            return false;
        }
        // the endpoint can only answer while it has channels left
        self.settle_if_tight().await;
        if self.live_chan_count() + self.w.mon.pend_begin.len() + self.opening.len() > self.w.mon.channel_limit() as usize {
            return false;
        }
        let ch = self.free_channel();
        if ch > self.cfg.own_channel_max {
            return false;
        }
        let p = self.begin_perf();
        self.send(ch, &p, &[]).await;
        true
    }
    async fn p_attach(&mut self, peer_receiver: bool) -> bool {
        let c = self.live_sessions();
        if c.is_empty() || self.links.len() >= self.p.max_links {
            return false;
        }
        let si = *self.rng.pick(&c);
        let uid = self.w.mon.sess[si].uid;
        let name = self.name();
        if self.sess_dead(uid) || !self.name_free(uid, &name, peer_receiver) {
            return false;
        }
        let h = self.free_handle(si);
        let ch = self.w.mon.sess[si].remote.unwrap();
        self.peer_attach(ch, uid, name, h, peer_receiver).await;
        if self.peer_can(si) {
            self.p_undo(si, h).await;
        }
        true
    }
    async fn peer_attach(&mut self, ch: u16, uid: usize, name: String, h: u32, peer_receiver: bool) {
        let max = if self.rng.chance(self.p.limits) { V::Ulong(*self.rng.pick(&[0u64, 1, 20, 100, 700, 5000, u64::MAX, 1 << 32, (1 << 32) + 20])) } else { V::Null };
        let mut l = self.new_link(name.clone(), uid, peer_receiver, false);
        self.next_attach += 1;
        let id = self.next_attach;
        l.att_id = id;
        let key = id;
        if self.rng.chance(self.p.refuse) {
            let d = format!("refused-{name}{}", self.rng.pick(&["", "i", "a", "bi"]));
            self.app.refuse.borrow_mut().insert(key, d.clone());
            l.refuse = Some(d.clone());
            l.must_detach = Some(app::service_error(&d).1);
        } else {
            self.app.refuse.borrow_mut().remove(&key);
            if !peer_receiver && self.rng.chance(self.p.limits) {
                l.own_limit = *self.rng.pick(&[1u64, 50, 300, 2000]);
                self.app.own_limit.borrow_mut().insert(key, l.own_limit);
            } else {
                self.app.own_limit.borrow_mut().remove(&key);
            }
        }
        self.app.grant.borrow_mut().remove(&key);
        if !peer_receiver && self.rng.chance(25) {
            let n = *self.rng.pick(&[1u32, 2, 7, 49, 51, 100]);
            let by_publish = self.cfg.server && self.rng.chance(60);
            l.granted = Some(n);
            self.app.grant.borrow_mut().insert(key, (n, by_publish));
        }
        self.links.push(l);
        let mut a = self.attach_perf(&name, h, peer_receiver, false, max, id);
        if self.rng.chance(self.p.rich) {
            let V::Desc(_, b) = a else { unreachable!() };
            let V::List(base) = *b else { unreachable!() };
            let l = self.rich_list(false, mon::ATTACH, &[3, 4, 5, 6, 7, 8, 11, 12, 13], |v| {
                for i in [0, 1, 2, 9, 10] {
                    v[i] = base[i].clone();
                }
                // the other fields of the terminus may be anything, its address is the name of the link
                for t in [5, 6] {
                    match &mut v[t] {
                        V::Desc(_, x) => match &mut **x {
                            V::List(x) if !x.is_empty() => x[0] = st(&name),
                            _ => v[t] = base[t].clone(),
                        },
                        _ => v[t] = base[t].clone(),
                    }
                }
                match &mut v[13] {
                    V::Map(m) => {
                        m.retain(|(k, _)| *k != sym("id"));
                        m.push((sym("id"), V::Uint(id)));
                    }
                    x => *x = V::Map(vec![(sym("id"), V::Uint(id))]),
                }
            });
            let v = perf(mon::ATTACH, l);
            // the answer repeats the terminus
            a = if crate::wire::encode(&v, &mut Style::smallest()).len() < 300 { v } else { perf(mon::ATTACH, base) };
            self.w.mon.c("rich attaches of the peer");
        }
        self.send(ch, &a, &[]).await;
    }
    /// Begin, Attach and Flow written without waiting for answers
    async fn p_pipeline(&mut self) -> bool {
        let c = self.live_sessions();
        if c.is_empty() || self.links.len() >= self.p.max_links {
            return false;
        }
        let si = *self.rng.pick(&c);
        let uid = self.w.mon.sess[si].uid;
        let name = self.name();
        if self.sess_dead(uid) || !self.name_free(uid, &name, true) {
            return false;
        }
        let h = self.free_handle(si);
        let ch = self.w.mon.sess[si].remote.unwrap();
        self.peer_attach(ch, uid, name, h, true).await;
        if !self.peer_can(si) {
            return true;
        }
        let n = self.rng.range(1, 2);
        for _ in 0..n {
            if self.w.mon.sess[si].end_tx {
                break;
            }
            let cr = *self.rng.pick(&[0u32, 1, 2, 10]);
            let f = self.flow(si, Some(h), None, Some(cr), false);
            self.send(ch, &f, &[]).await;
        }
        self.p_undo(si, h).await;
        true
    }
    /// A link just attached is detached again, whether or not that was answered
    async fn p_undo(&mut self, si: usize, h: u32) {
        if self.rng.chance(15) && self.peer_can(si) {
            let ch = self.w.mon.sess[si].remote.unwrap();
            // and gone again
            let still = self.w.mon.sess[si].pend.iter().any(|p| p.rh == h && !p.det_rx)
                || self.w.mon.sess[si].links.iter().any(|k| k.rh == Some(h) && k.att_rx && !k.det_rx);
            if still {
                let e = self.error();
                let d = perf(mon::DETACH, vec![V::Uint(h), V::Bool(true), err_v(&e)]);
                self.w.mon.c("links detached before their attach is answered");
                self.send(ch, &d, &[]).await;
            }
        }
    }
    fn flow(&mut self, si: usize, handle: Option<u32>, dc: Option<u32>, credit: Option<u32>, echo: bool) -> V {
        let s = &self.w.mon.sess[si];
        let seen = s.tx_first.wrapping_add(s.tx_frames as u32);
        // a window the peer announces is measured from what it has received
        let nii = if s.tx_frames == 0 && self.rng.chance(30) { None } else { Some(seen) };
        let nout = s.rx_first.wrapping_add(s.rx_frames as u32);
        let win = if handle.is_some() && self.rng.chance(70) {
            // keep the current right edge
            let left = (s.window.cur - s.tx_frames).max(0);
            u32::try_from(left).unwrap_or(u32::MAX)
        } else {
            self.window_value()
        };
        perf(
            mon::FLOW,
            vec![
                ou(nii),
                V::Uint(win),
                V::Uint(nout),
                V::Uint(*self.rng.pick(&[0u32, 100, u32::MAX])),
                ou(handle),
                ou(dc),
                ou(credit),
                V::Null,
                if self.rng.chance(10) { V::Bool(true) } else { V::Null },
                if echo { V::Bool(true) } else { V::Null },
            ],
        )
    }
    async fn p_credit(&mut self) -> bool {
        let mut c = vec![];
        for i in self.live_sessions() {
            for (k, l) in self.w.mon.sess[i].links.iter().enumerate() {
                if l.sender && l.live() {
                    c.push((i, k));
                }
            }
        }
        if c.is_empty() {
            return false;
        }
        let (i, k) = *self.rng.pick(&c);
        self.grant(i, k, None).await;
        true
    }
    async fn grant(&mut self, i: usize, k: usize, amount: Option<u32>) {
        let (h, initial, begun, cur) = {
            let l = &self.w.mon.sess[i].links[k];
            (l.rh.unwrap(), l.initial, l.begun, l.credit.cur)
        };
        let ch = self.w.mon.sess[i].remote.unwrap();
        let mut dc = Some(initial.wrapping_add(begun as u32));
        let cr = match amount {
            Some(a) => a,
            None => match self.rng.below(10) {
                0 => 0,
                1 if self.rng.chance(self.p.extreme) => *self.rng.pick(&[u32::MAX, i32::MAX as u32, i32::MAX as u32 + 1]),
                2 => 0,
                3 | 4 => 1,
                5..=7 => self.rng.range(1, 5) as u32,
                // same limit again
                8 => (cur - begun).max(0) as u32,
                _ => self.rng.range(5, 40) as u32,
            },
        };
        if amount.is_none() && begun > 0 && cr < 1000 && self.rng.chance(15) {
            // a flow that predates the last deliveries
            let back = self.rng.range(1, 3).min(begun as usize) as u32;
            dc = dc.map(|d| d.wrapping_sub(back));
        } else if begun == 0 && self.rng.chance(20) {
            dc = None;
        }
        let echo = self.rng.chance(8);
        if amount.is_none() && self.rng.chance(self.p.fail_ctl) && !self.app.gate.get() {
            self.rest().await;
            let uid = self.w.mon.sess[i].links[k].uid;
            if !self.w.mon.sess[i].live() || !self.w.mon.sess[i].links[k].live() {
                return;
            }
            let Some(l) = self.links.iter_mut().find(|l| l.uid == Some(uid)) else { return };
            if l.app_closed || l.must_detach.is_some() {
                return;
            }
            let d = format!("flow-{}{}", l.name, self.rng.pick(&["", "i", "a", "bi"]));
            l.must_detach = Some(app::service_error(&d).1);
            l.fail_armed = true;
            self.app.fail_ctl.borrow_mut().insert(("Flow".into(), crate::app::attach_key("", ch, h)), d);
            self.w.mon.c("control service failures");
        }
        let f = self.flow(i, Some(h), dc, Some(cr), echo);
        self.send(ch, &f, &[]).await;
        self.fire().await;
    }
    /// Lets the failure that was just armed happen
    async fn fire(&mut self) {
        if !self.app.fail_ctl.borrow().is_empty() || !self.app.fail_msg.borrow().is_empty() {
            self.w.settle().await;
            if !self.app.gate.get() {
                self.app.fail_ctl.borrow_mut().clear();
                self.app.fail_msg.borrow_mut().clear();
            }
        }
    }
    async fn p_window(&mut self) -> bool {
        let c = self.live_sessions();
        if c.is_empty() {
            return false;
        }
        let i = *self.rng.pick(&c);
        let f = self.flow(i, None, None, None, false);
        let ch = self.w.mon.sess[i].remote.unwrap();
        self.send(ch, &f, &[]).await;
        true
    }
    async fn p_echo(&mut self) -> bool {
        let c = self.live_sessions();
        if c.is_empty() {
            return false;
        }
        let i = *self.rng.pick(&c);
        self.rest().await;
        if !self.peer_can(i) || self.w.mon.sess[i].end_tx {
            return true;
        }
        let before = self.w.mon.counts.get("tx Flow").copied().unwrap_or(0);
        let f = self.flow(i, None, None, None, true);
        let ch = self.w.mon.sess[i].remote.unwrap();
        self.send(ch, &f, &[]).await;
        self.w.settle().await;
        let after = self.w.mon.counts.get("tx Flow").copied().unwrap_or(0);
        if after == before && self.sess_live(self.w.mon.sess[i].uid) {
            self.v(&["S02", "S03"], "echo-ignored", format!("a Flow with echo=true on peer channel {ch} was not answered by a Flow"));
        }
        true
    }
    async fn p_empty(&mut self) -> bool {
        if self.conn_dead() {
            return false;
        }
        self.w.queue(0, 0, None, &[]);
        let mut r = Rng::new(self.rng.u64());
        self.w.flush(&mut r).await;
        true
    }

    /// receiver links of the endpoint the peer may transfer on
    async fn p_transfer(&mut self) -> bool {
        self.bind();
        let c: Vec<usize> = self
            .receivers()
            .into_iter()
            .filter(|&li| {
                let k = self.ml(li).unwrap();
                !self.links[li].oversize_sent
                    && (self.links[li].part.is_some() || k.begun < k.credit.cur || self.p.overrun && k.begun >= k.credit.ever.max(0))
            })
            .collect();
        if c.is_empty() {
            return false;
        }
        let n = if self.rng.chance(25) { self.rng.range(2, 8) } else { 1 };
        for _ in 0..n {
            let li = *self.rng.pick(&c);
            if !self.link_live(li) || self.links[li].oversize_sent {
                continue;
            }
            self.transfer_step(li).await;
        }
        true
    }
    async fn transfer_step(&mut self, li: usize) {
        let si = self.ms(self.links[li].suid).unwrap();
        let (h, begun, cur) = {
            let k = self.ml(li).unwrap();
            (k.rh.unwrap(), k.begun, k.credit.cur)
        };
        let ch = self.w.mon.sess[si].remote.unwrap();
        if self.links[li].part.is_none() {
            if begun >= cur {
                if !self.p.overrun || !self.rng.chance(40) || self.app.gate.get() {
                    return;
                }
                self.rest().await;
                let k = self.ml(li).unwrap();
                let l = &self.links[li];
                if !self.link_live(li) || k.begun < k.credit.ever.max(0) || l.app_closed || l.must_detach.is_some() || l.oversize_sent {
                    return;
                }
                let l = &mut self.links[li];
                l.oversize_sent = true;
                l.fail_armed = true;
                l.must_detach = Some(("amqp:link:transfer-limit-exceeded".into(), None));
                self.w.mon.c("transfers beyond credit");
            }
            let overrun = self.links[li].oversize_sent;
            self.next_op += 1;
            let op = self.next_op;
            let id = self.delivery_id(si);
            let own_limit = self.links[li].own_limit;
            let over_ok = own_limit != 0 && !overrun && self.rng.chance(25);
            let mut body = self.body(op, if over_ok { own_limit } else { 0 });
            if own_limit != 0 && !over_ok && body.len() as u64 > own_limit {
                body.truncate(own_limit as usize);
            }
            body.truncate(200_000);
            if own_limit != 0 && body.len() as u64 > own_limit {
                self.links[li].oversize_sent = true;
                self.links[li].size_limit_hit = true;
                self.links[li].must_detach = Some(("amqp:link:message-size-exceeded".into(), None));
            }
            let room = (self.cfg.own_max_frame as usize - 200).min(20_000);
            let parts: Vec<Vec<u8>> = if self.rng.chance(45) || body.len() > room {
                let n = self.rng.range(1, 5);
                let mut cuts: Vec<usize> = (0..n).map(|_| self.rng.below(body.len() + 1)).collect();
                let mut x = room;
                while x < body.len() {
                    cuts.push(x);
                    x += room;
                }
                cuts.push(0);
                cuts.push(body.len());
                cuts.sort_unstable();
                if self.rng.chance(50) {
                    cuts.dedup();
                }
                cuts.windows(2).map(|w| body[w[0]..w[1]].to_vec()).collect()
            } else {
                vec![body]
            };
            let parts = if parts.is_empty() { vec![vec![]] } else { parts };
            if parts.len() == 1 && self.cfg.server && !self.links[li].oversize_sent && self.rng.chance(self.p.fail_ctl) && !self.app.gate.get() {
                let l = &mut self.links[li];
                if l.must_detach.is_none() && !l.app_closed {
                    let d = format!("msg-{}{}", l.name, self.rng.pick(&["", "i", "a", "bi"]));
                    l.must_detach = Some(app::service_error(&d).1);
                    l.fail_armed = true;
                    l.oversize_sent = true;
                    let (lc, lh) = (self.w.mon.sess[si].local, self.ml(li).unwrap().lh);
                    self.app.fail_msg.borrow_mut().insert(crate::app::attach_key("", lc, lh), d);
                    self.w.mon.c("message handler failures");
                }
            }
            let settled = self.rng.chance(20);
            let tag = {
                let n = self.rng.range(0, 24);
                let mut t = op.to_be_bytes().to_vec();
                t.extend(std::iter::repeat_n(7u8, n));
                t
            };
            let abort_at = if self.rng.chance(15) && !self.links[li].oversize_sent {
                Some(self.rng.range(0, parts.len() - 1))
            } else {
                None
            };
            self.links[li].part = Some(PartTx {
                id,
                tag,
                rest: parts,
                format: if self.rng.chance(50) { Some(*self.rng.pick(&[0u32, 3, u32::MAX])) } else { None },
                settled,
                settle_last: !settled && self.rng.chance(10),
                abort_at,
                sent: 0,
                limit_left: None,
            });
        }
        let all = self.rng.chance(50);
        loop {
            if !self.link_live(li) {
                return;
            }
            let rep = self.rng.chance(30);
            let rich = self.rng.chance(self.p.rich);
            let p = self.links[li].part.as_mut().unwrap();
            let first = p.sent == 0;
            let abort = p.abort_at == Some(p.sent);
            let payload = if abort && p.sent % 2 == 0 { vec![] } else { p.rest[p.sent].clone() };
            p.sent += 1;
            let more = p.sent < p.rest.len() && !abort;
            let more_flag = if more { V::Bool(true) } else if abort && rep { V::Bool(true) } else { V::Null };
            let settled = if first {
                if p.settled { V::Bool(true) } else if rep { V::Bool(false) } else { V::Null }
            } else if !more && p.settle_last && !abort {
                V::Bool(true)
            } else if rep && p.settled {
                V::Bool(true)
            } else {
                V::Null
            };
            let t = perf(
                mon::TRANSFER,
                vec![
                    V::Uint(h),
                    if first || rep { V::Uint(p.id) } else { V::Null },
                    if first || rep { V::Bin(p.tag.clone()) } else { V::Null },
                    if first || rep { ou(p.format) } else { V::Null },
                    settled,
                    more_flag,
                    if rich { V::Ubyte(1) } else { V::Null },
                    V::Null,
                    if rich { V::Bool(false) } else { V::Null },
                    if abort { V::Bool(true) } else { V::Null },
                    if rich { V::Bool(true) } else { V::Null },
                ],
            );
            if !more {
                self.links[li].part = None;
            }
            self.send(ch, &t, &payload).await;
            self.fire().await;
            if more && self.links[li].size_limit_hit && !self.app.gate.get() && self.rng.chance(50) {
                let l = &self.links[li];
                let (si, lim) = (self.w.mon.sess.iter().find(|s| s.remote == Some(ch)), l.own_limit);
                if si.is_some_and(|s| s.rx.iter().any(|d| !d.done && Some(d.link_uid) == l.uid && d.body.len() as u64 > lim)) {
                    // what an unfinished message may occupy is bounded
                    self.w.mon.c("unfinished messages beyond the size limit");
                    self.rest().await;
                    return;
                }
            }
            if !more || !all {
                return;
            }
        }
    }

    async fn p_disp(&mut self) -> bool {
        let mut c = vec![];
        for i in self.live_sessions() {
            for (k, d) in self.w.mon.sess[i].tx.iter().enumerate() {
                if d.done && !d.presettled && !d.settled_by_peer && !d.settled_by_us {
                    c.push((i, k));
                }
            }
        }
        if c.is_empty() {
            return false;
        }
        let (i, k) = *self.rng.pick(&c);
        let first = self.w.mon.sess[i].tx[k].id;
        let mut last = None;
        if self.rng.chance(45) {
            // extend over everything complete that follows
            let n = if self.rng.chance(12) { 1000 } else { self.rng.range(0, 6) };
            let mut l = k;
            for j in k + 1..self.w.mon.sess[i].tx.len().min(k + 1 + n) {
                if !self.w.mon.sess[i].tx[j].done {
                    break;
                }
                l = j;
            }
            if l - k >= 64 {
                self.w.mon.c("dispositions for more than 64 deliveries");
            }
            last = Some(self.w.mon.sess[i].tx[l].id);
        }
        let st = self.state();
        let (settled, state) = match self.rng.below(12) {
            0 => (true, V::Null),
            1 | 2 => (false, st),
            3 if self.p.extreme > 50 => (false, desc(0x23, V::List(vec![V::Uint(1), V::Ulong(2)]))),
            _ => (true, st),
        };
        // a delivery that has an unsettled outcome keeps it
        let ch = self.w.mon.sess[i].remote.unwrap();
        let p = perf(
            mon::DISP,
            vec![V::Bool(true), V::Uint(first), ou(last), if settled { V::Bool(true) } else { V::Null }, state],
        );
        self.send(ch, &p, &[]).await;
        true
    }
    /// the peer, as sender, settles deliveries it sent
    async fn p_sdisp(&mut self) -> bool {
        let mut c = vec![];
        for i in self.live_sessions() {
            for (k, d) in self.w.mon.sess[i].rx.iter().enumerate() {
                if d.done && !d.peer_settled && !d.aborted {
                    c.push((i, k));
                }
            }
        }
        if c.is_empty() {
            return false;
        }
        let (i, k) = *self.rng.pick(&c);
        let ch = self.w.mon.sess[i].remote.unwrap();
        let id = self.w.mon.sess[i].rx[k].id;
        let mut ids = vec![id];
        let mut last = None;
        if self.rng.chance(50) {
            // together with some that follow, whose ids may have wrapped around
            let n = self.rng.range(0, 6);
            for d in self.w.mon.sess[i].rx.iter().skip(k + 1).take(n) {
                if !d.done || d.id != ids[ids.len() - 1].wrapping_add(1) {
                    break;
                }
                ids.push(d.id);
            }
            last = Some(ids[ids.len() - 1]);
            if ids.len() > 1 {
                self.w.mon.c(if last < Some(id) { "peer settles a range across the wrap-around" } else { "peer settles a range" });
            }
        }
        let settled = self.rng.chance(75);
        let state = if !settled || self.rng.chance(40) { self.state() } else { V::Null };
        let p = perf(mon::DISP, vec![V::Bool(false), V::Uint(id), ou(last), if settled { V::Bool(true) } else { V::Null }, state]);
        if !settled {
            self.w.mon.c("peer updates the state of its deliveries");
            self.send(ch, &p, &[]).await;
            return true;
        }
        // whatever the application does with it from now on need not reach the wire
        let local = self.w.mon.sess[i].local;
        for ib in self.app.inbox.borrow().iter() {
            for m in &mut ib.borrow_mut().msgs {
                if ids.contains(&m.id) && m.chan == local {
                    m.loose = true;
                }
            }
        }
        self.send(ch, &p, &[]).await;
        true
    }
    async fn p_detach(&mut self) -> bool {
        let mut c = vec![];
        for i in self.live_sessions() {
            for (k, l) in self.w.mon.sess[i].links.iter().enumerate() {
                if l.live() {
                    c.push((i, k));
                }
            }
        }
        if c.is_empty() {
            return false;
        }
        let (i, k) = *self.rng.pick(&c);
        let e = self.error();
        self.detach(i, k, e).await;
        true
    }
    async fn detach(&mut self, i: usize, k: usize, e: Option<Err2>) {
        let h = self.w.mon.sess[i].links[k].rh.unwrap();
        let ch = self.w.mon.sess[i].remote.unwrap();
        self.drop_part(i, k);
        let uid = self.w.mon.sess[i].links[k].uid;
        if let Some(l) = self.links.iter_mut().find(|l| l.uid == Some(uid)) {
            l.peer_err = e.clone();
        }
        if self.rng.chance(self.p.fail_ctl) && !self.app.gate.get() {
            // of no consequence, the link is gone
            let kind = if self.w.mon.sess[i].links[k].sender { "RemoteDetachSender" } else { "RemoteDetachReceiver" };
            self.app.fail_ctl.borrow_mut().insert((kind.into(), crate::app::attach_key("", ch, h)), "late".into());
        }
        let d = perf(mon::DETACH, vec![V::Uint(h), V::Bool(true), err_v(&e)]);
        self.send(ch, &d, &[]).await;
        self.fire().await;
    }
    async fn p_end(&mut self) -> bool {
        let c = self.live_sessions();
        if c.is_empty() {
            return false;
        }
        let i = *self.rng.pick(&c);
        let e = self.error();
        self.peer_end(i, e).await;
        true
    }
    async fn peer_end(&mut self, i: usize, e: Option<Err2>) {
        let uid = self.w.mon.sess[i].uid;
        for l in self.links.iter_mut().filter(|l| l.suid == uid) {
            l.part = None;
        }
        let ch = self.w.mon.sess[i].remote.unwrap();
        let p = perf(mon::END, vec![err_v(&e)]);
        self.send(ch, &p, &[]).await;
    }

    // ---- running -----------------------------------------------------------------------------
    pub async fn rest(&mut self) {
        self.w.settle().await;
        if self.sync() {
            self.w.settle().await;
        }
        self.check();
    }

    fn pick_op(&mut self) -> &'static str {
        let total: u32 = self.p.w.values().sum();
        let mut x = self.rng.below(total as usize) as u32;
        for (k, w) in &self.p.w {
            if x < *w {
                return k;
            }
            x -= *w;
        }
        unreachable!()
    }

    pub async fn run(&mut self) {
        let n = self.rng.range(self.p.steps.0, self.p.steps.1);
        let mut done = 0;
        let mut tries = 0;
        while done < n && tries < n * 12 && !self.conn_dead() {
            tries += 1;
            let op = self.pick_op();
            if self.op(op).await {
                done += 1;
                self.trace.push(op);
                if self.rng.chance(self.p.rest) {
                    self.rest().await;
                } else {
                    for _ in 0..self.rng.below(4) {
                        yield_now().await;
                        self.w.drain();
                    }
                    self.sync();
                }
            }
        }
        self.rest().await;
    }
}
