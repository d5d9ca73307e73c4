//! Connection establishment: every legal handshake completes, nothing else does.
use crate::Cx;
use crate::conv;
use crate::net::{Slot, activity, activity_now, block_on, yield_now};
use crate::report;
use crate::rng::Rng;
use crate::schema;
use crate::wire::{Style, V, build_frame, desc, encode, parse_frame, st, sym};
use ntex_amqp::codec::protocol::{Frame, SaslCode};
use ntex_amqp::error::LinkError;
use ntex_amqp::{AmqpServiceConfig, ConnectionRef, ControlFrame, client, server, types};
use ntex_bytes::ByteString;
use ntex::service::fn_factory;
use ntex_io::testing::IoTest;
use ntex_io::{Io, IoBoxed};
mod idle;
pub use idle::{n04, RULE};

use std::cell::{Cell, RefCell};
use std::rc::Rc;
use std::time::{Duration, Instant};

pub const R01: &str = "handshake of a real endpoint against a scripted peer (role, mechanism, script with at most one deviation or cut, chunking, handler behaviour) or against the other real endpoint, deduplicated by the bytes in both directions";

/// One thing on the wire
#[derive(Clone, Debug, PartialEq)]
pub enum Tok {
    Header(u8),
    Frame(u8, u16, u64, Vec<V>),
    Bad(String),
}

/// What the endpoint is configured with and what its handler does
#[derive(Clone, Debug, Default)]
struct Conf {
    server: bool,
    sasl: bool,
    max_frame: u32,
    ch_max: u16,
    idle: u16,
    hostname: Option<String>,
    /// hostname given to the connector
    con_host: Option<String>,
    offered: Option<Vec<String>>,
    desired: Option<Vec<String>>,
    mechs: Vec<String>,
    challenge: Option<Vec<u8>>,
    code: u8,
    /// handler gives up before this many of its steps
    refuse: Option<usize>,
    auth: (String, String, String),
    pauses: usize,
    timeout: u16,
    /// go through the connector service rather than `negotiate`
    service: bool,
    /// drop a peer that is silent for so many seconds
    keepalive: u16,
    /// the idle time-out the peer announces
    peer_idle: Option<V>,
    /// creating the control (1) or publish (2) service fails
    factory: u8,
    default_ctl: bool,
    plain_io: bool,
}

/// What the handler saw
#[derive(Clone, Debug, PartialEq)]
enum Saw {
    Init(String, Option<Vec<u8>>, Option<String>),
    Response(Vec<u8>),
    Open(Vec<V>),
    Remote(u32, u16, u32, Option<String>),
    Err(String),
}

#[derive(Default)]
struct Side {
    saw: RefCell<Vec<Saw>>,
    services: Cell<u32>,
    sessions: Cell<u32>,
    conn: RefCell<Option<ConnectionRef>>,
    open: Cell<bool>,
    ctl: RefCell<Vec<String>>,
    /// the control service does not complete
    hold: Cell<bool>,
}
async fn control(s: Rc<Side>, f: ControlFrame) -> Result<(), LinkError> {
    s.services.set(s.services.get() + 1);
    s.ctl.borrow_mut().push(format!("{:?}", f.kind()));
    drop(f);
    while s.hold.get() {
        ntex::time::sleep(ntex::time::Millis(40)).await;
    }
    Ok(())
}

fn shared(c: &Conf) -> ntex::SharedCfg {
    let mut a = AmqpServiceConfig::new()
        .set_max_frame_size(c.max_frame)
        .set_channel_max(c.ch_max)
        .set_idle_timeout(c.idle)
        .set_handshake_timeout(ntex::time::Seconds(c.timeout));
    if let Some(h) = &c.hostname {
        a = a.set_hostname(h);
    }
    if let Some(l) = &c.offered {
        a = a.set_offered_capabilities(caps(l));
    }
    if let Some(l) = &c.desired {
        a = a.set_desired_capabilities(caps(l));
    }
    ntex::SharedCfg::new("MON")
        .add(a)
        .add(
            ntex_io::IoConfig::new()
                .set_keepalive_timeout(ntex::time::Seconds(c.keepalive))
                .set_disconnect_timeout(ntex::time::Seconds(1)),
        )
        .into()
}
fn caps(l: &[String]) -> ntex_amqp::codec::protocol::Symbols {
    let mut s = ntex_amqp::codec::protocol::Symbols::default();
    for x in l {
        s.push(ByteString::from(x.clone()).into());
    }
    s
}
fn code(c: u8) -> SaslCode {
    match c {
        0 => SaslCode::Ok,
        1 => SaslCode::Auth,
        2 => SaslCode::Sys,
        3 => SaslCode::SysPerm,
        _ => SaslCode::SysTemp,
    }
}

async fn handler(c: Rc<Conf>, s: Rc<Side>, h: server::Handshake) -> Result<server::HandshakeAck<()>, LinkError> {
    let mut step = 0;
    let pause = || {
        let n = c.pauses;
        async move {
            for _ in 0..n {
                yield_now().await;
            }
        }
    };
    macro_rules! step {
        () => {
            pause().await;
            if c.refuse == Some(step) {
                return Err(LinkError::force_detach());
            }
            step += 1;
        };
    }
    let bad = |e: String| {
        s.saw.borrow_mut().push(Saw::Err(e.clone()));
        activity();
        LinkError::force_detach()
    };
    step!();
    let o = match h {
        server::Handshake::Amqp(a) => a.open().await.map_err(|e| bad(format!("{e:?}")))?,
        server::Handshake::Sasl(mut x) => {
            for m in &c.mechs {
                x = x.mechanism(m.clone());
            }
            let i = x.init().await.map_err(|e| bad(format!("{e:?}")))?;
            s.saw.borrow_mut().push(Saw::Init(
                i.mechanism().to_string(),
                i.initial_response().map(<[u8]>::to_vec),
                i.hostname().map(ToString::to_string),
            ));
            activity();
            step!();
            let ok = if let Some(ch) = &c.challenge {
                let r = if ch.is_empty() { i.challenge().await } else { i.challenge_with(conv::bin(ch)).await };
                let r = r.map_err(|e| bad(format!("{e:?}")))?;
                s.saw.borrow_mut().push(Saw::Response(r.response().to_vec()));
                activity();
                step!();
                r.outcome(code(c.code)).await
            } else {
                i.outcome(code(c.code)).await
            };
            let ok = ok.map_err(|e| bad(format!("{e:?}")))?;
            step!();
            ok.open().await.map_err(|e| bad(format!("{e:?}")))?
        }
    };
    let v = match conv::t_frame(&Frame::Open(o.frame().clone())) {
        Ok(Some((V::Desc(_, l), _))) => match *l {
            V::List(l) => schema::normalise(0x10, &l).unwrap_or_default(),
            _ => vec![],
        },
        _ => vec![],
    };
    s.saw.borrow_mut().push(Saw::Open(v));
    let r = o.remote_config();
    s.saw.borrow_mut().push(Saw::Remote(r.max_frame_size, r.channel_max, r.idle_time_out, r.hostname.as_ref().map(ToString::to_string)));
    activity();
    step!();
    let _ = step;
    *s.conn.borrow_mut() = Some(o.sink().get_ref());
    s.open.set(true);
    Ok(o.ack(()))
}

fn start(c: &Conf, s: &Rc<Side>, io: IoTest) -> Slot<Result<(), String>> {
    let cfg = shared(c);
    let c = Rc::new(c.clone());
    let s = s.clone();
    use ntex::ServiceFactory;
    if c.server {
        Slot::run(async move {
            let (s2, s3, c2) = (s.clone(), s.clone(), c.clone());
            let srv = server::Server::build(move |h: server::Handshake| handler(c2.clone(), s.clone(), h))
;
            let failing = c.factory;
            let pb = fn_factory(async move || {
                let s3 = s3.clone();
                yield_now().await;
                if failing == 2 {
                    return Err("publish");
                }
                Ok(ntex::service::fn_service(move |_: types::Message| {
                    s3.services.set(s3.services.get() + 1);
                    async { Ok::<_, LinkError>(()) }
                }))
            });
            macro_rules! serve {
                ($srv:expr) => {{
                    let srv = $srv;
                    if c.plain_io {
                        let srv = <_ as ServiceFactory<Io, ntex::SharedCfg>>::pipeline(&srv, cfg.clone()).await.map_err(|_| "init".to_string())?;
                        srv.call(Io::new(io, cfg)).await.map_err(|e| format!("{e:?}"))
                    } else {
                        let io: IoBoxed = Io::new(io, cfg.clone()).into();
                        let srv = <_ as ServiceFactory<IoBoxed, ntex::SharedCfg>>::pipeline(&srv, cfg).await.map_err(|_| "init".to_string())?;
                        srv.call(io).await.map_err(|e| format!("{e:?}"))
                    }
                }};
            }
            if c.default_ctl {
                serve!(srv.finish(pb))
            } else {
                serve!(
                    srv.control(fn_factory(async move || {
                        let s2 = s2.clone();
                        yield_now().await;
                        if failing == 1 {
                            return Err("control");
                        }
                        Ok(ntex::service::fn_service(move |f: ControlFrame| control(s2.clone(), f)))
                    }))
                    .finish(pb)
                )
            }
        })
    } else {
        Slot::run(async move {
            let host = c.con_host.clone().map(ByteString::from);
            let auth = client::SaslAuth {
                authz_id: c.auth.0.clone().into(),
                authn_id: c.auth.1.clone().into(),
                password: c.auth.2.clone().into(),
            };
            let cl = if c.service {
                let io = RefCell::new(Some(io));
                let io = Rc::new(io);
                let cfg2 = cfg.clone();
                let con = client::Connector::<String>::new().connector(ntex::service::fn_service(move |_: ntex::connect::Connect<String>| {
                    let io = Io::new(io.borrow_mut().take().expect("one connect"), cfg2.clone());
                    async move { Ok::<_, ntex_error::Error<ntex::connect::ConnectError>>(io) }
                }));
                let con = <_ as ServiceFactory<client::Connect<String>, ntex::SharedCfg>>::pipeline(&con, cfg)
                    .await
                    .map_err(|()| "init".to_string())?;
                let mut req = client::Connect::new("host".to_string());
                if c.sasl {
                    req = req.sasl_auth(auth.authz_id, auth.authn_id, auth.password);
                }
                if let Some(h) = host {
                    req = req.hostname(h);
                }
                con.call(req).await
            } else {
                let io: IoBoxed = Io::new(io, cfg.clone()).into();
                let con = client::Connector::<String>::new();
                let con = <_ as ServiceFactory<client::Connect<String>, ntex::SharedCfg>>::create(&con, cfg)
                    .await
                    .map_err(|_| "init".to_string())?;
                if c.sasl { con.negotiate_sasl(io, auth, host).await } else { con.negotiate(io, host).await }
            };
            let cl = cl.map_err(|e| format!("{e:?}"))?;
            *s.conn.borrow_mut() = Some(cl.sink());
            s.open.set(true);
            activity();
            let s2 = s.clone();
            if c.default_ctl {
                return cl.start_default().await.map_err(|e| format!("{e:?}"));
            }
            cl.start(ntex::service::fn_service(move |f: ControlFrame| control(s2.clone(), f))).await
            .map_err(|e| format!("{e:?}"))
        })
    }
}

/// Splits what an endpoint emitted
fn toks(mut b: &[u8]) -> Vec<Tok> {
    let mut out = vec![];
    while !b.is_empty() {
        if b.len() >= 8 && &b[..4] == b"AMQP" {
            out.push(if b[5..8] == [1, 0, 0] { Tok::Header(b[4]) } else { Tok::Bad(format!("header {:?}", &b[..8])) });
            b = &b[8..];
            continue;
        }
        let n = if b.len() >= 4 { u32::from_be_bytes(b[..4].try_into().unwrap()) as usize } else { usize::MAX };
        if n < 8 || n > b.len() {
            out.push(Tok::Bad(format!("{b:02x?}")));
            return out;
        }
        out.push(match parse_frame(&b[..n]) {
            Ok(f) => match f.parts() {
                Ok(Some((c, l))) => match schema::normalise(c, l) {
                    Ok(l) => Tok::Frame(f.ftype, f.channel, c, l),
                    Err(e) => Tok::Bad(e),
                },
                // an empty frame only keeps the connection alive
                Ok(None) if f.ftype == 0 && out.iter().any(|t| matches!(t, Tok::Frame(_, _, 0x10, _))) => {
                    b = &b[n..];
                    continue;
                }
                Ok(None) => Tok::Bad("empty frame".into()),
                Err(e) => Tok::Bad(e.0),
            },
            Err(e) => Tok::Bad(e.0),
        });
        b = &b[n..];
    }
    out
}

pub struct Raw {
    pub io: Option<IoTest>,
    pub got: Vec<u8>,
    pub sent: Vec<u8>,
    reset: Option<IoTest>,
}
impl Raw {
    pub fn drain(&mut self) {
        if let Some(io) = &self.io {
            let b = io.read_any();
            io.remote_buffer_cap(1 << 30);
            if !b.is_empty() {
                activity();
                self.got.extend_from_slice(&b);
            }
        }
    }
    pub async fn settle(&mut self) {
        let (mut idle, mut last) = (0, activity_now());
        while idle < 24 {
            yield_now().await;
            self.drain();
            let n = activity_now();
            if n == last {
                idle += 1;
            } else {
                idle = 0;
                last = n;
            }
        }
    }
    pub async fn write(&mut self, b: &[u8], rng: &mut Rng) {
        self.sent.extend_from_slice(b);
        let Some(_) = &self.io else { return };
        let whole = rng.chance(40);
        let max = if whole { b.len() } else { *rng.pick(&[1, 3, 8, 20, 200]) };
        let mut p = 0;
        while p < b.len() {
            let n = if whole { b.len() } else { rng.range(1, max).min(b.len() - p) };
            if let Some(io) = &self.io {
                io.write(&b[p..p + n]);
            }
            activity();
            p += n;
            if !whole {
                for _ in 0..rng.below(3) {
                    yield_now().await;
                    self.drain();
                }
            }
        }
    }
    pub async fn cut(&mut self, rng: &mut Rng) {
        self.drain();
        if let Some(io) = self.io.take() {
            if rng.chance(30) {
                io.read_error(std::io::Error::other("reset"));
                io.write_error(std::io::Error::other("reset"));
                self.reset = Some(io);
            }
            activity();
        }
    }
}

fn h(id: u8) -> Vec<u8> {
    vec![b'A', b'M', b'Q', b'P', id, 1, 0, 0]
}
fn word(r: &mut Rng) -> String {
    let n = r.range(1, 12);
    (0..n).map(|_| *r.pick(&['a', 'b', '-', 'Z', '7', '.'])).collect()
}
fn owords(r: &mut Rng) -> Option<Vec<String>> {
    r.chance(40).then(|| (0..r.range(1, 3)).map(|_| word(r)).collect())
}
fn syms(l: &Option<Vec<String>>) -> V {
    match l {
        None => V::Null,
        Some(l) => V::Array(l.iter().map(|s| sym(s)).collect()),
    }
}

impl Conf {
    fn random(r: &mut Rng) -> Conf {
        let mut mechs: Vec<String> = (0..r.below(3)).map(|_| word(r)).collect();
        mechs.insert(r.below(mechs.len() + 1), "PLAIN".into());
        Conf {
            server: r.chance(60),
            sasl: r.chance(65),
            max_frame: *r.pick(&[512, 1024, 65535, u32::MAX]),
            ch_max: *r.pick(&[0, 1, 7, 1024, 65535]),
            idle: if r.chance(30) { *r.pick(&[30, 60, 600]) } else { 0 },
            hostname: r.chance(40).then(|| word(r)),
            con_host: r.chance(40).then(|| word(r)),
            offered: owords(r),
            desired: owords(r),
            mechs,
            challenge: r.chance(40).then(|| {
                let n = r.below(40);
                r.bytes(n)
            }),
            code: if r.chance(70) { 0 } else { r.range(1, 4) as u8 },
            refuse: r.chance(10).then(|| r.below(5)),
            auth: (if r.chance(50) { String::new() } else { word(r) }, word(r), word(r)),
            pauses: *r.pick(&[0, 0, 1, 5]),
            timeout: 30,
            service: r.chance(50),
            keepalive: 0,
            peer_idle: None,
            factory: 0,
            default_ctl: false,
            plain_io: false,
        }
    }
    /// The Open the endpoint has to send
    fn open(&self) -> Vec<V> {
        let host = if self.server { &self.hostname } else if self.con_host.is_some() { &self.con_host } else { &self.hostname };
        vec![
            V::Null,
            host.as_ref().map_or(V::Null, |h| st(h)),
            V::Uint(self.max_frame),
            V::Ushort(self.ch_max),
            if self.idle > 0 { V::Uint(u32::from(self.idle) * 1000) } else { V::Null },
            V::Null,
            V::Null,
            syms(&self.offered),
            syms(&self.desired),
            V::Null,
        ]
    }
}

/// One peer step, what the endpoint answers to it, and what its handler then knows
struct Step {
    code: u64,
    perf: Option<V>,
    header: u8,
    answers: Vec<Tok>,
    saw: Vec<Saw>,
}

struct Script {
    first: Vec<Tok>,
    steps: Vec<Step>,
    /// the attempt fails once this many steps were taken
    fails_at: Option<usize>,
}

fn nf(v: &V) -> Vec<V> {
    match v {
        V::Desc(_, l) => match &**l {
            V::List(l) => l.clone(),
            _ => vec![],
        },
        _ => vec![],
    }
}

fn peer_open(r: &mut Rng, max: usize) -> V {
    for _ in 0..40 {
        let mut o = schema::gtype(r, 0x10);
        if !conv::representable(&o) {
            continue;
        }
        if let V::Desc(_, l) = &mut o
            && let V::List(l) = &mut **l
        {
            while l.len() < 5 {
                l.push(V::Null);
            }
            l[2] = match r.below(3) {
                0 => V::Null,
                _ => V::Uint(*r.pick(&[512, 4096, 65535, u32::MAX])),
            };
            // a time-out that does not fire while the case runs
            l[4] = if r.chance(50) { V::Null } else { V::Uint(*r.pick(&[120_000, 600_000, 0, u32::MAX])) };
        }
        if encode(&o, &mut Style::smallest()).len() * 3 + 16 > max {
            continue;
        }
        return o;
    }
    desc(0x10, V::List(vec![st("peer")]))
}

fn script(c: &Conf, r: &mut Rng) -> Script {
    let own_open = Tok::Frame(0, 0, 0x10, c.open());
    let mut po = peer_open(r, c.max_frame as usize);
    if let (Some(v), V::Desc(_, l)) = (&c.peer_idle, &mut po)
        && let V::List(l) = &mut **l
    {
        l.resize(l.len().max(5), V::Null);
        l[4] = v.clone();
        // room for the sessions of both sides
        l[3] = V::Null;
    }
    let pn = schema::normalise(0x10, &nf(&po)).unwrap();
    let g = |i: usize| match &pn[i] {
        V::Uint(n) => u64::from(*n),
        V::Ushort(n) => u64::from(*n),
        _ => 0,
    };
    let saw_open = vec![
        Saw::Open(pn.clone()),
        Saw::Remote(g(2) as u32, g(3) as u16, g(4) as u32, match &pn[1] {
            V::Str(s) => Some(s.to_string()),
            _ => None,
        }),
    ];
    let mut steps = vec![];
    let mut fails_at = None;
    let head = |id: u8, answers: Vec<Tok>| Step { code: 0, perf: None, header: id, answers, saw: vec![] };
    let fr = |p: V, answers: Vec<Tok>, saw: Vec<Saw>| {
        let code = match &p {
            V::Desc(d, _) => match &**d {
                V::Ulong(c) => *c,
                V::Sym(s) => schema::code_of(s).unwrap_or(0),
                _ => 0,
            },
            _ => 0,
        };
        Step { code, perf: Some(p), header: 0, answers, saw }
    };
    let rb = |r: &mut Rng| {
        let n = r.below(30);
        r.bytes(n)
    };
    if c.server {
        let mut acts = 0;
        if c.sasl {
            let mechs = desc(0x40, V::List(vec![syms(&Some(c.mechs.clone()))]));
            let mt = Tok::Frame(1, 0, 0x40, schema::normalise(0x40, &nf(&mechs)).unwrap());
            steps.push(head(3, if c.refuse == Some(0) { vec![Tok::Header(3)] } else { vec![Tok::Header(3), mt] }));
            let resp = r.chance(70).then(|| rb(r));
            let host = r.chance(50).then(|| word(r));
            let mech = r.pick(&c.mechs).clone();
            let init = desc(
                0x41,
                V::List(vec![sym(&mech), resp.clone().map_or(V::Null, V::Bin), host.as_ref().map_or(V::Null, |h| st(h))]),
            );
            let outcome = Tok::Frame(1, 0, 0x44, vec![V::Ubyte(c.code), V::Null]);
            let mut answers = vec![];
            acts += 1;
            let ch = c.challenge.as_ref().map(|b| Tok::Frame(1, 0, 0x42, vec![V::Bin(b.clone())]));
            if c.refuse != Some(1) {
                answers.push(ch.clone().unwrap_or(outcome.clone()));
            }
            steps.push(fr(init, answers, vec![Saw::Init(mech, resp, host)]));
            if ch.is_some() {
                acts += 1;
                let b = rb(r);
                let a = if c.refuse == Some(2) { vec![] } else { vec![outcome] };
                steps.push(fr(desc(0x43, V::List(vec![V::Bin(b.clone())])), a, vec![Saw::Response(b)]));
            }
            acts += 1;
            if c.code != 0 {
                fails_at = Some(steps.len());
            }
            // the handler's step before open() and the one after it
            if c.refuse == Some(acts) {
                fails_at = Some(steps.len());
            }
            steps.push(head(0, vec![Tok::Header(0)]));
        } else {
            steps.push(head(0, vec![Tok::Header(0)]));
        }
        acts += 1;
        let last = c.refuse == Some(acts);
        steps.push(fr(po, if last { vec![] } else { vec![own_open] }, saw_open));
        if last {
            fails_at = fails_at.or(Some(steps.len()));
        }
        if let Some(k) = c.refuse
            && k < acts
        {
            // the refusal comes right after step k+1 was taken
            let n = if c.sasl { if k == 0 { 1 } else { (k + 1).min(steps.len()) } } else { 1 };
            let n = if c.sasl && k == acts - 1 { steps.len() - 2 } else { n };
            fails_at = Some(fails_at.map_or(n, |f: usize| f.min(n)));
        }
        Script { first: vec![], steps, fails_at }
    } else {
        let first;
        if c.sasl {
            first = vec![Tok::Header(3)];
            steps.push(head(3, vec![]));
            let mechs = desc(0x40, V::List(vec![if c.mechs.len() == 1 && r.chance(50) { sym("PLAIN") } else { syms(&Some(c.mechs.clone())) }]));
            let mut pw = c.auth.0.clone().into_bytes();
            pw.push(0);
            pw.extend_from_slice(c.auth.1.as_bytes());
            pw.push(0);
            pw.extend_from_slice(c.auth.2.as_bytes());
            let host = c.con_host.clone().or_else(|| c.hostname.clone());
            let init = Tok::Frame(1, 0, 0x41, vec![sym("PLAIN"), V::Bin(pw), host.map_or(V::Null, |h| st(&h))]);
            steps.push(fr(mechs, vec![init], vec![]));
            let more = if r.chance(30) { V::Bin(rb(r)) } else { V::Null };
            let mut out = vec![V::Ubyte(c.code)];
            if !more.is_null() || r.chance(30) {
                out.push(more);
            }
            let go = if c.code == 0 { vec![Tok::Header(0)] } else { vec![] };
            steps.push(fr(desc(0x44, V::List(out)), go, vec![]));
            if c.code != 0 {
                fails_at = Some(steps.len());
            }
        } else {
            first = vec![Tok::Header(0)];
        }
        steps.push(head(0, vec![own_open]));
        steps.push(fr(po, vec![], vec![]));
        Script { first, steps, fails_at }
    }
}

/// Bytes of something that is not step `s`; true: its end is not apparent, so only EOF or a time-out ends the attempt
fn deviate(s: &Step, c: &Conf, first: bool, r: &mut Rng, style: &mut Style) -> (String, Vec<u8>, bool) {
    if s.perf.is_none() {
        let mut b = h(s.header);
        match r.below(4) {
            0 => {
                let i = r.range(5, 7);
                b[i] = b[i].wrapping_add(r.range(1, 255) as u8);
                ("version".into(), b, false)
            }
            1 => {
                b[4] = if first && c.server {
                    *r.pick(&[1, 2, 4, 255])
                } else {
                    loop {
                        let x = *r.pick(&[0u8, 1, 2, 3, 4, 255]);
                        if x != s.header {
                            break x;
                        }
                    }
                };
                (format!("protocol id {}", b[4]), b, false)
            }
            2 => {
                let i = r.below(4);
                b[i] ^= 1 << r.below(8);
                ("letters".into(), b, false)
            }
            _ => {
                // a frame in place of the header
                let v = schema::gtype(r, 0x11);
                ("frame".into(), build_frame(0, 0, Some(&v), &[], style, &[]), false)
            }
        }
    } else {
        let p = s.perf.as_ref().unwrap();
        let t = u8::from(s.code >= 0x40);
        match r.below(8) {
            0 | 1 => {
                let other = loop {
                    let x = *r.pick(&[0x40u64, 0x41, 0x42, 0x43, 0x44]);
                    if x != s.code {
                        break x;
                    }
                };
                let v = schema::gtype(r, other);
                (format!("sasl frame {other:#x}"), build_frame(1, 0, Some(&v), &[], style, &[]), false)
            }
            2 => {
                let other = loop {
                    let x = *r.pick(&[0x10u64, 0x11, 0x12, 0x13, 0x14, 0x15, 0x16, 0x17, 0x18]);
                    if x != s.code {
                        break x;
                    }
                };
                let v = schema::gtype(r, other);
                (format!("amqp frame {other:#x}"), build_frame(0, 0, Some(&v), &[], style, &[]), false)
            }
            3 => ("frame type".into(), build_frame(*r.pick(&[1 - t, 2, 255]), 0, Some(p), &[], style, &[]), false),
            4 => {
                // a mandatory field is missing
                (format!("no mandatory field {:#x}", s.code), build_frame(t, 0, Some(&desc(s.code, V::List(vec![]))), &[], style, &[]), false)
            }
            5 => {
                let body = encode(p, style);
                let n = r.below(body.len());
                ("truncated".into(), build_frame(t, 0, None, &body[..n], style, &[]), n == 0)
            }
            6 => ("header".into(), h(*r.pick(&[0, 3])), true),
            _ => {
                if s.code == 0x44 {
                    let v = desc(0x44, V::List(vec![V::Ubyte(r.range(5, 255) as u8)]));
                    ("outcome code".into(), build_frame(1, 0, Some(&v), &[], style, &[]), false)
                } else {
                    let v = desc(*r.pick(&[0x99, 0x45, 0x0f, 0x19]), V::List(nf(p)));
                    ("descriptor".into(), build_frame(t, 0, Some(&v), &[], style, &[]), false)
                }
            }
        }
    }
}

fn same(a: &Tok, b: &Tok) -> bool {
    match (a, b) {
        // the container id is the endpoint's own choice
        (Tok::Frame(t, ch, 0x10, x), Tok::Frame(t2, ch2, 0x10, y)) => {
            t == t2 && ch == ch2 && matches!(&x[0], V::Str(s) if !s.is_empty()) && x[1..] == y[1..]
        }
        _ => a == b,
    }
}

fn chk(out: &mut Vec<(String, String)>, key: &str, what: String) {
    out.push((key.to_string(), what));
}

struct Outcome {
    bad: Vec<(String, String)>,
    log: String,
    counts: Vec<String>,
}

fn short(t: &[Tok]) -> String {
    format!("{t:?}").chars().take(900).collect()
}

async fn scripted(mut r: Rng) -> Outcome {
    let mut c = Conf::random(&mut r);
    c.plain_io = r.chance(30);
    if r.chance(15) {
        c.default_ctl = true;
    } else if r.chance(25) {
        c.factory = r.range(1, 2) as u8;
    }
    let sc = script(&c, &mut r);
    let mut style = if r.chance(60) { Style::random(Rng::new(r.u64())) } else { Style::smallest() };
    let (peer, sut) = IoTest::create();
    let mut raw = Raw { io: Some(peer), got: vec![], sent: vec![], reset: None };
    raw.io.as_ref().unwrap().remote_buffer_cap(1 << 30);
    let side = Rc::new(Side::default());
    let slot = start(&c, &side, sut);
    let n = sc.steps.len();
    // where the script goes wrong: a deviation, or a cut within the step's bytes
    let dev = r.chance(55).then(|| r.below(n));
    let kind_cut = r.chance(30);
    let pipelined = r.chance(30);
    let ext: &[u8] = if r.chance(10) { &[9, 9, 9, 9, 1, 2, 3, 4] } else { &[] };
    let mut log = format!("{c:?}\n");
    let mut counts = vec![format!("{} {}", if c.server { "server" } else { "client" }, if c.sasl { "sasl" } else { "plain" })];
    let mut bytes: Vec<Vec<u8>> = vec![];
    let mut soft = false;
    let mut cut = false;
    for (i, s) in sc.steps.iter().enumerate() {
        let good = match &s.perf {
            None => h(s.header),
            Some(p) => build_frame(u8::from(s.code >= 0x40), 0, Some(p), &[], &mut style, ext),
        };
        if dev == Some(i) {
            if kind_cut {
                let k = r.below(good.len());
                log += &format!("cut within step {i} at {k}\n");
                counts.push("cuts".into());
                bytes.push(good[..k].to_vec());
                cut = true;
                break;
            }
            let (w, b, sf) = deviate(s, &c, i == 0, &mut r, &mut style);
            log += &format!("step {i} ({:#x}) deviates: {w}\n", s.code);
            counts.push(format!("deviation {w}"));
            soft = sf;
            bytes.push(b);
            if r.chance(50) {
                // and goes on as if nothing had happened
                continue;
            }
            break;
        }
        bytes.push(good);
    }
    let taken = dev.unwrap_or(n);
    let taken = sc.fails_at.map_or(taken, |f| f.min(taken));
    let fails = taken < n || sc.fails_at.is_some();
    let mut expect: Vec<Tok> = sc.first.clone();
    let mut saw: Vec<Saw> = vec![];
    for s in &sc.steps[..taken] {
        expect.extend(s.answers.iter().cloned());
        saw.extend(s.saw.iter().cloned());
    }
    if pipelined {
        if !c.server && r.chance(50) {
            raw.settle().await;
        }
        let all: Vec<u8> = bytes.concat();
        raw.write(&all, &mut r).await;
        counts.push("pipelined".into());
    } else {
        for b in &bytes {
            raw.settle().await;
            raw.write(b, &mut r).await;
        }
    }
    if !cut {
        raw.settle().await;
    }
    let mut bad = vec![];
    // something nobody could take for a complete frame may wait for more
    let waiting = soft && sc.fails_at.is_none_or(|f| f > dev.unwrap_or(n));
    if fails && !cut && !waiting && !slot.done() {
        chk(&mut bad, "no-error", format!("the handshake went wrong but the attempt goes on ({log})"));
    }
    if fails && (cut || !slot.done()) {
        raw.cut(&mut r).await;
        raw.settle().await;
    }
    let got = toks(&raw.got);
    log += &format!("emitted {}\nhandler saw {:?}\n", short(&got), side.saw.borrow());
    if cut && !fails {
        unreachable!()
    }
    let ok_len = if cut { got.len() <= expect.len() } else { got.len() == expect.len() };
    if !ok_len || got.iter().zip(&expect).any(|(a, b)| !same(a, b)) {
        let opens = got.iter().filter(|t| matches!(t, Tok::Frame(_, _, 0x10, _))).count();
        let want = expect.iter().filter(|t| matches!(t, Tok::Frame(_, _, 0x10, _))).count();
        let key = if opens > want { "open-after-failure" } else if got.len() > expect.len() { "emits-too-much" } else if got.len() < expect.len() { "stuck" } else { "emits-wrong" };
        chk(&mut bad, key, format!("emitted {}, expected {} ({log})", short(&got), short(&expect)));
    }
    let res = slot.with(|x| x.map(Result::is_err));
    if fails {
        match res {
            Some(true) => {}
            x => chk(&mut bad, "not-ended", format!("the attempt did not end with an error ({x:?}; {log})")),
        }
        if side.services.get() > 0 {
            chk(&mut bad, "served", format!("control or publish service ran although no connection was opened ({log})"));
        }
        if side.open.get() && !(c.server && cut) {
            chk(&mut bad, "opened", format!("the attempt was reported as successful ({log})"));
        }
        if let Some(io) = &raw.io
            && !io.is_closed()
        {
            chk(&mut bad, "transport-left-open", format!("the attempt failed but the transport stays open ({log})"));
        }
        counts.push("failed attempts".into());
    } else if c.server && c.factory > 0 {
        counts.push("service factories failed".into());
        let want = if c.factory == 1 { "ControlServiceError" } else { "PublishServiceError" };
        match slot.take() {
            Some(Err(e)) if e == want => {}
            x => chk(&mut bad, "factory-failure-hidden", format!("a service could not be created, the task ended with {x:?} rather than {want} ({log})")),
        }
        if side.services.get() > 0 {
            chk(&mut bad, "served", format!("control or publish service ran although one could not be created ({log})"));
        }
        if raw.io.as_ref().is_some_and(|io| !io.is_closed()) {
            chk(&mut bad, "transport-left-open", format!("a service could not be created but the transport stays open ({log})"));
        }
        if let Some(s) = side.conn.borrow().clone() {
            let s2 = s.clone();
            let op = Slot::run(async move { s2.open_session().await.is_err() });
            let cl = Slot::run(async move { s.on_close().await });
            raw.settle().await;
            if op.take() != Some(true) || !cl.done() {
                chk(&mut bad, "pending-after-failure", format!("a service could not be created: opening a session or waiting for the close hangs ({log})"));
            }
        }
    } else {
        if res.is_some() || !side.open.get() {
            chk(&mut bad, "legal-refused", format!("a legal handshake did not complete ({:?}; {log})", slot.take()));
        }
        counts.push("completed handshakes".into());
    }
    let saw_got: Vec<Saw> = side.saw.borrow().iter().filter(|s| !matches!(s, Saw::Err(_))).cloned().collect();
    if c.server && !(if cut { saw.starts_with(&saw_got) } else { saw_got == saw }) {
        chk(&mut bad, "handler-saw", format!("the handshake handler saw {saw_got:?} rather than {saw:?} ({log})"));
    }
    if !fails && bad.is_empty() && !(c.server && c.factory > 0) {
        // the connection works
        let before = raw.got.len();
        if c.server {
            let b = desc(0x11, V::List(vec![V::Null, V::Uint(0), V::Uint(10), V::Uint(10)]));
            raw.write(&build_frame(0, 5.min(c.ch_max), Some(&b), &[], &mut style, ext), &mut r).await;
            raw.settle().await;
            let t = toks(&raw.got[before..]);
            if !matches!(&t[..], [Tok::Frame(0, _, 0x11, l)] if l[0] == V::Ushort(5.min(c.ch_max))) {
                chk(&mut bad, "not-working", format!("no session can be opened after the handshake: {} ({log})", short(&t)));
            }
        } else {
            let s = side.conn.borrow().clone().unwrap();
            let op = Slot::run(async move { s.open_session().await.is_ok() });
            raw.settle().await;
            let t = toks(&raw.got[before..]);
            if !matches!(&t[..], [Tok::Frame(0, _, 0x11, _)]) {
                chk(&mut bad, "not-working", format!("no session can be opened after the handshake: {} ({log})", short(&t)));
            }
            drop(op);
        }
    }
    raw.cut(&mut r).await;
    raw.settle().await;
    log += &format!("peer bytes {:02x?}", raw.sent);
    Outcome { bad, log, counts }
}

/// A real client and a real server
async fn pair(mut r: Rng) -> Outcome {
    let mut sc = Conf::random(&mut r);
    let mut cc = Conf::random(&mut r);
    sc.server = true;
    cc.server = false;
    cc.sasl = sc.sasl;
    // one round is all the client does
    sc.challenge = None;
    sc.refuse = None;
    let (a, b) = IoTest::create();
    a.remote_buffer_cap(1 << 20);
    b.remote_buffer_cap(1 << 20);
    let (ss, cs) = (Rc::new(Side::default()), Rc::new(Side::default()));
    let (s, c) = if r.chance(50) {
        let s = start(&sc, &ss, b);
        (s, start(&cc, &cs, a))
    } else {
        let c = start(&cc, &cs, a);
        (start(&sc, &ss, b), c)
    };
    let mut nil = Raw { io: None, got: vec![], sent: vec![], reset: None };
    nil.settle().await;
    nil.settle().await;
    let log = format!("server {sc:?}\nclient {cc:?}\n");
    let mut bad = vec![];
    let good = !sc.sasl || sc.code == 0;
    if good {
        if !ss.open.get() || !cs.open.get() {
            chk(&mut bad, "pair-legal-refused", format!("server {:?} client {:?} ({log})", s.take(), c.take()));
        } else {
            let host = cc.con_host.clone().or_else(|| cc.hostname.clone());
            let mut saw = ss.saw.borrow().clone();
            for x in &mut saw {
                if let Saw::Open(v) = x {
                    v[0] = V::Null;
                }
            }
            let mut want = vec![];
            if sc.sasl {
                want.push(Saw::Init("PLAIN".into(), Some([cc.auth.0.as_bytes(), b"\0", cc.auth.1.as_bytes(), b"\0", cc.auth.2.as_bytes()].concat()), host.clone()));
            }
            want.push(Saw::Open(cc.open()));
            want.push(Saw::Remote(cc.max_frame, cc.ch_max, u32::from(cc.idle) * 1000, host));
            if saw != want {
                chk(&mut bad, "pair-handler-saw", format!("the server saw {saw:?} rather than {want:?} ({log})"));
            }
            let conn = cs.conn.borrow().clone().unwrap();
            let op = Slot::run(async move { conn.open_session().await.map(|_| ()).map_err(|e| format!("{e:?}")) });
            nil.settle().await;
            match op.take() {
                Some(Ok(())) => {}
                x => chk(&mut bad, "pair-not-working", format!("open_session gives {x:?} ({log})")),
            }
        }
    } else {
        let (x, y) = (s.take(), c.take());
        if !matches!((&x, &y), (Some(Err(_)), Some(Err(_)))) {
            chk(&mut bad, "pair-not-ended", format!("authentication failed but server {x:?} client {y:?} ({log})"));
        }
        if !y.as_ref().is_some_and(|y| matches!(y, Err(e) if e.contains(&format!("{:?}", code(sc.code))))) {
            chk(&mut bad, "pair-wrong-error", format!("the client was not told {:?}: {y:?} ({log})", code(sc.code)));
        }
    }
    if let Some(c) = &*cs.conn.borrow() {
        c.force_close();
    }
    nil.settle().await;
    let counts = vec![if good { "completed handshakes between real endpoints" } else { "refused handshakes between real endpoints" }.to_string()];
    Outcome { bad, log, counts }
}

/// Peers that stop talking
async fn stalls(mut r: Rng) -> Outcome {
    let mut all = vec![];
    let mut bad = vec![];
    for _ in 0..24 {
        let mut c = Conf::random(&mut r);
        c.timeout = 1;
        c.service = true;
        c.refuse = None;
        c.code = 0;
        let sc = script(&c, &mut r);
        let mut style = Style::smallest();
        let (peer, sut) = IoTest::create();
        let mut raw = Raw { io: Some(peer), got: vec![], sent: vec![], reset: None };
        raw.io.as_ref().unwrap().remote_buffer_cap(1 << 30);
        let side = Rc::new(Side::default());
        let slot = start(&c, &side, sut);
        let n = sc.steps.len();
        let k = r.below(n + 1);
        for s in &sc.steps[..k] {
            raw.settle().await;
            let b = match &s.perf {
                None => h(s.header),
                Some(p) => build_frame(u8::from(s.code >= 0x40), 0, Some(p), &[], &mut style, &[]),
            };
            raw.write(&b, &mut r).await;
        }
        raw.settle().await;
        all.push((c, raw, side, slot, k == n, k));
    }
    let t = Instant::now();
    while t.elapsed() < Duration::from_millis(3500) || (t.elapsed() < Duration::from_secs(40) && all.iter().any(|x| !x.4 && !x.3.done())) {
        ntex::time::sleep(ntex::time::Millis(100)).await;
    }
    let mut counts = vec![];
    for (c, raw, side, slot, legal, k) in &mut all {
        raw.drain();
        let what = format!("after step {k}: {c:?}");
        if *legal {
            counts.push("connections that outlive the handshake time-out".to_string());
            if slot.done() || !side.open.get() {
                chk(&mut bad, "timeout-after-handshake", format!("a completed connection ended: {:?} {what}", slot.take()));
            }
        } else {
            counts.push("stalled handshakes".to_string());
            match slot.take() {
                None => chk(&mut bad, "stall-not-ended", format!("a stalled handshake is still there after 40 s {what}")),
                Some(Ok(())) => chk(&mut bad, "stall-ok", format!("a stalled handshake ended without an error {what}")),
                Some(Err(_)) => {}
            }
            if side.services.get() > 0 {
                chk(&mut bad, "served", format!("control or publish service ran although no connection was opened {what}"));
            }
        }
        raw.cut(&mut r).await;
    }
    Outcome { bad, log: "stalls".into(), counts }
}

fn run(cx: &mut Cx, o: Outcome) {
    for (k, w) in o.bad {
        cx.r.violation("N01", &k, w);
    }
    if let Some(p) = report::take_panic() {
        cx.r.violation("N01", &format!("panic-{}", report::panic_site(&p)), p);
    }
    for c in &o.counts {
        cx.r.count(c, 1);
    }
    cx.r.nontrivial(&o.log);
    cx.r.sample(|| o.log.clone());
    if std::env::var_os("AMQPMON_LOG").is_some() {
        eprintln!("{}", o.log);
    }
}

pub fn n01(cx: &mut Cx) {
    let n = cx.n(8, 64);
    cx.cases("stalls", n, |cx, rng, _| {
        let r = Rng::new(rng.u64());
        let o = block_on(stalls(r));
        run(cx, o);
    });
    let n = cx.n(30_000, 600_000);
    cx.cases("scripted", n, |cx, rng, _| {
        let r = Rng::new(rng.u64());
        let o = block_on(scripted(r));
        run(cx, o);
    });
    let n = cx.n(4000, 80_000);
    cx.cases("pair", n, |cx, rng, _| {
        let r = Rng::new(rng.u64());
        let o = block_on(pair(r));
        run(cx, o);
    });
}
