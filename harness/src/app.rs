//! The application side of an endpoint under test: control and publish services that record what they
//! are told and can be held up or made to fail, and receivers that log what they are given.
use crate::conv;
use crate::net::{Slot, activity, spawn};
use crate::wire::V;
use ntex_amqp::codec::protocol::{self, TransferBody};
use ntex_amqp::codec::types::{Symbol, Variant};
use ntex_amqp::error::{AmqpError, AmqpProtocolError, LinkError};
use ntex_amqp::{
    AmqpServiceConfig, ConnectionRef, ControlFrame, ControlFrameKind, Delivery, ReceiverLink, SenderLink, Session, client, server,
    types,
};
use ntex::service::{Service, ServiceCtx, fn_factory};
use ntex_io::testing::IoTest;
use ntex_io::{Io, IoBoxed};
use ntex_util::future::Either;
use std::cell::{Cell, RefCell};
use std::collections::HashMap;
use std::rc::Rc;
use std::task::{Poll, Waker};

pub type Err2 = (String, Option<String>);

pub fn perr(e: &protocol::Error) -> Err2 {
    conv::t_error(&Some(e.clone()))
        .ok()
        .and_then(|v| crate::mon::err_of(Some(&v)))
        .unwrap_or_else(|| (conv::cond_str(e.condition()), Some("!unreadable".into())))
}
/// The error a service fails with for this text, and what the peer is to be told
pub fn service_error(d: &str) -> (SvcErr, Err2) {
    let d2 = ntex_bytes::ByteString::from(d.to_string());
    let k = d.bytes().fold(7u32, |a, b| a.wrapping_mul(31).wrapping_add(u32::from(b))) % if d.ends_with('i') { 7 } else { 17 };
    let with = |e: AmqpError, c: &str| (SvcErr::Amqp(e.description(d2.clone())), (c.to_string(), Some(d.to_string())));
    let mut l = match k {
        0 | 1 => (LinkError::force_detach(), "amqp:link:detach-forced"),
        2 | 3 => (LinkError::redirect(), "amqp:link:redirect"),
        4 => (LinkError::new(protocol::AmqpError::ResourceLocked.into()), "amqp:resource-locked"),
        5 => (LinkError::new(protocol::ErrorCondition::Custom(Symbol::from_static("com.example:own"))), "com.example:own"),
        6 => (LinkError::new(protocol::SessionError::ErrantLink.into()), "amqp:session:errant-link"),
        7 => return with(AmqpError::internal_error(), "amqp:internal-error"),
        8 => return with(AmqpError::not_found(), "amqp:not-found"),
        9 => return with(AmqpError::unauthorized_access(), "amqp:unauthorized-access"),
        10 => return with(AmqpError::decode_error(), "amqp:decode-error"),
        11 => return with(AmqpError::invalid_field(), "amqp:invalid-field"),
        12 => return with(AmqpError::not_allowed(), "amqp:not-allowed"),
        13 => return with(AmqpError::not_implemented(), "amqp:not-implemented"),
        14 => return with(AmqpError::new(protocol::AmqpError::FrameSizeTooSmall), "amqp:frame-size-too-small"),
        15 => return with(AmqpError::with_error(protocol::LinkError::Stolen.into()), "amqp:link:stolen"),
        _ => {
            let t: &'static str = Box::leak(d.to_string().into_boxed_str());
            return (
                SvcErr::Amqp(AmqpError::with_error(protocol::ErrorCondition::Custom(Symbol::from_static("com.example:t"))).text(t)),
                ("com.example:t".to_string(), Some(d.to_string())),
            );
        }
    };
    l.0 = if k == 1 { l.0.text(Box::leak(d.to_string().into_boxed_str())) } else { l.0.description(d2) };
    if let V::Map(_) = crate::mon::info_of(Some(d))
        && let Some(m) = conv::o_vsm(&crate::mon::info_of(Some(d)))
    {
        l.0 = l.0.fields(m);
    }
    (SvcErr::Link(l.0), (l.1.to_string(), Some(d.to_string())))
}
/// (variant, error carried)
pub fn proto_err(e: &AmqpProtocolError) -> (&'static str, Option<Err2>) {
    match e {
        AmqpProtocolError::Closed(x) => ("Closed", x.as_ref().map(perr)),
        AmqpProtocolError::SessionEnded(x) => ("SessionEnded", x.as_ref().map(perr)),
        AmqpProtocolError::LinkDetached(x) => ("LinkDetached", x.as_ref().map(perr)),
        AmqpProtocolError::Disconnected => ("Disconnected", None),
        AmqpProtocolError::ConnectionDropped => ("ConnectionDropped", None),
        AmqpProtocolError::BodyTooLarge => ("BodyTooLarge", None),
        AmqpProtocolError::TooManyChannels => ("TooManyChannels", None),
        AmqpProtocolError::KeepAliveTimeout => ("KeepAliveTimeout", None),
        AmqpProtocolError::ReadTimeout => ("ReadTimeout", None),
        AmqpProtocolError::Codec(_) => ("Codec", None),
        AmqpProtocolError::UnknownSession(_) => ("UnknownSession", None),
        AmqpProtocolError::UnknownLink(_) => ("UnknownLink", None),
        AmqpProtocolError::UnexpectedOpeningState(_) => ("UnexpectedOpeningState", None),
        AmqpProtocolError::Unexpected(_) => ("Unexpected", None),
    }
}

#[derive(Clone, Debug)]
pub struct Ctl {
    pub kind: &'static str,
    pub name: String,
    pub chan: Option<u16>,
    pub detail: String,
    /// names of the links of an ended session
    pub links: Vec<String>,
}

pub struct InMsg {
    pub id: u32,
    pub tag: Vec<u8>,
    pub body: Vec<u8>,
    pub format: Option<u32>,
    pub perf: V,
    pub d: Option<Delivery>,
    pub chan: u16,
    /// states the application gave it, in order
    pub sent: Vec<V>,
    pub settled: bool,
    /// the wire may legitimately not show it
    pub loose: bool,
    /// the application waits for the sender to settle it; number of states known when it began
    pub wait: Option<(Slot<Waited>, usize)>,
    pub waits: usize,
}

pub type Waited = (Result<Option<protocol::DeliveryState>, AmqpProtocolError>, Delivery);

#[derive(Default)]
pub struct Inbox {
    pub name: String,
    pub msgs: Vec<InMsg>,
    pub ended: bool,
    pub err: Option<Err2>,
    pub dup_recv: bool,
}

#[derive(Default)]
pub struct App {
    pub ctl: RefCell<Vec<Ctl>>,
    pub gate: Cell<bool>,
    pub pub_gate: Cell<bool>,
    wakers: RefCell<Vec<Waker>>,
    /// control/publish handlers fail for these link names with this description
    pub refuse: RefCell<HashMap<u32, String>>,
    /// control handler fails for this (kind, name)
    pub fail_ctl: RefCell<HashMap<(String, String), String>>,
    /// own limits for links attached by the peer
    pub own_limit: RefCell<HashMap<u32, u64>>,
    /// credit a service grants a link the peer attaches; by the publish service or by the control service
    pub grant: RefCell<HashMap<u32, (u32, bool)>>,
    /// publish handler fails for the next message of these links, with this description
    pub fail_msg: RefCell<HashMap<String, String>>,
    pub snd: RefCell<Vec<(u32, SenderLink)>>,
    pub rcv: RefCell<Vec<(u32, ReceiverLink, Rc<RefCell<Inbox>>)>>,
    pub inbox: RefCell<Vec<Rc<RefCell<Inbox>>>>,
    pub published: RefCell<Vec<(&'static str, String)>>,
    pub conn: RefCell<Option<ConnectionRef>>,
    pub opened: RefCell<Option<Result<(), String>>>,
    pub pulled: Cell<u64>,
    pub closed_events: Cell<u32>,
    /// readiness of the two services
    pub ready: [Ready; 2],
    /// a service was used against its own readiness
    pub misuse: RefCell<Vec<String>>,
    /// accessors contradict each other
    pub odd: RefCell<Vec<String>>,
    /// services fail this often (per cent)
    chaos: RefCell<Option<(crate::rng::Rng, usize)>>,
}

/// The readiness of a service of the application: [control, publish]
#[derive(Default)]
pub struct Ready {
    pub off: Cell<bool>,
    /// takes one call at a time
    pub serial: Cell<bool>,
    pub running: Cell<u32>,
    pub calls: Cell<u32>,
    pub shutdowns: Cell<u32>,
    /// the readiness check fails
    pub fail: RefCell<Option<protocol::Error>>,
    pub asked_off: Cell<u32>,
    wakers: RefCell<Vec<Waker>>,
}
impl Ready {
    pub fn wake(&self) {
        for w in self.wakers.take() {
            w.wake();
        }
    }
    pub fn set(&self, off: bool) {
        self.off.set(off);
        if !off {
            self.wake();
        }
    }
    async fn wait(&self) -> Result<(), SvcErr> {
        std::future::poll_fn(|cx| {
            if let Some(e) = &*self.fail.borrow() {
                return Poll::Ready(Err(SvcErr::Ready(e.clone())));
            }
            if self.off.get() || (self.serial.get() && self.running.get() > 0) {
                self.asked_off.set(self.asked_off.get() + 1);
                self.wakers.borrow_mut().push(cx.waker().clone());
                return Poll::Pending;
            }
            Poll::Ready(Ok(()))
        })
        .await
    }
    fn enter<'a>(&'a self, app: &App, what: &str) -> Running<'a> {
        if self.off.get() {
            app.misuse.borrow_mut().push(format!("a call of the {what} service began while the service was not ready"));
        }
        if self.serial.get() && self.running.get() > 0 {
            app.misuse.borrow_mut().push(format!("two calls of the {what} service at once, it is ready for one at a time"));
        }
        if what == "control" && self.shutdowns.get() > 0 {
            app.misuse.borrow_mut().push(format!("a call of the {what} service began after its shutdown"));
        }
        self.calls.set(self.calls.get() + 1);
        self.running.set(self.running.get() + 1);
        Running(self)
    }
}
struct Running<'a>(&'a Ready);
impl Drop for Running<'_> {
    fn drop(&mut self) {
        self.0.running.set(self.0.running.get() - 1);
        self.0.wake();
    }
}

#[derive(Debug)]
pub enum SvcErr {
    Link(LinkError),
    Amqp(AmqpError),
    Ready(protocol::Error),
}
impl From<SvcErr> for protocol::Error {
    fn from(e: SvcErr) -> Self {
        match e {
            SvcErr::Link(e) => e.into(),
            SvcErr::Amqp(e) => e.into(),
            SvcErr::Ready(e) => e,
        }
    }
}
pub struct CtlSvc(Rc<App>);
pub struct PubSvc(Rc<App>);
impl Service<ControlFrame> for CtlSvc {
    type Response = ();
    type Error = SvcErr;
    async fn ready(&self, _: ServiceCtx<'_, Self>) -> Result<(), SvcErr> {
        self.0.ready[0].wait().await
    }
    async fn call(&self, f: ControlFrame, _: ServiceCtx<'_, Self>) -> Result<(), SvcErr> {
        let _r = self.0.ready[0].enter(&self.0, "control");
        ctl(self.0.clone(), f).await
    }
    async fn shutdown(&self) {
        self.0.ready[0].shutdowns.set(self.0.ready[0].shutdowns.get() + 1);
    }
}
impl Service<types::Message> for PubSvc {
    type Response = ();
    type Error = SvcErr;
    async fn ready(&self, _: ServiceCtx<'_, Self>) -> Result<(), SvcErr> {
        self.0.ready[1].wait().await
    }
    async fn call(&self, m: types::Message, _: ServiceCtx<'_, Self>) -> Result<(), SvcErr> {
        let late = self.0.ready[1].shutdowns.get() > 0;
        if late && matches!(m, types::Message::Transfer(_)) {
            self.0.misuse.borrow_mut().push("a transfer was published after the shutdown of the publish service".into());
        }
        let _r = self.0.ready[1].enter(&self.0, "publish");
        publish(self.0.clone(), m).await
    }
    async fn shutdown(&self) {
        self.0.ready[1].shutdowns.set(self.0.ready[1].shutdowns.get() + 1);
    }
}

pub fn body_bytes(t: &protocol::Transfer) -> Vec<u8> {
    match t.body() {
        Some(TransferBody::Data(b)) => b.to_vec(),
        Some(TransferBody::Message(_)) => b"<message>".to_vec(),
        None => vec![],
    }
}

impl App {
    pub fn chaos(&self, r: crate::rng::Rng, pct: usize) {
        *self.chaos.borrow_mut() = Some((r, pct));
    }
    pub fn chaos_off(&self) {
        *self.chaos.borrow_mut() = None;
    }
    /// Some(yields, fail)
    fn chaotic(&self) -> (usize, bool) {
        match &mut *self.chaos.borrow_mut() {
            None => (0, false),
            Some((r, p)) => (r.below(4), r.chance(*p)),
        }
    }
    pub fn hold(&self, g: bool) {
        self.gate.set(g);
        self.pub_gate.set(g);
        if !g {
            for w in self.wakers.borrow_mut().drain(..) {
                w.wake();
            }
        }
    }
    async fn wait(self: &Rc<Self>) {
        let s = self.clone();
        std::future::poll_fn(move |cx| {
            if s.gate.get() {
                s.wakers.borrow_mut().push(cx.waker().clone());
                Poll::Pending
            } else {
                Poll::Ready(())
            }
        })
        .await;
    }

    /// Starts the loop that takes messages off a receiver
    pub fn consume(self: &Rc<Self>, name: &str, r: ReceiverLink) -> Rc<RefCell<Inbox>> {
        let ib = Rc::new(RefCell::new(Inbox { name: name.to_string(), ..Inbox::default() }));
        self.inbox.borrow_mut().push(ib.clone());
        let ret = ib.clone();
        let app = self.clone();
        spawn(async move {
            let chan = r.session().local_channel_id();
            let mut r = r;
            let mode = app.inbox.borrow().len() % 3;
            loop {
                let next = match mode {
                    // takes what is there before it waits
                    1 if r.has_deliveries() => {
                        let x = r.get_delivery();
                        if x.is_none() {
                            app.odd.borrow_mut().push(format!("'{}' has_deliveries() but get_delivery() gives none", r.name()));
                        }
                        x.map(Ok)
                    }
                    1 if r.get_delivery().is_some() => {
                        app.odd.borrow_mut().push(format!("'{}' get_delivery() gives a delivery, has_deliveries() says there is none", r.name()));
                        continue;
                    }
                    2 => std::future::poll_fn(|cx| ntex_util::Stream::poll_next(std::pin::Pin::new(&mut r), cx)).await,
                    _ => {
                        let x = std::future::poll_fn(|cx| match r.poll_recv(cx) {
                            Poll::Pending if r.has_deliveries() => Poll::Ready(Err(())),
                            Poll::Pending => Poll::Pending,
                            Poll::Ready(x) => Poll::Ready(Ok(x)),
                        })
                        .await;
                        x.unwrap_or_else(|()| {
                            app.odd.borrow_mut().push(format!("'{}' has_deliveries() but recv() waits", r.name()));
                            None
                        })
                    }
                };
                match next {
                    Some(Ok((d, t))) => {
                        app.pulled.set(app.pulled.get() + 1);
                        ib.borrow_mut().msgs.push(InMsg {
                            id: d.id(),
                            tag: d.tag().to_vec(),
                            body: body_bytes(&t),
                            format: t.message_format(),
                            perf: match conv::t_frame(&protocol::Frame::Transfer(t.clone())) {
                                Ok(Some((v, _))) => v,
                                x => crate::wire::st(&format!("{x:?}")),
                            },
                            d: Some(d),
                            chan,
                            sent: vec![],
                            settled: false,
                            loose: false,
                            wait: None,
                            waits: 0,
                        });
                        activity();
                    }
                    Some(Err(e)) => {
                        ib.borrow_mut().err = proto_err(&e).1;
                        ib.borrow_mut().ended = true;
                        activity();
                        return;
                    }
                    None => {
                        ib.borrow_mut().ended = true;
                        activity();
                        return;
                    }
                }
            }
        });
        ret
    }
}

fn lname(l: &Either<SenderLink, ReceiverLink>) -> String {
    match l {
        Either::Left(s) => format!("s:{}", s.name()),
        Either::Right(r) => format!("r:{}", r.name()),
    }
}

/// the whole performative as it is shown to the application
fn whole(f: protocol::Frame) -> String {
    match conv::t_frame(&f) {
        Ok(Some((v, _))) => match crate::codec_checks::norm(v) {
            Ok(v) => format!("{:?}", crate::mon::single(v)),
            Err(e) => format!("unreadable: {e}"),
        },
        x => format!("unreadable: {x:?}"),
    }
}
fn derr(d: &protocol::Detach) -> String {
    whole(protocol::Frame::Detach(d.clone()))
}

async fn ctl(app: Rc<App>, frame: ControlFrame) -> Result<(), SvcErr> {
    let chan = frame.session().map(|s| s.local_channel_id());
    let mut links = vec![];
    let (kind, name, detail) = match frame.kind() {
        ControlFrameKind::AttachSender(a, _, _) => ("AttachSender", a.name().to_string(), whole(protocol::Frame::Attach(a.clone()))),
        ControlFrameKind::AttachReceiver(a, _, _) => ("AttachReceiver", a.name().to_string(), whole(protocol::Frame::Attach(a.clone()))),
        ControlFrameKind::Flow(f, l) => ("Flow", l.name().to_string(), whole(protocol::Frame::Flow(f.clone()))),
        ControlFrameKind::LocalDetachSender(d, l) => ("LocalDetachSender", l.name().to_string(), derr(d)),
        ControlFrameKind::RemoteDetachSender(d, l) => ("RemoteDetachSender", l.name().to_string(), derr(d)),
        ControlFrameKind::LocalDetachReceiver(d, l) => ("LocalDetachReceiver", l.name().to_string(), derr(d)),
        ControlFrameKind::RemoteDetachReceiver(d, l) => ("RemoteDetachReceiver", l.name().to_string(), derr(d)),
        ControlFrameKind::LocalSessionEnded(l) => {
            links = l.iter().map(lname).collect();
            ("LocalSessionEnded", String::new(), String::new())
        }
        ControlFrameKind::RemoteSessionEnded(l) => {
            links = l.iter().map(lname).collect();
            ("RemoteSessionEnded", String::new(), String::new())
        }
        ControlFrameKind::ProtocolError(e) => ("ProtocolError", String::new(), format!("{:?}", proto_err(e))),
        ControlFrameKind::Disconnected(e) => ("Disconnected", String::new(), e.as_ref().map_or(String::new(), |e| format!("{:?}", e.kind()))),
        ControlFrameKind::Closed => {
            app.closed_events.set(app.closed_events.get() + 1);
            ("Closed", String::new(), String::new())
        }
    };
    activity();
    let rchan = frame.session().map_or(0, |s| s.remote_channel_id());
    app.ctl.borrow_mut().push(Ctl { kind, name: name.clone(), chan, detail, links });
    if !matches!(kind, "Closed" | "Disconnected" | "ProtocolError") {
        app.wait().await;
    }
    activity();
    let (n, fail) = app.chaotic();
    for _ in 0..n {
        crate::net::yield_now().await;
    }
    if fail {
        return Err(service_error("chaos").0);
    }
    let fkey = match frame.kind() {
        ControlFrameKind::Flow(f, _) => attach_key("", rchan, f.handle().unwrap_or(0)),
        ControlFrameKind::RemoteDetachSender(d, _) | ControlFrameKind::RemoteDetachReceiver(d, _) => attach_key("", rchan, d.handle()),
        _ => String::new(),
    };
    if let Some(d) = app.fail_ctl.borrow_mut().remove(&(kind.to_string(), fkey)) {
        return Err(service_error(&d).0);
    }
    match frame.kind() {
        ControlFrameKind::AttachSender(a, _, l) => {
            if let Some(d) = app.refuse.borrow().get(&attach_id(a)) {
                return Err(service_error(d).0);
            }
            app.snd.borrow_mut().push((attach_id(a), l.clone()));
        }
        ControlFrameKind::AttachReceiver(a, _, l) => {
            let key = attach_id(a);
            if let Some(d) = app.refuse.borrow().get(&key) {
                return Err(service_error(d).0);
            }
            if let Some(n) = app.own_limit.borrow().get(&key) {
                l.set_max_message_size(*n);
            }
            if let Some((n, false)) = app.grant.borrow().get(&key) {
                l.set_link_credit(*n);
            }
            let ib = app.consume(&name, l.clone());
            app.rcv.borrow_mut().push((key, l.clone(), ib));
        }
        _ => {}
    }
    Ok(())
}

async fn publish(app: Rc<App>, m: types::Message) -> Result<(), SvcErr> {
    let (k, n) = match &m {
        types::Message::Attached(a, _) => ("Attached", a.name().to_string()),
        types::Message::Detached(l) => ("Detached", l.name().to_string()),
        types::Message::DetachedAll(l) => ("DetachedAll", l.iter().map(|l| l.name().to_string()).collect::<Vec<_>>().join(",")),
        types::Message::Transfer(l) => ("Transfer", l.name().to_string()),
    };
    app.published.borrow_mut().push((k, n.clone()));
    activity();
    let (y, fail) = app.chaotic();
    for _ in 0..y {
        crate::net::yield_now().await;
    }
    if fail {
        return Err(service_error("chaos").0);
    }
    if let types::Message::Attached(a, l) = &m
        && let Some((n, true)) = app.grant.borrow().get(&attach_id(a))
    {
        l.set_link_credit(*n);
    }
    if let types::Message::Transfer(l) = &m
        && let Some(d) = app.fail_msg.borrow_mut().remove(&attach_key("", l.session().local_channel_id(), l.handle()))
    {
        return Err(service_error(&d).0);
    }
    Ok(())
}

#[derive(Clone, Debug)]
pub struct SutCfg {
    pub server: bool,
    pub own_max_frame: u32,
    pub own_channel_max: u16,
    pub idle: u16,
    pub keepalive: u16,
    /// longest frame a server takes
    pub max_size: usize,
}
impl Default for SutCfg {
    fn default() -> Self {
        SutCfg { server: false, own_max_frame: 65535, own_channel_max: 1024, idle: 0, keepalive: 0, max_size: 0 }
    }
}

pub fn shared(c: &SutCfg) -> ntex::SharedCfg {
    ntex::SharedCfg::new("MON")
        .add(
            AmqpServiceConfig::new()
                .set_max_frame_size(c.own_max_frame)
                .set_channel_max(c.own_channel_max)
                .set_idle_timeout(c.idle)
                .set_max_size(c.max_size),
        )
        .add(
            ntex_io::IoConfig::new()
                .set_keepalive_timeout(ntex::time::Seconds(c.keepalive))
                .set_disconnect_timeout(ntex::time::Seconds(1)),
        )
        .into()
}

/// Starts a client or server on `io`; the slot fills when its dispatcher has ended
pub fn start(app: &Rc<App>, io: IoTest, c: &SutCfg) -> Slot<Result<(), String>> {
    let cfg = shared(c);
    let io: IoBoxed = Io::new(io, cfg.clone()).into();
    let app = app.clone();
    if c.server {
        Slot::run(async move {
            let a = app.clone();
            let a2 = app.clone();
            let a3 = app.clone();
            let srv = server::Server::build(move |h: server::Handshake| {
                let a = a.clone();
                async move {
                    match h {
                        server::Handshake::Amqp(c) => match c.open().await {
                            Ok(c) => {
                                *a.conn.borrow_mut() = Some(c.sink().get_ref());
                                *a.opened.borrow_mut() = Some(Ok(()));
                                activity();
                                Ok(c.ack(()))
                            }
                            Err(e) => {
                                *a.opened.borrow_mut() = Some(Err(format!("{e:?}")));
                                activity();
                                Err(LinkError::force_detach())
                            }
                        },
                        server::Handshake::Sasl(_) => Err(LinkError::force_detach()),
                    }
                }
            })
            .control(fn_factory(async move || Ok::<_, ()>(CtlSvc(a2.clone()))))
            .finish(fn_factory(async move || Ok::<_, ()>(PubSvc(a3.clone()))));
            use ntex::ServiceFactory;
            let srv = <_ as ServiceFactory<IoBoxed, ntex::SharedCfg>>::pipeline(&srv, cfg).await.map_err(|_| "init".to_string())?;
            srv.call(io).await.map_err(|e| format!("{e:?}"))
        })
    } else {
        Slot::run(async move {
            use ntex::ServiceFactory;
            let con = client::Connector::<String>::new();
            let con = <_ as ServiceFactory<client::Connect<String>, ntex::SharedCfg>>::create(&con, cfg)
                .await
                .map_err(|_| "init".to_string())?;
            let cl = match con.negotiate(io, None).await {
                Ok(c) => c,
                Err(e) => {
                    *app.opened.borrow_mut() = Some(Err(format!("{e:?}")));
                    activity();
                    return Err(format!("{e:?}"));
                }
            };
            *app.conn.borrow_mut() = Some(cl.sink());
            *app.opened.borrow_mut() = Some(Ok(()));
            activity();
            let a = app.clone();
            cl.start(CtlSvc(a))
                .await
                .map_err(|e| format!("{e:?}"))
        })
    }
}

pub fn session_of(app: &App, chan: u16) -> Option<Session> {
    app.conn.borrow().as_ref().and_then(|c| c.get_session_by_local_id(chan))
}

/// Identifies an attach of the peer until its handle is used again
pub fn attach_key(role: &str, chan: u16, handle: u32) -> String {
    format!("{role}:{chan}:{handle}")
}

/// The number the scripted peer gives to each of its attaches
fn attach_id(a: &protocol::Attach) -> u32 {
    match a.properties().and_then(|p| p.get(&Symbol::from_static("id"))) {
        Some(Variant::Uint(n)) => *n,
        _ => 0,
    }
}
