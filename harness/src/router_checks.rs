//! The router: every link and message reaches its own handler, once.
use crate::Cx;
use crate::app::{self, SutCfg};
use crate::net::{Slot, Wire, activity, block_on};
use crate::report;
use crate::rng::Rng;
use crate::wire::{Style, V, desc, st, sym};
use ntex::service::{Service, ServiceCtx, ServiceFactory};
use ntex_amqp::codec::protocol::{self, Error, Transfer};
use ntex_amqp::codec::types::{Str, Symbol, Variant};
use ntex_amqp::error::LinkError;
use ntex_amqp::types::{Link, Outcome};
use ntex_amqp::{ReceiverLink, server};
use ntex_bytes::ByteString;
use ntex_io::testing::IoTest;
use ntex_io::{Io, IoBoxed};
use std::cell::{Cell, RefCell};
use std::collections::{BTreeMap, HashMap};
use std::future::poll_fn;
use std::rc::Rc;
use std::task::{Poll, Waker};

pub const RULE: &str = "history of links and messages of a scripted peer against a real server with a router, random handlers, outcomes and delays, deduplicated by the frames in both directions";

#[derive(Default)]
struct Gate {
    open: Cell<bool>,
    wakers: RefCell<Vec<Waker>>,
}
impl Gate {
    fn new(open: bool) -> Rc<Gate> {
        Rc::new(Gate { open: Cell::new(open), ..Default::default() })
    }
    fn release(&self) {
        self.open.set(true);
        for w in self.wakers.borrow_mut().drain(..) {
            w.wake();
        }
        activity();
    }
    fn poll(&self, cx: &mut std::task::Context<'_>) -> Poll<()> {
        if self.open.get() {
            Poll::Ready(())
        } else {
            self.wakers.borrow_mut().push(cx.waker().clone());
            Poll::Pending
        }
    }
    async fn wait(&self) {
        poll_fn(|cx| self.poll(cx)).await;
    }
}

type CondDesc = (String, Option<String>);

/// How the handler of one link behaves
#[derive(Clone)]
struct LinkPlan {
    create: Rc<Gate>,
    create_err: Option<CondDesc>,
    credit: Option<u32>,
    ready: Rc<Gate>,
    /// it did not take messages at first
    slow: bool,
    /// readiness fails before this many-th call
    ready_err: Option<usize>,
}

#[derive(Clone, Debug, PartialEq)]
enum Out {
    Accept,
    Reject,
    Error(CondDesc),
    /// the service fails, its error becomes an outcome
    Fail(CondDesc),
    /// the service fails, its error does not
    Hard(CondDesc),
}

#[derive(Clone)]
struct MsgPlan {
    gate: Rc<Gate>,
    out: Out,
}

#[derive(Clone, Debug)]
struct CallRec {
    body: Vec<u8>,
    msg: Option<u32>,
}

struct Inst {
    res: usize,
    path: String,
    params: Vec<(String, String)>,
    name: String,
    created: bool,
    calls: Vec<CallRec>,
    shutdown: usize,
    running: usize,
    dropped: bool,
    link: ReceiverLink,
}

#[derive(Default)]
struct Env {
    /// by the attach's number
    insts: RefCell<Vec<(u32, Inst)>>,
    links: RefCell<HashMap<u32, LinkPlan>>,
    msgs: RefCell<HashMap<u32, MsgPlan>>,
}

#[derive(Debug)]
struct HErr {
    hard: bool,
    e: CondDesc,
}
fn mkerr(e: &CondDesc) -> Error {
    Error(Box::new(protocol::ErrorInner {
        condition: protocol::ErrorCondition::Custom(Symbol(Str::from(ByteString::from(e.0.clone())))),
        description: e.1.as_ref().map(|d| ByteString::from(d.clone())),
        info: None,
    }))
}
impl From<HErr> for Error {
    fn from(e: HErr) -> Error {
        mkerr(&e.e)
    }
}
impl TryFrom<HErr> for Outcome {
    type Error = Error;
    fn try_from(e: HErr) -> Result<Outcome, Error> {
        if e.hard { Err(e.into()) } else { Ok(Outcome::Error(e.into())) }
    }
}

struct Fact {
    res: usize,
    env: Rc<Env>,
}
struct Svc {
    env: Rc<Env>,
    idx: usize,
    plan: LinkPlan,
    n: Cell<usize>,
}

impl Drop for Svc {
    fn drop(&mut self) {
        self.env.insts.borrow_mut()[self.idx].1.dropped = true;
        activity();
    }
}
/// A call in progress
struct Busy<'a>(&'a Svc);
impl Drop for Busy<'_> {
    fn drop(&mut self) {
        self.0.env.insts.borrow_mut()[self.0.idx].1.running -= 1;
    }
}

fn attach_no(a: &protocol::Attach) -> u32 {
    match a.properties().and_then(|p| p.get(&Symbol::from_static("id"))) {
        Some(Variant::Uint(n)) => *n,
        _ => 0,
    }
}

impl ServiceFactory<Transfer, Link<()>> for Fact {
    type Response = Outcome;
    type Error = HErr;
    type InitError = HErr;
    type Service = Svc;
    async fn create(&self, l: Link<()>) -> Result<Svc, HErr> {
        let no = attach_no(l.frame());
        let plan = self.env.links.borrow().get(&no).cloned().expect("plan");
        let mut params = vec![];
        for (k, v) in l.path().iter() {
            params.push((k.to_string(), v.to_string()));
        }
        let idx = self.env.insts.borrow().len();
        self.env.insts.borrow_mut().push((
            no,
            Inst {
                res: self.res,
                path: l.path().get_ref().to_string(),
                params,
                name: l.frame().name().to_string(),
                created: false,
                calls: vec![],
                shutdown: 0,
                running: 0,
                dropped: false,
                link: l.receiver().clone(),
            },
        ));
        activity();
        if let Some(c) = plan.credit {
            l.link_credit(c);
        }
        plan.create.wait().await;
        activity();
        if let Some(e) = plan.create_err {
            return Err(HErr { hard: true, e });
        }
        self.env.insts.borrow_mut()[idx].1.created = true;
        Ok(Svc { env: self.env.clone(), idx, plan, n: Cell::new(0) })
    }
}

impl Service<Transfer> for Svc {
    type Response = Outcome;
    type Error = HErr;
    async fn ready(&self, _: ServiceCtx<'_, Self>) -> Result<(), HErr> {
        self.plan.ready.wait().await;
        if self.plan.ready_err.is_some_and(|n| self.n.get() >= n) {
            return Err(HErr { hard: true, e: ("not:ready".into(), None) });
        }
        Ok(())
    }
    async fn shutdown(&self) {
        self.env.insts.borrow_mut()[self.idx].1.shutdown += 1;
        activity();
    }
    async fn call(&self, t: Transfer, _: ServiceCtx<'_, Self>) -> Result<Outcome, HErr> {
        self.n.set(self.n.get() + 1);
        let body = app::body_bytes(&t);
        let msg = (body.len() >= 4).then(|| u32::from_be_bytes(body[..4].try_into().unwrap()));
        self.env.insts.borrow_mut()[self.idx].1.calls.push(CallRec { body, msg });
        self.env.insts.borrow_mut()[self.idx].1.running += 1;
        let _busy = Busy(self);
        activity();
        let plan = msg.and_then(|m| self.env.msgs.borrow().get(&m).cloned());
        let Some(plan) = plan else { return Ok(Outcome::Accept) };
        plan.gate.wait().await;
        activity();
        match plan.out {
            Out::Accept => Ok(Outcome::Accept),
            Out::Reject => Ok(Outcome::Reject),
            Out::Error(e) => Ok(Outcome::Error(mkerr(&e))),
            Out::Fail(e) => Err(HErr { hard: false, e }),
            Out::Hard(e) => Err(HErr { hard: true, e }),
        }
    }
}

/// The registered patterns
const PATS: &[&[&str]] = &[
    &["alpha"],
    &["queue/{name}"],
    &["a/{x}/b/{y}"],
    &["one", "two", "three/{n}"],
    &["deep/er/still"],
    &["user-{id}/inbox"],
];

/// Reference matcher, segment by segment
fn matches(pat: &str, addr: &str) -> Option<Vec<(String, String)>> {
    let (p, a): (Vec<_>, Vec<_>) = (pat.split('/').collect(), addr.split('/').collect());
    if p.len() != a.len() {
        return None;
    }
    let mut out = vec![];
    for (p, a) in p.iter().zip(&a) {
        if let Some(i) = p.find('{') {
            let (pre, name) = (&p[..i], &p[i + 1..p.len() - 1]);
            let v = a.strip_prefix(pre)?;
            if v.is_empty() {
                return None;
            }
            out.push((name.to_string(), v.to_string()));
        } else if p != a {
            return None;
        }
    }
    Some(out)
}

#[derive(Clone, Debug)]
struct SentMsg {
    no: u32,
    id: u32,
    body: Vec<u8>,
    settled: bool,
    released: bool,
}

/// A link of the peer
struct PLink {
    no: u32,
    sess: usize,
    name: String,
    handle: u32,
    addr: Option<String>,
    want: Option<(usize, Vec<(String, String)>)>,
    plan: LinkPlan,
    att: bool,
    lh: Option<u32>,
    det_rx: Option<Option<CondDesc>>,
    det_tx: bool,
    limit: u32,
    idc: u32,
    flows: u32,
    count: u32,
    sent: Vec<SentMsg>,
    /// delivery whose frames are not all sent
    part: Option<(SentMsg, Vec<u8>)>,
    app_closed: bool,
}

struct PSess {
    ch: u16,
    lch: Option<u16>,
    ended: bool,
    next_id: u32,
    disp: HashMap<u32, Vec<V>>,
}

pub struct Run {
    w: Wire,
    rng: Rng,
    env: Rc<Env>,
    sess: Vec<PSess>,
    links: Vec<PLink>,
    next_no: u32,
    next_msg: u32,
    bad: Vec<(String, String)>,
    counts: BTreeMap<&'static str, u64>,
    ended: Slot<Result<(), String>>,
    chaos_names: bool,
}

impl Run {
    fn v(&mut self, k: &str, w: impl Into<String>) {
        let w = w.into();
        if !self.bad.iter().any(|b| b.0 == k) {
            self.w.mon.log.push(format!("!! {k}: {w}"));
            self.bad.push((k.to_string(), w));
        }
    }
    fn c(&mut self, k: &'static str) {
        *self.counts.entry(k).or_default() += 1;
    }
    fn send(&mut self, ch: u16, v: V, pay: &[u8]) {
        self.w.queue(0, ch, Some(&v), pay);
    }
    async fn go(&mut self) {
        let mut r = Rng::new(self.rng.u64());
        self.w.flush(&mut r).await;
        self.take();
    }
    async fn rest(&mut self) {
        self.go().await;
        self.w.settle().await;
        self.take();
    }

    /// What the endpoint sent
    fn take(&mut self) {
        while let Some(f) = self.w.got.pop_front() {
            let Ok(Some((code, l))) = f.parts() else { continue };
            let l = l.to_vec();
            let u = |i: usize| match l.get(i) {
                Some(V::Uint(n)) => Some(*n),
                _ => None,
            };
            if code == 0x11 {
                if let Some(V::Ushort(rc)) = l.first()
                    && let Some(s) = self.sess.iter_mut().rev().find(|s| s.ch == *rc && s.lch.is_none())
                {
                    s.lch = Some(f.channel);
                }
                continue;
            }
            if code == 0x18 {
                self.v("closed", "the endpoint closed the connection of a conforming peer");
                continue;
            }
            let Some(si) = self.sess.iter().rposition(|s| s.lch == Some(f.channel)) else { continue };
            match code {
                0x12 => {
                    let V::Str(name) = &l[0] else { continue };
                    if let Some(k) = self.links.iter_mut().rev().find(|k| k.sess == si && k.name == *name && !k.att) {
                        k.att = true;
                        k.lh = u(1);
                    }
                }
                0x13 => {
                    let Some(h) = u(4) else { continue };
                    let (Some(c), n) = (u(6), u(5)) else { continue };
                    if let Some(k) = self.links.iter_mut().rev().find(|k| k.sess == si && k.lh == Some(h)) {
                        k.limit = n.unwrap_or(0).wrapping_add(c);
                        k.flows += 1;
                        let (got, want) = (k.limit.wrapping_sub(k.idc), k.plan.credit.unwrap_or(50));
                        if k.flows == 1 && got != want {
                            let name = k.name.clone();
                            self.v("first-credit", format!("link '{name}' was first granted {got} deliveries, its handler asked for {want}"));
                        }
                    } else {
                        self.v("flow-before-attach", format!("credit for a link (handle {h}) that is not attached"));
                    }
                }
                0x16 => {
                    let h = u(0);
                    if let Some(k) = self.links.iter_mut().rev().find(|k| k.sess == si && k.lh == h && k.det_rx.is_none()) {
                        k.det_rx = Some(l.get(2).and_then(err_of));
                        let (n, name) = (k.det_tx, k.handle);
                        if !n {
                            k.det_tx = true;
                            let ch = self.sess[si].ch;
                            if !self.sess[si].ended {
                                self.send(ch, desc(0x16, V::List(vec![V::Uint(name), V::Bool(true)])), &[]);
                            }
                        }
                    }
                }
                0x15 => {
                    let (Some(V::Bool(true)), Some(a)) = (l.first(), u(1)) else { continue };
                    let b = u(2).unwrap_or(a);
                    if b.wrapping_sub(a) > 1000 {
                        self.v("disposition-range", format!("disposition for {a}..{b}"));
                        continue;
                    }
                    let settled = l.get(3) == Some(&V::Bool(true));
                    let mut i = a;
                    loop {
                        let st = l.get(4).cloned().unwrap_or(V::Null);
                        self.sess[si].disp.entry(i).or_default().push(if settled { st } else { V::Null });
                        if i == b {
                            break;
                        }
                        i = i.wrapping_add(1);
                    }
                }
                0x17 => {
                    if !self.sess[si].ended {
                        self.v("ended", "the endpoint ended a session of a conforming peer");
                        self.sess[si].ended = true;
                    }
                }
                _ => {}
            }
        }
    }

    fn addr(&mut self) -> Option<String> {
        let w = |r: &mut Rng| {
            let n = r.range(1, 8);
            (0..n).map(|_| *r.pick(&['a', 'b', 'q', 'x', '7', '-', '_', 'Z'])).collect::<String>()
        };
        let r = &mut self.rng;
        Some(match r.below(24) {
            0..=3 => "alpha".into(),
            4..=8 => format!("queue/{}", w(r)),
            9..=11 => format!("a/{}/b/{}", w(r), w(r)),
            12 => "one".into(),
            13 => "two".into(),
            14 => format!("three/{}", w(r)),
            15 => "deep/er/still".into(),
            16 => format!("user-{}/inbox", w(r)),
            17 => return None,
            18 => r.pick(&["alph", "alphaa", "beta", "queue", "a/b", "a/x/b", "deep/er", "three", "twoo", "Alpha", "user-/inbox"]).to_string(),
            19 => format!("queue/{}/{}", w(r), w(r)),
            20 => format!("a/{}/c/{}", w(r), w(r)),
            21 => format!("deep/er/still/{}", w(r)),
            22 => format!("{}/alpha", w(r)),
            _ => w(r),
        })
    }

    fn cond(&mut self) -> CondDesc {
        let n = self.rng.below(1000);
        (format!("test:cond-{n}"), self.rng.chance(60).then(|| format!("because {n}")))
    }

    async fn begin(&mut self) {
        let used: Vec<u16> = self.sess.iter().filter(|s| !s.ended).map(|s| s.ch).collect();
        let ch = (0..50).map(|_| self.rng.below(12) as u16).find(|c| !used.contains(c));
        let Some(ch) = ch else { return };
        let next_id = if self.rng.chance(20) { u32::MAX - 5 } else { self.rng.below(50) as u32 };
        self.sess.push(PSess { ch, lch: None, ended: false, next_id, disp: HashMap::new() });
        self.send(ch, desc(0x11, V::List(vec![V::Null, V::Uint(1), V::Uint(100_000), V::Uint(100_000)])), &[]);
        // wait for the answer: the channel's session is up
        self.rest().await;
        if self.sess.last().is_some_and(|s| s.lch.is_none()) {
            self.v("begin", "a Begin is not answered");
        }
    }

    fn attach(&mut self) {
        let live: Vec<usize> = (0..self.sess.len()).filter(|i| !self.sess[*i].ended).collect();
        if live.is_empty() {
            return;
        }
        let si = *self.rng.pick(&live);
        let taken: Vec<u32> = self.links.iter().filter(|k| k.sess == si && !(k.det_tx && k.det_rx.is_some())).map(|k| k.handle).collect();
        let names: Vec<String> = self.links.iter().filter(|k| k.sess == si && !(k.det_tx && k.det_rx.is_some())).map(|k| k.name.clone()).collect();
        let Some(handle) = (0..50).map(|_| self.rng.below(20) as u32).find(|h| !taken.contains(h)) else { return };
        self.next_no += 1;
        let no = self.next_no;
        let mut name = format!("L{no}");
        if self.chaos_names
            && let Some(k) = (!self.links.is_empty()).then(|| self.rng.below(self.links.len()))
            && self.links[k].sess == si
            && !names.contains(&self.links[k].name)
        {
            name = self.links[k].name.clone();
        }
        let addr = self.addr();
        let want = addr.as_ref().and_then(|a| {
            PATS.iter().enumerate().find_map(|(i, ps)| ps.iter().find_map(|p| matches(p, a)).map(|m| (i, m)))
        });
        let e = self.cond();
        let slow = self.rng.chance(8);
        let plan = LinkPlan {
            slow,
            create: Gate::new(!self.rng.chance(25)),
            create_err: self.rng.chance(10).then_some(e),
            credit: match self.rng.below(20) {
                0..=2 => Some(self.rng.range(1, 80) as u32),
                3..=8 => Some(self.rng.range(1, 4) as u32),
                _ => None,
            },
            ready: Gate::new(!slow),
            ready_err: self.rng.chance(6).then(|| self.rng.below(4)),
        };
        self.env.links.borrow_mut().insert(no, plan.clone());
        let idc = if self.rng.chance(20) { u32::MAX - self.rng.below(3) as u32 } else { self.rng.below(4) as u32 };
        let tgt = match &addr {
            Some(a) => desc(0x29, V::List(vec![st(a)])),
            None if self.rng.chance(50) => desc(0x29, V::List(vec![])),
            None => V::Null,
        };
        let props = V::Map(vec![(sym("id"), V::Uint(no))]);
        let v = desc(
            0x12,
            V::List(vec![
                st(&name),
                V::Uint(handle),
                V::Bool(false),
                V::Null,
                V::Null,
                desc(0x28, V::List(vec![st("src")])),
                tgt,
                V::Null,
                V::Null,
                V::Uint(idc),
                V::Null,
                V::Null,
                V::Null,
                props,
            ]),
        );
        let ch = self.sess[si].ch;
        self.send(ch, v, &[]);
        self.links.push(PLink {
            no,
            sess: si,
            name,
            handle,
            addr,
            want,
            plan,
            att: false,
            lh: None,
            det_rx: None,
            det_tx: false,
            limit: idc,
            idc,
            flows: 0,
            count: idc,
            sent: vec![],
            part: None,
            app_closed: false,
        });
        self.c("links attached");
    }

    fn transfer(&mut self) {
        let ok: Vec<usize> = (0..self.links.len())
            .filter(|i| {
                let k = &self.links[*i];
                k.att && !k.det_tx && k.det_rx.is_none() && !self.sess[k.sess].ended && (k.part.is_some() || (k.limit.wrapping_sub(k.count) as i32) > 0)
            })
            .collect();
        if ok.is_empty() {
            return;
        }
        let li = *self.rng.pick(&ok);
        let n = *self.rng.pick(&[1, 1, 2, 5]);
        for _ in 0..n {
            self.one(li);
        }
    }

    fn one(&mut self, li: usize) {
        let (si, handle) = (self.links[li].sess, self.links[li].handle);
        let ch = self.sess[si].ch;
        if let Some((m, rest)) = self.links[li].part.take() {
            if self.rng.chance(10) {
                // given up
                self.send(ch, desc(0x14, V::List(vec![V::Uint(handle), V::Null, V::Null, V::Null, V::Null, V::Bool(false), V::Null, V::Null, V::Null, V::Bool(true)])), &[]);
                self.c("deliveries aborted");
                return;
            }
            let cut = if self.rng.chance(30) { self.rng.below(rest.len() + 1) } else { rest.len() };
            let more = cut < rest.len();
            self.send(ch, desc(0x14, V::List(vec![V::Uint(handle), V::Null, V::Null, V::Null, V::Null, V::Bool(more)])), &rest[..cut]);
            if more {
                self.links[li].part = Some((m, rest[cut..].to_vec()));
            } else {
                self.links[li].sent.push(m);
                self.c("messages sent");
            }
            return;
        }
        let k = &self.links[li];
        if (k.limit.wrapping_sub(k.count) as i32) <= 0 {
            return;
        }
        self.next_msg += 1;
        let no = self.next_msg;
        let big = self.rng.chance(20);
        let n = if big { self.rng.below(2000) } else { self.rng.below(20) };
        let mut body = no.to_be_bytes().to_vec();
        body.extend(self.rng.bytes(n));
        let settled = self.rng.chance(20);
        let e = self.cond();
        let out = match self.rng.below(9) {
            0..=3 => Out::Accept,
            4 => Out::Reject,
            5 => Out::Error(e),
            6 => Out::Fail(e),
            7 => Out::Hard(e),
            _ => Out::Accept,
        };
        let gated = self.rng.chance(40);
        self.env.msgs.borrow_mut().insert(no, MsgPlan { gate: Gate::new(!gated), out });
        let id = self.sess[si].next_id;
        self.sess[si].next_id = id.wrapping_add(1);
        self.links[li].count = self.links[li].count.wrapping_add(1);
        let cut = if self.rng.chance(25) { self.rng.below(body.len() + 1) } else { body.len() };
        let more = cut < body.len();
        let tag = V::Bin(no.to_be_bytes().to_vec());
        let s = if settled { V::Bool(true) } else { V::Null };
        self.send(ch, desc(0x14, V::List(vec![V::Uint(handle), V::Uint(id), tag, V::Uint(0), s, V::Bool(more)])), &body[..cut]);
        let m = SentMsg { no, id, body: body.clone(), settled, released: !gated };
        if more {
            self.links[li].part = Some((m, body[cut..].to_vec()));
        } else {
            self.links[li].sent.push(m);
            self.c("messages sent");
        }
    }

    fn release(&mut self) {
        let mut held: Vec<(usize, usize)> = vec![];
        for (i, k) in self.links.iter().enumerate() {
            for (j, m) in k.sent.iter().enumerate() {
                if !m.released {
                    held.push((i, j));
                }
            }
        }
        if !held.is_empty() && self.rng.chance(70) {
            let (i, j) = *self.rng.pick(&held);
            self.links[i].sent[j].released = true;
            let no = self.links[i].sent[j].no;
            let g = self.env.msgs.borrow()[&no].gate.clone();
            g.release();
            return;
        }
        let gates: Vec<Rc<Gate>> = self.links.iter().flat_map(|k| [k.plan.create.clone(), k.plan.ready.clone()]).filter(|g| !g.open.get()).collect();
        if !gates.is_empty() {
            self.rng.pick(&gates).release();
        }
    }

    fn detach(&mut self) {
        let ok: Vec<usize> = (0..self.links.len())
            .filter(|i| {
                let k = &self.links[*i];
                !k.det_tx && k.det_rx.is_none() && !self.sess[k.sess].ended
            })
            .collect();
        if ok.is_empty() {
            return;
        }
        let li = *self.rng.pick(&ok);
        let (si, handle) = (self.links[li].sess, self.links[li].handle);
        self.links[li].det_tx = true;
        self.links[li].part = None;
        let ch = self.sess[si].ch;
        self.send(ch, desc(0x16, V::List(vec![V::Uint(handle), V::Bool(true)])), &[]);
        self.c("links detached by the peer");
    }

    fn end(&mut self) {
        let ok: Vec<usize> = (0..self.sess.len()).filter(|i| !self.sess[*i].ended && self.sess[*i].lch.is_some()).collect();
        if ok.len() < 2 && !self.rng.chance(20) || ok.is_empty() {
            return;
        }
        let si = *self.rng.pick(&ok);
        self.sess[si].ended = true;
        let ch = self.sess[si].ch;
        self.send(ch, desc(0x17, V::List(vec![])), &[]);
        self.c("sessions ended by the peer");
    }

    /// The application closes one of its links
    fn app_close(&mut self) {
        let ok: Vec<usize> = (0..self.links.len())
            .filter(|i| {
                let k = &self.links[*i];
                k.att && !k.det_tx && k.det_rx.is_none() && !self.sess[k.sess].ended
            })
            .collect();
        if ok.is_empty() {
            return;
        }
        let li = *self.rng.pick(&ok);
        let no = self.links[li].no;
        let l = self.env.insts.borrow().iter().find(|i| i.0 == no).map(|i| i.1.link.clone());
        if let Some(l) = l {
            self.links[li].app_closed = true;
            self.w.mon.note(&format!("app: close L{no}"));
            ntex::rt::spawn(async move {
                let _ = l.close().await;
            });
        }
    }

    /// Everything has come to rest: who got what?
    fn check(&mut self) {
        let mut bad: Vec<(&str, String)> = vec![];
        let (mut renewed, mut released) = (0, 0);
        {
            let insts = self.env.insts.borrow();
            let msgs = self.env.msgs.borrow();
            for k in &self.links {
                let what = format!("link {} (address {:?}, handle {})", k.no, k.addr, k.handle);
                let mine: Vec<&Inst> = insts.iter().filter(|i| i.0 == k.no).map(|i| &i.1).collect();
                let s = &self.sess[k.sess];
                let gone = k.det_tx || s.ended;
                let Some((res, params)) = &k.want else {
                    if !mine.is_empty() {
                        bad.push(("served-unmatched", format!("{what} matches no pattern but handler {} was created for it", mine[0].res)));
                    }
                    if !s.ended && !(k.det_tx && k.det_rx.is_none()) {
                        match &k.det_rx {
                            None => bad.push(("unmatched-not-refused", format!("{what} matches no pattern and was not refused"))),
                            Some(None) if !gone => bad.push(("refused-without-error", format!("{what} was refused without an error"))),
                            _ => (),
                        }
                    }
                    continue;
                };
                if mine.len() > 1 {
                    bad.push(("handler-twice", format!("{} handlers were created for {what}", mine.len())));
                    continue;
                }
                let Some(i) = mine.first() else {
                    if !gone {
                        bad.push(("no-handler", format!("no handler was created for {what}")));
                    }
                    continue;
                };
                if i.res != *res {
                    bad.push(("wrong-handler", format!("{what} matches pattern {:?} but is served by the handler of {:?}", PATS[*res], PATS[i.res])));
                }
                let (mut a, mut b) = (i.params.clone(), params.clone());
                a.sort();
                b.sort();
                if a != b || Some(&i.path) != k.addr.as_ref() {
                    bad.push(("params", format!("{what}: handler saw path {:?} with {:?}, expected {:?}", i.path, i.params, params)));
                }
                if i.name != k.name {
                    bad.push(("link-name", format!("{what}: handler got link '{}'", i.name)));
                }
                if k.plan.create.open.get() && !gone && !k.app_closed {
                    if let Some(e) = &k.plan.create_err {
                        match &k.det_rx {
                            None => bad.push(("create-failure-not-refused", format!("the handler of {what} could not be created but the link was not refused"))),
                            Some(g) if g.as_ref() != Some(e) => bad.push(("create-failure-error", format!("{what} refused with {g:?}, the handler's error was {e:?}"))),
                            _ => (),
                        }
                    } else if !k.att {
                        bad.push(("not-attached", format!("the handler of {what} is ready but the link is not attached")));
                    }
                }
                // messages
                for (n, c) in i.calls.iter().enumerate() {
                    let at = k.sent.iter().position(|m| m.body == c.body);
                    match at {
                        None => bad.push(("message-invented", format!("{what}: its handler got message {:?} ({} bytes) which was not sent on it", c.msg, c.body.len()))),
                        Some(_) if i.calls.iter().take(n).any(|x| x.body == c.body) => {
                            bad.push(("message-twice", format!("{what}: message {:?} was handed over again", c.msg)));
                        }
                        // messages that wait for a handler's readiness may overtake each other
                        Some(at) if at != n && !k.plan.slow => {
                            bad.push(("message-order", format!("{what}: call {n} got message {:?}, number {at} of those sent", c.msg)));
                        }
                        _ => (),
                    }
                }
                let fails = k.plan.ready_err.filter(|n| k.sent.len() > *n);
                let due = fails.unwrap_or(k.sent.len());
                if !gone && !k.app_closed && k.det_rx.is_none() && i.created && k.plan.ready.open.get() && i.calls.len() < due {
                    bad.push(("message-lost", format!("{what}: {} messages arrived, {} were handed to its handler", k.sent.len(), i.calls.len())));
                }
                if let Some(n) = fails {
                    if !gone && !k.app_closed && k.plan.ready.open.get() && !matches!(k.det_rx, Some(Some(_))) {
                        bad.push(("unready-not-closed", format!("the handler of {what} failed after {n} calls but the link was not closed with an error")));
                    }
                } else if k.det_rx.is_some() && !gone && !k.app_closed && k.plan.create_err.is_none() {
                    bad.push(("closed-link", format!("{what} was closed although its handler is fine: {:?}", k.det_rx)));
                }
                // the next message
                if k.att
                    && i.created
                    && !gone
                    && !k.app_closed
                    && k.det_rx.is_none()
                    && fails.is_none()
                    && k.plan.ready.open.get()
                    && k.part.is_none()
                    && i.calls.len() == k.sent.len()
                    && k.sent.iter().all(|m| m.released)
                {
                    if (k.limit.wrapping_sub(k.count) as i32) <= 0 {
                        bad.push(("no-credit", format!("{what}: its {} messages were handled and it has no credit for another one", k.sent.len())));
                    }
                    if k.limit.wrapping_sub(k.idc) > k.plan.credit.unwrap_or(50) {
                        renewed += 1;
                    }
                }
                // outcomes
                for m in &k.sent {
                    let d = s.disp.get(&m.id).cloned().unwrap_or_default();
                    let called = i.calls.iter().any(|c| c.body == m.body);
                    if d.len() > 1 {
                        bad.push(("settled-twice", format!("{what}: delivery {} settled {} times: {d:?}", m.id, d.len())));
                    }
                    if m.settled {
                        if !d.is_empty() {
                            bad.push(("settled-presettled", format!("{what}: delivery {} was sent settled but got {d:?}", m.id)));
                        }
                        continue;
                    }
                    if let Some(st) = d.first() {
                        if !called {
                            if !k.app_closed && fails.is_none() && !gone {
                                bad.push(("settled-unhandled", format!("{what}: delivery {} was settled but its handler never saw it", m.id)));
                            }
                        } else if !m.released {
                            if !gone && !k.app_closed && fails.is_none() {
                                bad.push(("settled-early", format!("{what}: delivery {} was settled before its handler finished: {st:?}", m.id)));
                            }
                        } else if !outcome_is(st, &msgs[&m.no].out) && !(gone || k.app_closed || fails.is_some()) {
                            bad.push(("outcome", format!("{what}: delivery {} got {st:?}, its handler said {:?}", m.id, msgs[&m.no].out)));
                        }
                    } else if called && m.released && !gone && k.det_rx.is_none() {
                        bad.push(("not-settled", format!("{what}: the handler of delivery {} finished but it was not settled", m.id)));
                    }
                }
                // lifetime
                if i.shutdown > 1 {
                    bad.push(("shutdown-twice", format!("the handler of {what} was shut down {} times", i.shutdown)));
                }
                if i.shutdown > 0 && !gone && !k.app_closed && k.det_rx.is_none() {
                    bad.push(("shutdown-live", format!("the handler of {what} was shut down but the link is up")));
                }
                if gone && i.created && i.shutdown == 0 && k.det_rx.is_none() == s.ended && !k.app_closed && fails.is_none() {
                    bad.push(("not-shut-down", format!("{what} is gone but its handler was not shut down")));
                }
                if gone && i.created && i.shutdown > 0 && i.running == 0 && k.plan.ready.open.get() && !i.dropped && !k.app_closed {
                    bad.push(("handler-kept", format!("{what} is gone, its handler was shut down but is not released")));
                }
                released += usize::from(i.dropped);
            }
            // deliveries nobody sent
            for (si, s) in self.sess.iter().enumerate() {
                for id in s.disp.keys() {
                    if !self.links.iter().any(|k| k.sess == si && (k.sent.iter().any(|m| m.id == *id) || k.part.as_ref().is_some_and(|p| p.0.id == *id) || k.det_tx)) {
                        // aborted deliveries are never settled
                        bad.push(("settled-unknown", format!("a disposition names delivery {id} which is not a delivery of this session")));
                    }
                }
            }
        }
        for (k, w) in bad {
            self.v(k, w);
        }
        self.c("states checked at rest");
        for _ in 0..released {
            self.c("handlers released, at rest");
        }
        for _ in 0..renewed {
            self.c("links whose credit was renewed, at rest");
        }
    }
}

fn err_of(v: &V) -> Option<CondDesc> {
    let V::Desc(_, l) = v else { return None };
    let V::List(l) = &**l else { return None };
    let c = match l.first() {
        Some(V::Sym(s)) => s.clone(),
        _ => return None,
    };
    let d = match l.get(1) {
        Some(V::Str(s)) => Some(s.clone()),
        _ => None,
    };
    Some((c, d))
}

fn outcome_is(st: &V, o: &Out) -> bool {
    let V::Desc(c, l) = st else { return false };
    let V::Ulong(c) = **c else { return false };
    let l = match &**l {
        V::List(l) => l.clone(),
        _ => return false,
    };
    let e = l.first().and_then(err_of);
    match o {
        Out::Accept => c == 0x24,
        Out::Reject => c == 0x25 && e.is_none(),
        Out::Error(x) | Out::Fail(x) | Out::Hard(x) => c == 0x25 && e.as_ref() == Some(x),
    }
}

fn start(env: &Rc<Env>, io: IoTest) -> Slot<Result<(), String>> {
    let cfg = app::shared(&SutCfg { server: true, ..SutCfg::default() });
    let io: IoBoxed = Io::new(io, cfg.clone()).into();
    let env = env.clone();
    Slot::run(async move {
        let mut r = server::Router::<()>::builder();
        for (i, p) in PATS.iter().enumerate() {
            let f = Fact { res: i, env: env.clone() };
            r = if p.len() == 1 { r.service(p[0].to_string(), f) } else { r.service(p.iter().map(ToString::to_string).collect::<Vec<_>>(), f) };
        }
        let srv = server::Server::build(move |h: server::Handshake| async move {
            match h {
                server::Handshake::Amqp(c) => match c.open().await {
                    Ok(c) => Ok(c.ack(())),
                    Err(_) => Err(LinkError::force_detach()),
                },
                server::Handshake::Sasl(_) => Err(LinkError::force_detach()),
            }
        })
        .finish(r.build());
        let srv = <_ as ServiceFactory<IoBoxed, ntex::SharedCfg>>::pipeline(&srv, cfg).await.map_err(|_| "init".to_string())?;
        srv.call(io).await.map_err(|e| format!("{e:?}"))
    })
}

async fn history(mut rng: Rng) -> Run {
    let (peer, io) = IoTest::create();
    let env: Rc<Env> = Rc::default();
    let ended = start(&env, io);
    let style = if rng.chance(50) { Style::random(Rng::new(rng.u64())) } else { Style::smallest() };
    let mut w = Wire::new(peer, style);
    w.mon.off = true;
    let chaos_names = rng.chance(40);
    let mut r = Run {
        w,
        rng,
        env,
        sess: vec![],
        links: vec![],
        next_no: 0,
        next_msg: 0,
        bad: vec![],
        counts: BTreeMap::new(),
        ended,
        chaos_names,
    };
    r.w.queue_raw(b"AMQP\x00\x01\x00\x00".to_vec());
    r.send(0, desc(0x10, V::List(vec![st("peer"), V::Null, V::Uint(65536)])), &[]);
    r.rest().await;
    r.begin().await;
    let n = r.rng.range(15, 70);
    for _ in 0..n {
        if !r.bad.is_empty() || r.ended.done() {
            break;
        }
        match r.rng.below(100) {
            0..=3 => r.begin().await,
            4..=24 => r.attach(),
            25..=64 => r.transfer(),
            65..=86 => r.release(),
            87..=92 => r.detach(),
            93 | 94 => r.end(),
            95 | 96 => r.app_close(),
            _ => (),
        }
        match r.rng.below(10) {
            0..=4 => {
                r.rest().await;
                // its own Detach may have been answered
                r.rest().await;
                r.check();
            }
            5..=7 => r.go().await,
            _ => (),
        }
    }
    {
        let open: Vec<_> = r.links.iter().flat_map(|k| [k.plan.create.clone(), k.plan.ready.clone()]).collect();
        for g in open {
            g.release();
        }
        for k in &mut r.links {
            for m in &mut k.sent {
                m.released = true;
            }
        }
        let open: Vec<_> = r.env.msgs.borrow().values().map(|m| m.gate.clone()).collect();
        for g in open {
            g.release();
        }
        for _ in 0..3 {
            r.rest().await;
        }
    }
    if r.bad.is_empty() {
        if r.ended.done() {
            r.v("closed", "the server ended the connection of a conforming peer");
        }
        r.check();
    }
    r.w.cut(false);
    r.w.settle().await;
    if !r.ended.done() {
        r.v("never-ends", "the transport is gone but the server still runs");
    }
    r
}

pub fn r01(cx: &mut Cx) {
    let n = cx.n(9000, 300_000);
    cx.cases("router", n, |cx, rng, _| {
        let rng = Rng::new(rng.u64());
        let (bad, counts, log) = block_on(async move {
            let mut r = history(rng).await;
            (std::mem::take(&mut r.bad), std::mem::take(&mut r.counts), std::mem::take(&mut r.w.mon.log))
        });
        for (k, w) in bad {
            cx.r.violation("R01", &k, w);
        }
        if let Some(p) = report::take_panic() {
            cx.r.violation("R01", &format!("panic-{}", report::panic_site(&p)), p);
        }
        for (k, n) in counts {
            cx.r.count(k, n);
        }
        cx.r.nontrivial(&log.iter().filter(|l| l.starts_with("< ") || l.starts_with("> ")).collect::<Vec<_>>());
        cx.r.sample(|| log.iter().skip(4).take(40).cloned().collect::<Vec<_>>().join("\n"));
        if std::env::var_os("AMQPMON_LOG").is_some() {
            eprintln!("{}", log.join("\n"));
        }
    });
}
