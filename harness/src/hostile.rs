//! A hostile peer (and a careless application) on top of whatever state a conforming history reached.
//! Nothing is asked of the endpoint here but that it stays alive, bounded and responsive.
use super::*;
use crate::net::Slot;
use crate::progress;
use crate::report;
use crate::schema;
use crate::wire::{build_frame, encode, parse_frame};

#[derive(Default)]
struct Pool {
    ch: Vec<u16>,
    handle: Vec<u32>,
    num: Vec<u32>,
    name: Vec<String>,
    used: HashSet<u16>,
    /// what the peer attached
    live: Vec<(u16, u32)>,
    /// sessions and links that are up: channel; channel, handle, whether the peer receives
    mch: Vec<u16>,
    mlk: Vec<(u16, u32, bool, usize)>,
    sent: HashMap<u64, u32>,
}

pub struct Hostile {
    pool: Pool,
    ops: Vec<(String, Slot<()>)>,
    sess: Vec<Session>,
    snd: Vec<SenderLink>,
    rcv: Vec<ReceiverLink>,
    new_s: Vec<Slot<Result<Session, E>>>,
    new_snd: Vec<Slot<Result<SenderLink, E>>>,
    new_rcv: Vec<Slot<Result<ReceiverLink, E>>>,
    new_d: Vec<Slot<Result<Delivery, E>>>,
    dels: Vec<Rc<RefCell<Delivery>>>,
    /// bytes of an unfinished frame may be waiting
    dangling: bool,
    /// 0: odd but mostly plausible, 2: anything
    level: usize,
    app_ended: bool,
    settled: usize,
}

/// Bounds on what one burst of frames may cost
const CPU_S: f64 = 3.0;
const MEM: usize = 96 << 20;

const HCODES: [u64; 25] = [
    0x11, 0x11, 0x12, 0x12, 0x12, 0x12, 0x13, 0x13, 0x13, 0x13, 0x14, 0x14, 0x14, 0x14, 0x14, 0x14, 0x15, 0x15, 0x15, 0x15, 0x16, 0x16, 0x16, 0x17,
    0x10,
];

impl World {
    /// A (channel, handle) pair in use
    fn hlive(&mut self, h: &Hostile) -> Option<(u16, u32)> {
        (!h.pool.live.is_empty()).then(|| *self.rng.pick(&h.pool.live))
    }
    fn hnum(&mut self, h: &Hostile) -> u32 {
        match self.rng.below(10) {
            0..=5 if !h.pool.num.is_empty() => {
                let n = *self.rng.pick(&h.pool.num);
                n.wrapping_add(self.rng.below(7) as u32).wrapping_sub(3)
            }
            6 => self.rng.below(6) as u32,
            _ => self.rng.edge(32) as u32,
        }
    }
    fn hopt(&mut self, h: &Hostile, pct: usize) -> V {
        if self.rng.chance(pct) { V::Uint(self.hnum(h)) } else { V::Null }
    }
    fn hbool(&mut self) -> V {
        match self.rng.below(3) {
            0 => V::Null,
            n => V::Bool(n == 1),
        }
    }
    fn hhandle(&mut self, h: &Hostile) -> V {
        V::Uint(match self.rng.below(10) {
            0..=6 if !h.pool.handle.is_empty() => *self.rng.pick(&h.pool.handle),
            7 => self.rng.below(6) as u32,
            8 => *self.rng.pick(&[255, 256, 65535, u32::MAX, u32::MAX - 1]),
            _ => self.rng.below(40) as u32,
        })
    }
    fn hchan(&mut self, h: &Hostile) -> u16 {
        match self.rng.below([15, 17, 20][h.level]) {
            0..=14 if !h.pool.ch.is_empty() => *self.rng.pick(&h.pool.ch),
            15..=17 => self.rng.below(8) as u16,
            18 => *self.rng.pick(&[1023, 1024, 1025, 65535]),
            _ => self.rng.below(2000) as u16,
        }
    }
    fn hstate(&mut self) -> V {
        match self.rng.below(6) {
            0 => V::Null,
            n => {
                let c = [0x23, 0x24, 0x25, 0x26, 0x27][n - 1];
                schema::gtype(&mut self.rng, c)
            }
        }
    }
    fn herr(&mut self) -> V {
        if self.rng.chance(50) { V::Null } else { schema::gtype(&mut self.rng, 0x1d) }
    }
    /// A performative that looks like one this connection could carry
    fn hperf(&mut self, h: &mut Hostile) -> (u64, V, Vec<u8>) {
        let code = *self.rng.pick(if h.level == 2 { &HCODES } else { &HCODES[..HCODES.len() - 1] });
        let mut pay = vec![];
        let mut l = match code {
            0x11 => {
                let r = if self.rng.chance(40) { V::Ushort(self.hchan(h)) } else { V::Null };
                let mut l = vec![r, V::Uint(self.hnum(h)), V::Uint(self.hnum(h)), V::Uint(self.hnum(h))];
                if self.rng.chance(20) {
                    l.push(V::Uint(self.hnum(h)));
                }
                l
            }
            0x12 => {
                let name = if !h.pool.name.is_empty() && self.rng.chance(60) { self.rng.pick(&h.pool.name).clone() } else { self.name() };
                h.pool.name.push(name.clone());
                let hd = self.hhandle(h);
                if let V::Uint(n) = hd {
                    h.pool.handle.push(n);
                }
                let addr = |w: &mut World| if w.rng.chance(80) { st(&name) } else { V::Null };
                let src = match self.rng.below(8) {
                    0 => V::Null,
                    1 => schema::gtype(&mut self.rng, 0x28),
                    _ => desc(0x28, V::List(vec![addr(self)])),
                };
                let tgt = match self.rng.below(8) {
                    0 => V::Null,
                    1 => schema::gtype(&mut self.rng, 0x29),
                    _ => desc(0x29, V::List(vec![addr(self)])),
                };
                let idc = if self.rng.chance(70) { V::Uint(self.hnum(h)) } else { V::Null };
                let role = V::Bool(self.rng.chance(50));
                let mms = if self.rng.chance(40) { V::Ulong(self.rng.edge(64)) } else { V::Null };
                vec![st(&name), hd, role, V::Null, V::Null, src, tgt, V::Null, self.hbool(), idc, mms]
            }
            0x13 => {
                let hd = if self.rng.chance(70) { self.hhandle(h) } else { V::Null };
                vec![
                    self.hopt(h, 70),
                    V::Uint(self.hnum(h)),
                    V::Uint(self.hnum(h)),
                    V::Uint(self.hnum(h)),
                    hd,
                    self.hopt(h, 60),
                    self.hopt(h, 70),
                    self.hopt(h, 20),
                    self.hbool(),
                    self.hbool(),
                ]
            }
            0x14 => {
                let n = match self.rng.below(6) {
                    0 => 0,
                    1 => self.rng.below(5000),
                    _ => self.rng.below(60),
                };
                pay = self.rng.bytes(n);
                let tag = if self.rng.chance(60) {
                    let n = *self.rng.pick(&[0, 1, 4, 32, 33, 300]);
                    V::Bin(self.rng.bytes(n))
                } else {
                    V::Null
                };
                let st = if self.rng.chance(15) { self.hstate() } else { V::Null };
                vec![
                    self.hhandle(h),
                    self.hopt(h, 60),
                    tag,
                    self.hopt(h, 30),
                    self.hbool(),
                    self.hbool(),
                    V::Null,
                    st,
                    self.hbool(),
                    if self.rng.chance(15) { V::Bool(true) } else { V::Null },
                ]
            }
            0x15 => {
                let first = self.hnum(h);
                let last = match self.rng.below(6) {
                    0 => V::Null,
                    1 => V::Uint(first.wrapping_add(self.rng.below(20) as u32)),
                    2 => V::Uint(u32::MAX),
                    3 => V::Uint(first.wrapping_sub(1)),
                    _ => V::Uint(self.hnum(h)),
                };
                vec![V::Bool(self.rng.chance(50)), V::Uint(first), last, self.hbool(), self.hstate()]
            }
            0x16 => vec![self.hhandle(h), self.hbool(), self.herr()],
            0x17 => vec![self.herr()],
            _ => vec![st("again"), V::Null, V::Uint(self.hnum(h))],
        };
        // a field of the right type with any value, or of any type
        if self.rng.chance([2, 12, 25][h.level]) && !l.is_empty() {
            let i = self.rng.below(l.len());
            let t = schema::ty(code).unwrap();
            l[i] = match self.rng.below(3) {
                0 => V::Null,
                1 => schema::gfield(&mut self.rng, t.f[i].t),
                _ => schema::gany(&mut self.rng, 2),
            };
        }
        if self.rng.chance([1, 4, 10][h.level]) {
            l.truncate(self.rng.below(l.len() + 1));
        }
        let v = if self.rng.chance([1, 4, 8][h.level]) { schema::gtype(&mut self.rng, code) } else { desc(code, V::List(l)) };
        (code, v, pay)
    }

    /// A channel without a session that the peer began
    fn hfree(&mut self, h: &Hostile) -> Option<u16> {
        (0..40).map(|_| self.free_channel().wrapping_add(self.rng.below(3) as u16)).find(|c| *c <= 1024 && !h.pool.used.contains(c))
    }
    /// A frame that is unusual but for the most part no reason to give up the connection
    fn hmild(&mut self, h: &mut Hostile) -> Option<(u16, u64, V, Vec<u8>)> {
        let ch = if h.pool.mch.is_empty() { None } else { Some(*self.rng.pick(&h.pool.mch)) };
        let lk = if h.pool.mlk.is_empty() { None } else { Some(*self.rng.pick(&h.pool.mlk)) };
        let n = if ch.is_none() { 0 } else { self.rng.below(100) };
        Some(match n {
            0..=4 => {
                let c = self.hfree(h)?;
                h.pool.mch.push(c);
                let mut l = vec![V::Null, V::Uint(self.hnum(h)), V::Uint(self.hnum(h)), V::Uint(self.hnum(h))];
                if self.rng.chance(20) {
                    l.push(V::Uint(self.rng.range(100, 5000) as u32));
                }
                (c, 0x11, desc(0x11, V::List(l)), vec![])
            }
            5..=16 => {
                let c = ch?;
                let hd = (0..40).map(|_| self.rng.below(60) as u32).find(|n| !h.pool.live.contains(&(c, *n)))?;
                let name = self.name();
                let role = self.rng.chance(50);
                h.pool.mlk.push((c, hd, role, h.settled));
                let addr = if self.rng.chance(90) { st(&name) } else { V::Null };
                let src = if self.rng.chance(90) { desc(0x28, V::List(vec![addr.clone()])) } else { schema::gtype(&mut self.rng, 0x28) };
                let tgt = if self.rng.chance(90) { desc(0x29, V::List(vec![addr])) } else { schema::gtype(&mut self.rng, 0x29) };
                let mms = if self.rng.chance(40) { V::Ulong(self.rng.edge(64)) } else { V::Null };
                let l = vec![st(&name), V::Uint(hd), V::Bool(role), V::Null, V::Null, src, tgt, V::Null, self.hbool(), V::Uint(self.hnum(h)), mms];
                (c, 0x12, desc(0x12, V::List(l)), vec![])
            }
            17..=48 => {
                let (c, hd) = match lk {
                    Some((c, hd, ..)) if self.rng.chance(75) => (c, V::Uint(hd)),
                    _ => (ch?, V::Null),
                };
                let l = vec![
                    self.hopt(h, 70),
                    V::Uint(self.hnum(h)),
                    V::Uint(self.hnum(h)),
                    V::Uint(self.hnum(h)),
                    hd,
                    self.hopt(h, 60),
                    self.hopt(h, 70),
                    self.hopt(h, 20),
                    self.hbool(),
                    self.hbool(),
                ];
                (c, 0x13, desc(0x13, V::List(l)), vec![])
            }
            49..=58 => {
                // at most one delivery per link, and only where the peer sends
                let i = h.pool.mlk.iter().position(|l| !l.2 && l.3 < h.settled && self.cfg.server)?;
                let (c, hd, ..) = h.pool.mlk.remove(i);
                let k = self.rng.below(300);
                let tag = *self.rng.pick(&[0usize, 1, 4, 32, 33, 300]);
                let l = vec![
                    V::Uint(hd),
                    V::Uint(self.hnum(h)),
                    V::Bin(self.rng.bytes(tag)),
                    self.hopt(h, 30),
                    self.hbool(),
                    self.hbool(),
                    V::Null,
                    V::Null,
                    self.hbool(),
                ];
                (c, 0x14, desc(0x14, V::List(l)), self.rng.bytes(k))
            }
            59..=88 => {
                let first = self.hnum(h);
                let last = match self.rng.below(6) {
                    0 => V::Null,
                    1 => V::Uint(first.wrapping_add(self.rng.below(20) as u32)),
                    2 => V::Uint(u32::MAX),
                    3 => V::Uint(first.wrapping_sub(1)),
                    _ => V::Uint(self.hnum(h)),
                };
                let l = vec![V::Bool(self.rng.chance(70)), V::Uint(first), last, self.hbool(), self.hstate()];
                (ch?, 0x15, desc(0x15, V::List(l)), vec![])
            }
            89..=95 => {
                let i = (!h.pool.mlk.is_empty()).then(|| self.rng.below(h.pool.mlk.len()))?;
                let (c, hd, ..) = h.pool.mlk.remove(i);
                (c, 0x16, desc(0x16, V::List(vec![V::Uint(hd), self.hbool(), self.herr()])), vec![])
            }
            _ => {
                let c = ch?;
                h.pool.mch.retain(|x| *x != c);
                h.pool.mlk.retain(|x| x.0 != c);
                (c, 0x17, desc(0x17, V::List(vec![self.herr()])), vec![])
            }
        })
    }

    /// Bytes of a hostile frame
    fn hframe(&mut self, h: &mut Hostile) -> Vec<u8> {
        let mild = if h.level == 0 && self.rng.chance(99) { (0..20).find_map(|_| self.hmild(h)) } else { None };
        let kind = if mild.is_some() || !(h.level == 2 || self.rng.chance([0, 4][h.level])) { 0 } else { self.rng.below(100) };
        let mut style = std::mem::replace(&mut self.w.style, Style::smallest());
        let out = if kind < 84 {
            let picked = mild.is_some();
            let (mc, code, v, pay) = mild.unwrap_or_else(|| {
                let (code, v, pay) = self.hperf(h);
                (0, code, v, pay)
            });
            let (mut v, mut pair) = (v, None);
            if picked {
                pair = Some(mc);
            } else if matches!(code, 0x13 | 0x14 | 0x16)
                && self.rng.chance([85, 60, 40][h.level])
                && let Some((c, n)) = self.hlive(h)
                && let V::Desc(_, l) = &mut v
                && let V::List(l) = &mut **l
            {
                let i = if code == 0x13 { 4 } else { 0 };
                if l.len() > i && (code != 0x13 || !l[i].is_null()) {
                    l[i] = V::Uint(n);
                }
                pair = Some(c);
            }
            let ch = if let Some(c) = pair {
                c
            } else if code == 0x11 && self.rng.chance([95, 80, 60][h.level]) {
                self.free_channel()
            } else {
                self.hchan(h)
            };
            if code == 0x11 {
                h.pool.ch.push(ch);
            }
            if code == 0x12
                && let V::Desc(_, l) = &v
                && let V::List(l) = &**l
                && let Some(V::Uint(n)) = l.get(1)
            {
                h.pool.live.push((ch, *n));
            }
            h.pool.used.insert(ch);
            *h.pool.sent.entry(code).or_default() += 1;
            self.w.mon.c(&format!("hostile {}", mon::kind(code)));
            build_frame(0, ch, Some(&v), &pay, &mut style, &[])
        } else if kind < 87 {
            build_frame(0, self.hchan(h), None, &[], &mut style, &[])
        } else {
            let (code, v, pay) = self.hperf(h);
            let ch = self.hchan(h);
            h.pool.used.insert(ch);
            // what it becomes is anyone's guess
            for c in 0x10..=0x18 {
                *h.pool.sent.entry(c).or_default() += 1;
            }
            h.app_ended = true;
            let mut b = build_frame(0, ch, Some(&v), &pay, &mut style, &[]);
            match kind {
                87 | 88 => {
                    let n = b.len();
                    let i = self.rng.range(4, n - 1);
                    b[i] ^= 1 << self.rng.below(8);
                }
                89 | 90 => {
                    for _ in 0..self.rng.range(1, 6) {
                        let i = self.rng.range(8, b.len() - 1);
                        b[i] = self.rng.u64() as u8;
                    }
                }
                91 => {
                    let n = self.rng.range(8, b.len() - 1);
                    b.truncate(n);
                    let n = b.len() as u32;
                    b[..4].copy_from_slice(&n.to_be_bytes());
                }
                92 => {
                    let k = self.rng.range(1, 30);
                    let x = self.rng.bytes(k);
                    b.extend(x);
                    let n = b.len() as u32;
                    b[..4].copy_from_slice(&n.to_be_bytes());
                }
                93 => b[4] = self.rng.u64() as u8,
                94 => b[5] = self.rng.range(1, 255) as u8,
                95 => {
                    let s = schema::gtype(&mut self.rng, 0x40 + code % 5);
                    b = build_frame(1, 0, Some(&s), &[], &mut style, &[]);
                }
                96 => {
                    // nesting
                    let d = self.rng.range(1, 3000);
                    let mut body = vec![];
                    for _ in 0..d {
                        body.extend([0, 0x53, 0x28]);
                    }
                    b = build_frame(0, ch, None, &body, &mut style, &[]);
                }
                97 => {
                    let n = self.rng.below(8) as u32;
                    b[..4].copy_from_slice(&n.to_be_bytes());
                }
                98 => {
                    let n = *self.rng.pick(&[b.len() as u32 + 1, 1 << 16, 1 << 30, u32::MAX]);
                    b[..4].copy_from_slice(&n.to_be_bytes());
                    h.dangling = true;
                }
                _ => {
                    b = encode(&v, &mut style);
                    h.dangling = true;
                }
            }
            self.w.mon.c("hostile bytes");
            b
        };
        self.w.style = style;
        let shown = if out.len() >= 8 && u32::from_be_bytes(out[..4].try_into().unwrap()) as usize == out.len() && out.len() < 20_000 {
            parse_frame(&out).map_or_else(|_| format!("{:02x?}", &out[..out.len().min(60)]), |f| mon::show(&f).chars().take(300).collect())
        } else {
            format!("{:02x?}", &out[..out.len().min(60)])
        };
        self.w.mon.log.push(format!("> {shown}"));
        out
    }

    /// Numbers and names the endpoint used
    fn hlearn(&mut self, h: &mut Hostile) {
        while let Some(f) = self.w.got.pop_front() {
            let Ok(Some((code, l))) = f.parts() else { continue };
            let l = F(l);
            h.pool.ch.push(f.channel);
            match code {
                0x11 => h.pool.num.extend(l.u32(1)),
                0x12 => {
                    h.pool.handle.extend(l.u32(1));
                    h.pool.name.extend(l.s(0).map(ToString::to_string));
                }
                0x14 => h.pool.num.extend(l.u32(1)),
                0x13 => h.pool.num.extend(l.u32(0)),
                _ => {}
            }
            if code == 0x17 && !h.app_ended && *h.pool.sent.get(&0x17).unwrap_or(&0) == 0 && l.get(0).is_none_or(V::is_null) {
                self.w.mon.v("S10", "end-without-error", "the endpoint ended a session on its own and gave no reason");
            }
        }
        if h.pool.num.len() > 60 {
            h.pool.num.drain(..30);
        }
        macro_rules! take {
            ($from:ident, $to:ident) => {
                h.$from.retain(|s| match s.take() {
                    Some(Ok(x)) => {
                        h.$to.push(x);
                        false
                    }
                    Some(Err(_)) => false,
                    None => true,
                })
            };
        }
        take!(new_s, sess);
        take!(new_snd, snd);
        take!(new_rcv, rcv);
        h.new_d.retain(|s| match s.take() {
            Some(Ok(x)) => {
                h.dels.push(Rc::new(RefCell::new(x)));
                false
            }
            Some(Err(_)) => false,
            None => true,
        });
        for (_, l) in self.app.snd.borrow_mut().drain(..) {
            h.snd.push(l);
        }
        for (_, l, ib) in self.app.rcv.borrow_mut().drain(..) {
            h.rcv.push(l);
            drop(ib);
        }
    }

    fn hop<T: 'static>(&mut self, h: &mut Hostile, what: &str, f: impl Future<Output = T> + 'static) {
        self.w.mon.note(format!("app: {what}"));
        let s = Slot::run(async move {
            drop(f.await);
        });
        h.ops.push((what.to_string(), s));
    }

    /// One careless application step
    fn happ(&mut self, h: &mut Hostile) {
        let Some(conn) = self.app.conn.borrow().clone() else { return };
        match self.rng.below(14) {
            0 => {
                self.w.mon.note("app: open_session");
                h.new_s.push(Slot::run(async move { conn.open_session().await }));
            }
            1 | 2 if !h.sess.is_empty() => {
                let s = self.rng.pick(&h.sess).clone();
                let n = if self.rng.chance(30) && !h.pool.name.is_empty() { self.rng.pick(&h.pool.name).clone() } else { self.name() };
                self.w.mon.note(format!("app: attach {n}"));
                if self.rng.chance(50) {
                    h.new_snd.push(Slot::run(async move { s.build_sender_link(n.clone(), n).attach().await }));
                } else {
                    h.new_rcv.push(Slot::run(async move { s.build_receiver_link(n.clone(), n).attach().await }));
                }
            }
            3..=5 if !h.snd.is_empty() => {
                let l = self.rng.pick(&h.snd).clone();
                let n = if self.rng.chance(20) { self.rng.below(20_000) } else { self.rng.below(100) };
                let b = Bytes::from(self.rng.bytes(n));
                let settled = self.rng.chance(30);
                self.w.mon.note(format!("app: send {n} bytes"));
                h.new_d.push(Slot::run(async move {
                    let t = l.transfer(b);
                    if settled { t.settled().send().await } else { t.send().await }
                }));
            }
            6 if !h.snd.is_empty() => {
                let l = self.rng.pick(&h.snd).clone();
                match self.rng.below(4) {
                    0 => self.hop(h, "ready", async move { l.ready().await }),
                    1 => self.hop(h, "on_close", async move { l.on_close().await }),
                    2 => self.hop(h, "close sender", async move { l.close().await }),
                    _ => {
                        let _ = (l.credit(), l.max_message_size(), l.is_closed());
                    }
                }
            }
            7 if !h.dels.is_empty() => {
                let i = self.rng.below(h.dels.len());
                let d = h.dels[i].clone();
                if d.try_borrow_mut().is_err() {
                    return;
                }
                match self.rng.below(3) {
                    0 => {
                        h.dels.swap_remove(i);
                    }
                    1 => self.hop(h, "wait", async move {
                        #[allow(clippy::await_holding_refcell_ref)]
                        let _ = d.borrow().wait().await;
                    }),
                    _ => {
                        let v = self.hstate();
                        if let Some(s) = conv::state(&v) {
                            d.borrow_mut().settle(s);
                        }
                    }
                }
            }
            8 | 9 => {
                // settle or drop what arrived
                let ibs = self.app.inbox.borrow().clone();
                for ib in ibs {
                    let mut ib = ib.borrow_mut();
                    for m in &mut ib.msgs {
                        if self.rng.chance(50)
                            && let Some(mut d) = m.d.take()
                        {
                            match self.rng.below(3) {
                                0 => drop(d),
                                1 => {
                                    d.settle(ntex_amqp::codec::protocol::DeliveryState::Accepted(Default::default()));
                                }
                                _ => {
                                    let v = self.hstate();
                                    if let Some(s) = conv::state(&v) {
                                        d.settle(s);
                                    }
                                }
                            }
                        }
                    }
                }
            }
            10 if !h.rcv.is_empty() => {
                let l = self.rng.pick(&h.rcv).clone();
                if self.rng.chance(70) {
                    let n = *self.rng.pick(&[0, 1, 10, 1000, u32::MAX]);
                    self.w.mon.note(format!("app: set_link_credit {n}"));
                    l.set_link_credit(n);
                } else {
                    self.hop(h, "close receiver", async move { l.close().await });
                }
            }
            11 if !h.sess.is_empty() && self.rng.chance(30) => {
                let s = self.rng.pick(&h.sess).clone();
                h.app_ended = true;
                self.hop(h, "end session", async move { s.clone().end().await });
            }
            12 if self.rng.chance(10) => {
                // stop holding on to things
                match self.rng.below(4) {
                    0 => h.snd.clear(),
                    1 => h.rcv.clear(),
                    2 => h.sess.clear(),
                    _ => h.dels.clear(),
                }
            }
            _ => {}
        }
    }

    fn hdead(&self) -> bool {
        self.ended.done() || self.w.mon.close_tx
    }

    /// Runs the endpoint until it is at rest and looks at what that cost
    async fn hsettle(&mut self, what: &str) {
        let (c, m) = (progress::cpu(), report::peak_reset());
        self.w.settle().await;
        let (c, m) = (progress::cpu() - c, report::peak_since(m));
        if c > CPU_S {
            self.w.mon.v("S10", "work-unbounded", format!("{what} cost {c:.1} s of CPU time"));
        }
        if m > MEM {
            self.w.mon.v("S10", "memory-unbounded", format!("{what} made the endpoint hold {m} more bytes"));
        }
    }

    pub async fn hostile(&mut self) {
        self.release();
        self.w.settle().await;
        if self.conn_dead() {
            return;
        }
        self.sync();
        self.w.mon.off = true;
        self.w.mon.note("hostile from here on");
        let mut h = Hostile {
            pool: Pool::default(),
            ops: vec![],
            sess: self.sess.iter().map(|s| s.s.clone()).collect(),
            snd: self.links.iter().filter_map(|l| l.s.clone()).collect(),
            rcv: self.links.iter().filter_map(|l| l.r.clone()).collect(),
            new_s: vec![],
            new_snd: vec![],
            new_rcv: vec![],
            new_d: vec![],
            dels: self.links.iter().flat_map(|l| l.sends.iter().filter_map(|s| s.delivery.clone())).collect(),
            dangling: false,
            settled: 0,
            level: self.rng.below(3),
            app_ended: !self.sess.iter().all(|s| s.end.is_empty()),
        };
        for s in &self.w.mon.sess {
            h.pool.used.extend(s.remote);
            h.pool.ch.extend(s.remote);
            if s.end_rx {
                // its End may still be on the way
                h.pool.sent.insert(0x17, 1);
            }
            if s.live() {
                h.pool.mch.extend(s.remote);
            }
            for l in &s.links {
                if s.live()
                    && l.live()
                    && let (Some(c), Some(n)) = (s.remote, l.rh)
                {
                    h.pool.mlk.push((c, n, l.sender, usize::MAX));
                }
                h.pool.handle.extend(l.rh);
                if let (Some(c), Some(n)) = (s.remote, l.rh) {
                    h.pool.live.push((c, n));
                }
                h.pool.handle.push(l.lh);
                h.pool.name.push(l.name.clone());
            }
            h.pool.num.extend(s.next_delivery);
            h.pool.num.extend(s.rx.iter().map(|d| d.id).take(8));
            h.pool.num.extend(s.tx.iter().map(|d| d.id).take(8));
        }
        self.w.got.clear();
        if self.rng.chance(30) {
            let c = *self.rng.pick(&[5, 20, 60]);
            self.app.chaos(Rng::new(self.rng.u64()), c);
        }
        let mut rng = Rng::new(self.rng.u64());
        let n = if h.level == 0 { self.rng.range(5, 30) } else { self.rng.range(5, 60) };
        for _ in 0..n {
            if self.hdead() || h.dangling {
                break;
            }
            if self.rng.chance(35) {
                self.happ(&mut h);
                continue;
            }
            if self.rng.chance(4) {
                let g = self.app.gate.get();
                self.w.mon.note(if g { "services released" } else { "services hold" });
                self.app.hold(!g);
            }
            for _ in 0..*self.rng.pick(&[1, 1, 1, 2, 6, 20]) {
                let b = self.hframe(&mut h);
                self.w.queue_raw(b);
                if h.dangling {
                    break;
                }
            }
            self.w.flush(&mut rng).await;
            if self.rng.chance(70) {
                self.hsettle("a burst of frames").await;
                h.settled += 1;
            }
            self.hlearn(&mut h);
        }
        self.app.hold(false);
        self.app.chaos_off();
        self.hsettle("a burst of frames").await;
        self.hlearn(&mut h);
        if !self.hdead() && !h.dangling {
            self.hprobe(&mut h).await;
        } else if self.hdead() {
            self.w.mon.c("hostile histories the endpoint closed");
        }
        let told = self.app.ctl.borrow().iter().any(|c| matches!(c.kind, "ProtocolError" | "Disconnected"));
        if self.hdead() && !told && !self.ended.with(|r| matches!(r, Some(Err(_)))) {
            self.w.mon.v("S10", "ended-without-error", "the endpoint closed the connection on its own and reports no error to its application");
        }
        // whoever still waits must be told
        for _ in 0..4 {
            self.happ(&mut h);
        }
        if self.w.mon.close_tx && self.rng.chance(70) {
            let b = build_frame(0, 0, Some(&desc(0x18, V::List(vec![]))), &[], &mut Style::smallest(), &[]);
            self.w.queue_raw(b);
            self.w.flush(&mut rng).await;
            self.hsettle("Close").await;
            if !self.ended.done() {
                self.w.mon.v("S10", "not-closed", "both sides have sent Close but the endpoint keeps the connection");
            }
        }
        let err = self.rng.chance(40);
        self.cut = true;
        self.w.cut(err);
        self.hsettle("the end of the transport").await;
        if !self.ended.done() {
            self.w.mon.v("S10", "never-ends", "the transport is gone but the endpoint still runs");
        }
        self.hpending(&h);
    }

    /// The endpoint still serves a peer that behaves
    async fn hprobe(&mut self, h: &mut Hostile) {
        self.w.mon.note("probe");
        let mut rng = Rng::new(self.rng.u64());
        let mut ch = 700;
        while h.pool.used.contains(&ch) {
            ch += 1;
        }
        self.w.got.clear();
        let send = |w: &mut World, v: V, pay: &[u8]| {
            let b = build_frame(0, ch, Some(&v), pay, &mut Style::smallest(), &[]);
            w.w.mon.log.push(format!("> {}", mon::show(&parse_frame(&b).unwrap())));
            w.w.queue_raw(b);
        };
        send(self, desc(0x11, V::List(vec![V::Null, V::Uint(0), V::Uint(1000), V::Uint(1000)])), &[]);
        self.w.flush(&mut rng).await;
        self.hsettle("a Begin").await;
        let Some(lc) = self.w.got.iter().find_map(|f| match f.parts() {
            Ok(Some((0x11, l))) if l[0] == V::Ushort(ch) => Some(f.channel),
            _ => None,
        }) else {
            if !self.hdead() {
                self.w.mon.v("S10", "unresponsive-begin", "a Begin on an unused channel is not answered and the connection is not closed");
            }
            return;
        };
        self.w.got.clear();
        let n = self.app.inbox.borrow().len();
        let src = desc(0x28, V::List(vec![st("probe")]));
        let tgt = desc(0x29, V::List(vec![st("probe")]));
        send(self, desc(0x12, V::List(vec![st("probe"), V::Uint(3), V::Bool(false), V::Null, V::Null, src, tgt, V::Null, V::Null, V::Uint(0)])), &[]);
        self.w.flush(&mut rng).await;
        self.hsettle("an Attach").await;
        let mut lh = None;
        for f in &self.w.got {
            if f.channel == lc
                && let Ok(Some((0x12, l))) = f.parts()
                && l[0] == st("probe")
            {
                lh = Some(l[1].clone());
            }
        }
        if lh.is_none() {
            if !self.hdead() {
                self.w.mon.v("S10", "unresponsive-attach", "an Attach on a fresh session is not answered and the connection is not closed");
            }
            return;
        }
        if self.cfg.server {
            send(self, desc(0x14, V::List(vec![V::Uint(3), V::Uint(0), V::Bin(vec![1])])), b"probe");
            self.w.flush(&mut rng).await;
            self.hsettle("a Transfer").await;
            let seen = self.app.inbox.borrow().iter().skip(n).any(|i| i.borrow().msgs.iter().any(|m| m.body == b"probe"));
            if !seen && !self.hdead() {
                self.w.mon.v("S10", "unresponsive-transfer", "a Transfer on a fresh link with credit is not delivered");
                return;
            }
        }
        // and its application
        let conn = self.app.conn.borrow().clone();
        if let Some(c) = conn {
            self.w.got.clear();
            let s = Slot::run(async move { c.open_session().await });
            self.hsettle("open_session").await;
            let begun = self.w.got.iter().any(|f| matches!(f.parts(), Ok(Some((0x11, _)))));
            if !begun && !s.done() && !self.hdead() {
                self.w.mon.v("S10", "unresponsive-app", "open_session neither sends a Begin nor fails");
            }
            h.new_s.push(s);
        }
        self.w.mon.c("hostile histories survived and probed");
    }

    fn hpending(&mut self, h: &Hostile) {
        let mut stuck: Vec<String> = vec![];
        stuck.extend(h.ops.iter().filter(|o| !o.1.done()).map(|o| o.0.clone()));
        if h.new_s.iter().any(|s| !s.done()) || self.opening.iter().any(|s| !s.done()) {
            stuck.push("open_session".into());
        }
        if h.new_snd.iter().any(|s| !s.done()) || h.new_rcv.iter().any(|s| !s.done()) {
            stuck.push("attach".into());
        }
        if h.new_d.iter().any(|s| !s.done()) {
            stuck.push("send".into());
        }
        for l in &self.links {
            if l.aslot_s.as_ref().is_some_and(|s| !s.done()) || l.aslot_r.as_ref().is_some_and(|s| !s.done()) {
                stuck.push("attach".into());
            }
            if l.close.iter().any(|s| !s.done()) {
                stuck.push("close".into());
            }
            if l.on_close.iter().any(|s| !s.done()) {
                stuck.push("on_close".into());
            }
            if l.ready.iter().any(|s| !s.done()) {
                stuck.push("ready".into());
            }
            for s in &l.sends {
                if !s.slot.done() && s.delivery.is_none() && !s.dropped && !s.cancelled && s.err.is_none() {
                    stuck.push("send".into());
                }
                if s.waits.iter().any(|w| !w.judged && !w.slot.done()) {
                    stuck.push("wait".into());
                }
            }
        }
        for s in &self.sess {
            if s.end.iter().any(|s| !s.done()) {
                stuck.push("end session".into());
            }
        }
        if self.app.inbox.borrow().iter().any(|i| !i.borrow().ended) {
            stuck.push("recv".into());
        }
        stuck.sort();
        stuck.dedup();
        for s in stuck {
            self.w.mon.v("S10", &format!("stuck-{}", s.replace(' ', "-")), format!("the transport is gone but '{s}' still waits"));
        }
    }
}
