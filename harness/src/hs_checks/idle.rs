//! N04: idle time-outs, observed in real time on many connections at once.
//!
//! Time is counted by the observer's own loop: one round counts for at most 25 ms, so a machine that
//! is busy elsewhere delays the observer and the observed alike and does not look like a missed ping.
use super::*;
use crate::net::spawn;

pub const RULE: &str = "batch of connections with random roles, handshakes, announced idle time-outs, keep-alive settings, traffic of both sides and slow services, watched in real time; deduplicated by the observed frame times";

const TICK: u64 = 25;

struct Plan {
    idle: Option<u32>,
    /// the peer sends something this often
    chat: Option<u64>,
    split: bool,
    session: bool,
    /// the control service is stuck during this time
    hold: Option<(u64, u64)>,
    /// the application begins sessions at these times
    begins: Vec<u64>,
    close_at: Option<u64>,
}

struct Con {
    c: Conf,
    p: Plan,
    raw: Raw,
    side: Rc<Side>,
    slot: Slot<Result<(), String>>,
    pos: usize,
    frames: u64,
    empty: u64,
    last_tx: u64,
    max_gap: u64,
    last_rx: u64,
    real_rx: Instant,
    max_rx_real: Duration,
    next_chat: u64,
    closed: bool,
    after_close: u64,
    ended: Option<u64>,
    half: bool,
    attached: bool,
}

impl Con {
    /// The peer was silent for so long that the endpoint may have given it up
    fn given_up(&self, now: u64) -> bool {
        let ka = u64::from(self.c.keepalive) * 1000;
        ka > 0 && now - self.last_rx + 1000 > ka
    }
    fn watch(&mut self, now: u64) {
        self.raw.drain();
        if !self.given_up(now) && !self.closed && self.ended.is_none() {
            self.max_gap = self.max_gap.max(now - self.last_tx);
        }
        loop {
            let b = &self.raw.got[self.pos..];
            if b.len() < 4 {
                break;
            }
            let n = u32::from_be_bytes(b[..4].try_into().unwrap()) as usize;
            if n < 8 || b.len() < n {
                break;
            }
            let f = parse_frame(&b[..n]);
            self.pos += n;
            self.frames += 1;
            self.last_tx = now;
            if self.closed {
                self.after_close += 1;
            }
            if let Ok(f) = f {
                match f.parts() {
                    Ok(Some((0x18, _))) => self.closed = true,
                    Ok(None) => self.empty += 1,
                    _ => {}
                }
            }
        }
    }
    fn send(&mut self, b: &[u8], now: u64) {
        if let Some(io) = &self.raw.io {
            io.write(b);
            activity();
        }
        self.max_rx_real = self.max_rx_real.max(self.real_rx.elapsed());
        self.real_rx = Instant::now();
        self.last_rx = now;
    }
}

async fn idles(mut r: Rng) -> Outcome {
    let mut cons: Vec<Con> = vec![];
    let mut bad = vec![];
    let mut style = Style::smallest();
    let end = if r.chance(80) { r.range(3500, 7000) } else { r.range(7000, 14_000) } as u64;
    for _ in 0..r.range(20, 60) {
        let mut c = Conf::random(&mut r);
        c.code = 0;
        c.refuse = None;
        c.pauses = 0;
        c.ch_max = 1024;
        c.idle = *r.pick(&[0, 1, 2, 30]);
        c.keepalive = *r.pick(&[0, 0, 1, 2, 2, 3, 4]);
        let idle = match r.below(10) {
            0 => None,
            1 => Some(0),
            2 => Some(*r.pick(&[1u32, 2, 3, 5, 20])),
            3 => Some(*r.pick(&[u32::MAX, u32::MAX - 1, 1 << 31, 120_000])),
            _ => Some(*r.pick(&[300u32, 400, 500, 750, 1000, 1300, 1500, 2000, 2500, 3000])),
        };
        c.peer_idle = Some(idle.map_or(V::Null, V::Uint));
        let chat = if r.chance(55) {
            Some(if c.keepalive > 1 { r.range(20, c.keepalive as usize * 350) } else if c.keepalive == 1 { r.range(20, 150) } else { r.range(20, 3000) } as u64)
        } else {
            None
        };
        let session = r.chance(50);
        let t = r.range(100, 2000) as u64;
        let p = Plan {
            idle,
            chat,
            split: r.chance(30),
            session,
            hold: (session && r.chance(40)).then(|| (t, t + r.range(300, 4000) as u64)),
            begins: if r.chance(30) { (0..r.range(1, 6)).map(|_| r.range(100, 5000) as u64).collect() } else { vec![] },
            close_at: r.chance(20).then(|| r.range(200, 4000) as u64),
        };
        let sc = script(&c, &mut r);
        let (peer, sut) = IoTest::create();
        let mut raw = Raw { io: Some(peer), got: vec![], sent: vec![], reset: None };
        raw.io.as_ref().unwrap().remote_buffer_cap(1 << 30);
        let side = Rc::new(Side::default());
        let slot = start(&c, &side, sut);
        for s in &sc.steps {
            raw.settle().await;
            let b = match &s.perf {
                None => h(s.header),
                Some(p) => build_frame(u8::from(s.code >= 0x40), 0, Some(p), &[], &mut style, &[]),
            };
            raw.write(&b, &mut r).await;
        }
        raw.settle().await;
        raw.drain();
        if !side.open.get() {
            chk(&mut bad, "handshake", format!("the handshake did not complete: {:?} {c:?}", slot.take()));
            continue;
        }
        let pos = raw.got.len();
        cons.push(Con {
            c,
            p,
            raw,
            side,
            slot,
            pos,
            frames: 0,
            empty: 0,
            last_tx: 0,
            max_gap: 0,
            last_rx: 0,
            real_rx: Instant::now(),
            max_rx_real: Duration::ZERO,
            next_chat: 0,
            closed: false,
            after_close: 0,
            ended: None,
            half: false,
            attached: false,
        });
    }
    // every connection starts its own clock a little before this one
    let mut now = 0u64;
    let mut last = Instant::now();
    let mut lag = 0;
    while now < end {
        ntex::time::sleep(ntex::time::Millis(5)).await;
        let dt = last.elapsed().as_millis() as u64;
        last += Duration::from_millis(dt);
        lag += dt.saturating_sub(TICK);
        now += dt.min(TICK);
        for k in &mut cons {
            k.watch(now);
            if k.ended.is_some() {
                continue;
            }
            if k.slot.done() {
                k.ended = Some(now);
                continue;
            }
            if k.p.session && !k.attached && !k.half && now > 50 {
                k.attached = true;
                let mut b = build_frame(0, 0, Some(&desc(0x11, V::List(vec![V::Null, V::Uint(0), V::Uint(9), V::Uint(9)]))), &[], &mut style, &[]);
                if k.p.hold.is_some() {
                    k.side.hold.set(true);
                }
                let a = desc(0x12, V::List(vec![
                    st("l"),
                    V::Uint(0),
                    V::Bool(true),
                    V::Null,
                    V::Null,
                    desc(0x28, V::List(vec![st("l")])),
                    desc(0x29, V::List(vec![st("l")])),
                ]));
                b.extend(build_frame(0, 0, Some(&a), &[], &mut style, &[]));
                k.send(&b, now);
            }
            if let Some((_, b)) = k.p.hold
                && now > b
            {
                k.side.hold.set(false);
            }
            if let Some(i) = k.p.begins.iter().position(|t| *t < now) {
                k.p.begins.remove(i);
                let conn = k.side.conn.borrow().clone().unwrap();
                spawn(async move {
                    let _ = conn.open_session().await;
                });
            }
            if k.p.close_at.is_some_and(|t| t < now) {
                k.p.close_at = None;
                let conn = k.side.conn.borrow().clone().unwrap();
                spawn(async move {
                    let _ = conn.close().await;
                });
            }
            if let Some(every) = k.p.chat
                && now >= k.next_chat
                && k.raw.io.is_some()
                && !k.closed
            {
                k.next_chat = now + every;
                let e = [0, 0, 0, 8, 2, 0, 0, 0];
                if k.half {
                    k.half = false;
                    k.send(&e[5..], now);
                } else if k.p.split && every < 300 {
                    k.half = true;
                    k.send(&e[..5], now);
                } else if k.attached && r.chance(40) {
                    let f = desc(0x13, V::List(vec![V::Uint(1), V::Uint(9), V::Uint(0), V::Uint(9)]));
                    let b = build_frame(0, 0, Some(&f), &[], &mut style, &[]);
                    k.send(&b, now);
                } else {
                    k.send(&e, now);
                }
            }
        }
    }
    let mut counts = vec![];
    let mut log = format!("watched {} connections for {end} ms (observer late by {lag} ms)\n", cons.len());
    for k in &mut cons {
        if k.ended.is_none() && !k.closed {
            k.max_rx_real = k.max_rx_real.max(k.real_rx.elapsed());
        }
        let what = format!(
            "server={} sasl={} peer's idle time-out {:?}, keep-alive {} s, peer sends every {:?} ms (split {}; longest real silence {:?}), control service stuck {:?}, session {}, longest silence of the endpoint {} ms, {} frames ({} empty), ended {:?}: {:?}, emitted {}, control {:?}",
            k.c.server, k.c.sasl, k.p.idle, k.c.keepalive, k.p.chat, k.p.split, k.max_rx_real, k.p.hold, k.p.session, k.max_gap, k.frames, k.empty, k.ended, k.slot.with(|r| r.cloned()), short(&toks(&k.raw.got)), k.side.ctl.borrow()
        );
        log.push_str(&what);
        log.push('\n');
        if let Some(t) = k.p.idle
            && (300..60_000).contains(&t)
        {
            counts.push("connections with an announced idle time-out".to_string());
            if k.max_gap >= u64::from(t) {
                chk(&mut bad, "silent", format!("silent beyond the announced time-out: {what}"));
            }
        }
        if k.after_close > 0 {
            chk(&mut bad, "frame-after-close", format!("{} frames after Close: {what}", k.after_close));
        }
        let ka = u64::from(k.c.keepalive) * 1000;
        let told = k.side.ctl.borrow().iter().any(|s| s.contains("KeepAliveTimeout"));
        if k.p.chat.is_some() || ka == 0 {
            let quiet = k.max_rx_real.as_millis() as u64;
            if ka == 0 || quiet * 10 < ka * 6 {
                counts.push(if ka == 0 { "connections without keep-alive" } else { "chatty peers under keep-alive" }.to_string());
                if (k.ended.is_some() && !k.closed) || told {
                    chk(&mut bad, "dropped", format!("a connection was dropped: {what}"));
                }
            }
        } else {
            // silent since last_rx; a service that is stuck stops the clock
            let from = k.last_rx.max(k.p.hold.map_or(0, |h| h.1));
            let over = k.closed && !told;
            if !over && now > from + ka + 3500 {
                counts.push("silent peers under keep-alive".to_string());
                match k.ended {
                    None => chk(&mut bad, "not-dropped", format!("a dead peer was not dropped: {what}")),
                    Some(t) if t + 50 < k.last_rx => {}
                    Some(_) if !told => chk(&mut bad, "not-told", format!("a dead peer was dropped without a report: {what}")),
                    _ => {}
                }
            }
        }
        if k.p.hold.is_some() {
            counts.push("connections with a stuck control service".into());
        }
        k.side.hold.set(false);
        k.raw.cut(&mut r).await;
    }
    Outcome { bad, log, counts }
}

pub fn n04(cx: &mut Cx) {
    let n = cx.n(32, 480);
    cx.cases("watched", n, |cx, rng, _| {
        let r = Rng::new(rng.u64());
        let o = block_on(idles(r));
        for (k, w) in o.bad {
            cx.r.violation("N04", &k, w);
        }
        if let Some(p) = report::take_panic() {
            cx.r.violation("N04", &format!("panic-{}", report::panic_site(&p)), p);
        }
        for c in &o.counts {
            cx.r.count(c, 1);
        }
        cx.r.nontrivial(&o.log);
        cx.r.sample(|| o.log.clone());
        if std::env::var_os("AMQPMON_LOG").is_some() {
            eprintln!("{}", o.log);
        }
    });
}
