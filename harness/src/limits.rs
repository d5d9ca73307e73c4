//! The frame size limit of a running endpoint (part of C05): a frame of exactly the limit is
//! acted upon, a longer one ends the connection as soon as its size is known.
use crate::Cx;
use crate::app::{self, App, SutCfg};
use crate::net::{Wire, block_on};
use crate::report;
use crate::rng::Rng;
use crate::wire::{Style, V, build_frame, desc, st, sym};
use ntex_io::testing::IoTest;
use std::collections::BTreeMap;
use std::rc::Rc;

/// A Flow with echo that takes `n` bytes on the wire, if there is one
fn flow(n: usize) -> Option<Vec<u8>> {
    let mut pad = n.saturating_sub(60);
    for _ in 0..40 {
        let f = desc(
            0x13,
            V::List(vec![
                V::Uint(1),
                V::Uint(1000),
                V::Uint(1),
                V::Uint(1000),
                V::Null,
                V::Null,
                V::Null,
                V::Null,
                V::Null,
                V::Bool(true),
                V::Map(vec![(sym("pad"), V::Bin(vec![7; pad]))]),
            ]),
        );
        let b = build_frame(0, 3, Some(&f), &[], &mut Style::smallest(), &[]);
        if b.len() == n {
            return Some(b);
        }
        let next = (pad + n).saturating_sub(b.len());
        if next == pad {
            return None;
        }
        pad = next;
    }
    None
}

struct Done {
    bad: Vec<(&'static str, String)>,
    counts: BTreeMap<&'static str, u64>,
}

async fn one(mut rng: Rng) -> Done {
    let server = rng.chance(50);
    let lim = *rng.pick(&[512usize, 513, 600, 767, 1024, 4096, 20000, 65535]);
    let lim = if server && rng.chance(20) { 0 } else { lim };
    let cfg = if server {
        // what it announces and what it takes are different things
        SutCfg { server, max_size: lim, own_max_frame: *rng.pick(&[512u32, 65535]), ..Default::default() }
    } else {
        SutCfg { server, own_max_frame: lim as u32, ..Default::default() }
    };
    let mut d = Done { bad: vec![], counts: BTreeMap::new() };
    let (peer, io) = IoTest::create();
    let app: Rc<App> = Rc::default();
    let ended = app::start(&app, io, &cfg);
    let mut w = Wire::new(peer, Style::smallest());
    w.mon.off = true;
    w.queue_raw(b"AMQP\x00\x01\x00\x00".to_vec());
    w.queue(0, 0, Some(&desc(0x10, V::List(vec![st("peer"), V::Null, V::Uint(65536)]))), &[]);
    w.flush(&mut rng).await;
    w.settle().await;
    w.queue(0, 3, Some(&desc(0x11, V::List(vec![V::Null, V::Uint(1), V::Uint(1000), V::Uint(1000)]))), &[]);
    w.flush(&mut rng).await;
    w.settle().await;
    w.got.clear();
    let who = if server { "server" } else { "client" };
    let flows = |w: &mut Wire| {
        let mut n = 0;
        while let Some(f) = w.got.pop_front() {
            if matches!(f.parts(), Ok(Some((0x13, _)))) {
                n += 1;
            }
        }
        n
    };
    let top = if lim == 0 { 150_000 } else { lim };
    for _ in 0..rng.range(1, 4) {
        let n = match rng.below(4) {
            0 | 1 => top,
            2 => top - 1,
            _ => rng.range(90, top),
        };
        let Some(mut b) = flow(n) else { continue };
        if rng.chance(40) {
            let rest = b.split_off(rng.range(1, b.len() - 1));
            w.queue_raw(b);
            w.flush(&mut rng).await;
            w.settle().await;
            b = rest;
        }
        w.queue_raw(b);
        w.flush(&mut rng).await;
        w.settle().await;
        if flows(&mut w) != 1 || ended.done() {
            d.bad.push(("endpoint-refuses", format!("a {who} whose limit is {lim} was sent a frame of {n} bytes: not answered, ended: {}", ended.done())));
            return d;
        }
        *d.counts.entry("endpoints: frames within the limit answered").or_default() += 1;
    }
    if lim != 0 {
        let n = match rng.below(3) {
            0 | 1 => lim + 1,
            _ => lim + rng.range(2, 40_000),
        };
        let Some(b) = flow(n) else { return d };
        // as soon as the size is known
        let upto = if rng.chance(50) { rng.range(8, b.len()) } else { b.len() };
        w.queue_raw(b[..upto].to_vec());
        w.flush(&mut rng).await;
        w.settle().await;
        let closed = w.got.iter().any(|f| matches!(f.parts(), Ok(Some((0x18, _)))));
        if flows(&mut w) != 0 || !(closed || ended.done() || w.io().is_none_or(|i| i.is_closed())) {
            d.bad.push(("endpoint-takes", format!("a {who} whose limit is {lim} was sent {upto} bytes of a frame of {n} bytes and did not refuse it")));
        }
        *d.counts.entry("endpoints: frames beyond the limit refused").or_default() += 1;
    }
    w.cut(false);
    w.settle().await;
    d
}

pub fn cases(cx: &mut Cx, n: usize) {
    cx.cases("c05.endpoint", n, |cx, rng, _| {
        let rng = Rng::new(rng.u64());
        let d = block_on(one(rng));
        for (k, w) in d.bad {
            cx.r.violation("C05", k, w);
        }
        for (k, n) in d.counts {
            cx.r.count(k, n);
        }
        if let Some(p) = report::take_panic() {
            cx.r.violation("C05", &format!("panic-{}", report::panic_site(&p)), p);
        }
    });
}
