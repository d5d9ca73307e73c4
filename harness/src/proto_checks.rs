//! Checks that drive whole endpoints
use crate::Cx;
use crate::net::block_on;
use crate::report;
use crate::mon::Mon;
use crate::rng::Rng;
use crate::world::{Prof, World};
use std::collections::HashSet;
use std::sync::OnceLock;

fn run_world(prop: &str, prof: Prof, rng: Rng, hostile: bool) -> (Mon, Vec<&'static str>, Option<String>) {
    let prop = prop.to_string();
    block_on(async move {
        let mut w = World::connect(&prop, prof, rng).await;
        w.run().await;
        if hostile && !w.conn_dead() {
            w.hostile().await;
        } else {
            w.finish().await;
        }
        let t = std::mem::take(&mut w.trace);
        let m = std::mem::take(&mut w.w.mon);
        (m, t, report::take_panic())
    })
}

impl Cx {
    /// What goes wrong with a single link on a single session, if anything
    fn alone_keys(&mut self) -> HashSet<String> {
        let mut keys = HashSet::new();
        for i in 0..250 {
            let mut rng = Rng::of("alone", self.seed, i);
            let prof = Prof { max_links: 1, max_sess: 1, ..profile("S08", (i & 1) as usize, &mut rng) };
            let (mon, _, _) = run_world("S08", prof, rng, false);
            keys.extend(mon.viols.iter().map(|v| v.1.clone()));
            self.r.count("control histories with one link", 1);
        }
        keys
    }
    /// Conforming histories of one endpoint under the given profile
    fn worlds(&mut self, label: &str, total: usize, p: impl Fn(&mut Rng) -> Prof) {
        self.worlds_with(label, total, false, p);
    }
    fn worlds_with(&mut self, label: &str, total: usize, hostile: bool, p: impl Fn(&mut Rng) -> Prof) {
        let prop = self.prop.clone();
        static ALONE: OnceLock<HashSet<String>> = OnceLock::new();
        let alone = (prop == "S08").then(|| ALONE.get_or_init(|| self.alone_keys()));
        self.cases(label, total, |cx, rng, _| {
            let mut rng = Rng::new(rng.u64());
            let prof = p(&mut rng);
            let pr = prop.clone();
            let (mon, trace, pn) = run_world(&pr, prof, rng, hostile);
            if let Some(k) = alone {
                // whatever goes wrong only among other links and sessions
                for (_, key, what) in mon.viols.iter().filter(|v| v.0 != "S08" && !k.contains(&v.1)) {
                    cx.r.violation("S08", &format!("only-among-others-{key}"), format!("{what} (never seen with one session and one link)"));
                }
            }
            for (p, k, w) in &mon.viols {
                cx.r.violation(p, k, w.clone());
            }
            if let Some(p) = pn {
                cx.r.violation(&prop, &format!("panic-{}", report::panic_site(&p)), p);
            }
            for (k, n) in &mon.counts {
                cx.r.count(k, *n);
            }
            cx.r.count("frames delivered", mon.rx_total);
            cx.r.count("frames emitted", mon.tx_total);
            cx.r.nontrivial(&mon.log.iter().filter(|l| l.starts_with("< ") || l.starts_with("> ")).collect::<Vec<_>>());
            cx.r.seen("distinct operation sequences", &trace);
            cx.r.sample(|| mon.log.iter().skip(6).take(40).cloned().collect::<Vec<_>>().join("\n"));
            if std::env::var_os("AMQPMON_LOG").is_some() {
                eprintln!("{}", mon.log.join("\n"));
            }
        });
    }
}

pub const RW: &str = "history of a random application and a random conforming peer around one real endpoint, deduplicated by the full sequence of frames in both directions";

/// The profiles that put weight on one property; every property also runs the general mix
fn profile(prop: &str, kind: usize, rng: &mut Rng) -> Prof {
    let d = Prof::default;
    let p = match (prop, kind) {
        ("N02", 0) => Prof { max_frames: vec![512 + rng.below(400) as u32], big: 70, big_max: 4000, long_err: true, errs: 80, small_window: 10, ..d() }
            .set(&[("a_send", 50), ("p_credit", 30), ("p_window", 12)]),
        ("N02", 1) => Prof { max_frames: vec![512, 513, 600, 700], long_err: true, errs: 100, refuse: 30, fail_ctl: 10, ..d() }
            .set(&[("a_close_link", 8), ("a_end", 4), ("a_settle", 30), ("a_attach_s", 14), ("a_attach_r", 12), ("a_open", 9)]),
        ("N03", 0) => {
            let m = vec![0, 1, 2, 3, 5];
            Prof { ch_max: m.clone(), own_ch_max: m, steps: (40, 120), ..d() }
                .set(&[("a_open", 30), ("a_end", 14), ("p_begin", 20), ("p_end", 12), ("p_answer", 40), ("a_send", 12), ("p_transfer", 12), ("a_close_link", 1)])
        }
        ("N03", _) => Prof { ch_max: vec![3, 7, 65535], own_ch_max: vec![4, 9, 1024, 65535], rest: 25, steps: (40, 120), ..d() }
            .set(&[("a_open", 20), ("a_end", 6), ("p_begin", 14), ("p_end", 6), ("p_attach_s", 12), ("p_attach_r", 12)]),
        ("S01", 0) => Prof { small_window: 0, extreme: 50, steps: (40, 120), ..d() }
            .set(&[("a_burst", 1), ("a_send", 55), ("p_credit", 40), ("a_cancel", 8), ("a_ready", 10), ("p_transfer", 6), ("a_settle", 4)]),
        ("S01", _) => Prof { small_window: 30, rest: 20, steps: (40, 120), ..d() }
            .set(&[("a_send", 60), ("p_credit", 40), ("a_cancel", 10), ("a_attach_s", 12), ("p_attach_r", 12), ("p_transfer", 4), ("g_hold", 3)]),
        ("S02", 0) => Prof { small_window: 100, big: 35, max_frames: vec![512, 600, 1024], steps: (40, 120), ..d() }
            .set(&[("a_send", 55), ("p_window", 30), ("p_credit", 24), ("p_transfer", 10), ("a_settle", 5)]),
        ("S02", _) => Prof { small_window: 80, rest: 20, big: 25, max_frames: vec![512, 700, 4096], steps: (40, 120), ..d() }
            .set(&[("a_send", 55), ("p_window", 24), ("p_credit", 24), ("a_cancel", 8), ("a_attach_s", 14), ("p_transfer", 6), ("p_detach", 5)]),
        ("S03", 0) => Prof { overrun: true, extreme: 50, steps: (40, 120), ..d() }
            .set(&[("p_transfer", 60), ("a_credit", 20), ("a_attach_r", 12), ("a_send", 8), ("p_disp", 6), ("p_echo", 3)]),
        ("S03", _) => Prof { overrun: true, rest: 20, limits: 30, big: 30, steps: (40, 120), ..d() }
            .set(&[("p_transfer", 60), ("a_credit", 16), ("a_attach_r", 12), ("p_attach_s", 10), ("a_send", 8), ("p_disp", 6)]),
        ("S04", 0) => Prof { big: 60, big_max: 20_000, small_window: 20, errs: 20, ..d() }
            .set(&[("p_transfer", 50), ("a_send", 45), ("p_credit", 26), ("a_settle", 20), ("a_close_link", 1), ("p_detach", 1)]),
        ("S04", _) => Prof { big: 40, big_max: 3000, rest: 15, max_frames: vec![512, 640], slow_peer: 25, ..d() }
            .set(&[("p_transfer", 50), ("a_send", 45), ("p_credit", 26), ("a_cancel", 6), ("p_window", 14)]),
        ("S05", 0) => Prof { small_window: 10, steps: (40, 120), ..d() }
            .set(&[("a_burst", 1), ("a_send", 45), ("a_wait", 24), ("p_disp", 36), ("p_sdisp", 6), ("a_settle", 30), ("p_transfer", 40), ("a_drop", 4), ("a_ssettle", 4)]),
        ("S05", _) => Prof { small_window: 0, rest: 20, reuse_names: 30, ..d() }
            .set(&[("a_send", 45), ("a_wait", 24), ("p_disp", 30), ("a_settle", 30), ("p_transfer", 40), ("p_detach", 6), ("a_close_link", 6), ("a_attach_s", 14)]),
        ("S06", 0) => Prof { big: 45, big_max: 3000, max_frames: vec![512, 700, 1024], small_window: 60, extreme: 40, ..d() }.set(&[("a_burst", 1)])
            .set(&[("a_send", 60), ("p_credit", 30), ("p_window", 20), ("a_cancel", 8), ("a_attach_s", 14), ("p_attach_r", 10), ("p_transfer", 6)]),
        ("S06", _) => Prof { big: 30, rest: 20, ..d() }.set(&[("a_burst", 1), ("a_send", 60), ("p_credit", 30), ("p_detach", 6), ("a_close_link", 6), ("a_cancel", 8), ("p_transfer", 6)]),
        ("S07", 0) => Prof { errs: 50, refuse: 15, ..d() }
            .set(&[("p_detach", 10), ("a_close_link", 8), ("p_end", 6), ("a_end", 6), ("a_open", 14), ("a_attach_s", 16), ("a_attach_r", 14), ("a_onclose", 8), ("a_ready", 8), ("a_wait", 20)]),
        ("S07", _) => Prof { rest: 15, refuse: 12, small_window: 70, slow_peer: 30, ..d() }
            .set(&[("p_detach", 8), ("a_close_link", 6), ("p_end", 5), ("a_end", 4), ("a_open", 12), ("a_attach_s", 16), ("a_attach_r", 12), ("a_onclose", 6), ("a_ready", 10), ("p_answer", 16)]),
        ("S08", 0) => Prof { reuse_names: 40, errs: 30, steps: (50, 130), ..d() }
            .set(&[("p_detach", 10), ("a_close_link", 8), ("p_end", 4), ("a_end", 4), ("a_open", 10), ("a_attach_s", 16), ("a_attach_r", 14), ("p_attach_s", 12), ("p_attach_r", 12), ("p_answer", 40)]),
        ("S08", _) => Prof { reuse_names: 20, rest: 20, steps: (50, 130), small_window: 50, ..d() }
            .set(&[("p_detach", 8), ("a_close_link", 6), ("p_end", 3), ("a_end", 3), ("a_open", 10), ("p_begin", 8), ("a_attach_s", 16), ("p_attach_r", 12), ("p_window", 14)]),
        ("S09", 0) => Prof { errs: 50, fail_ctl: 4, ..d() }
            .set(&[("p_detach", 12), ("a_close_link", 12), ("p_end", 7), ("a_end", 7), ("a_open", 12), ("a_attach_s", 16), ("a_attach_r", 14), ("p_begin", 8), ("a_settle", 24), ("a_credit", 10)]),
        ("S09", _) => Prof { rest: 15, small_window: 60, slow_peer: 25, ..d() }
            .set(&[("p_detach", 10), ("a_close_link", 10), ("p_end", 6), ("a_end", 6), ("a_open", 12), ("a_attach_s", 16), ("a_attach_r", 14), ("p_begin", 8), ("g_hold", 4)]),
        ("S11", 0) => Prof { limits: 90, big: 30, ..d() }.set(&[("a_send", 45), ("p_transfer", 50), ("p_credit", 26), ("p_attach_s", 12), ("a_attach_r", 12)]),
        ("S11", _) => Prof { limits: 80, rest: 20, max_frames: vec![512, 700], big: 40, ..d() }
            .set(&[("a_send", 45), ("p_transfer", 50), ("p_credit", 26), ("p_attach_r", 12), ("a_attach_s", 14)]),
        ("S12", 0) => Prof { errs: 90, refuse: 25, fail_ctl: 15, limits: 25, overrun: true, ..d() }
            .set(&[("p_detach", 9), ("a_close_link", 8), ("p_end", 4), ("a_end", 4), ("p_attach_r", 12), ("p_attach_s", 12), ("a_attach_s", 14), ("a_attach_r", 12), ("a_wait", 18), ("a_settle", 24)]),
        ("S12", _) => Prof { errs: 90, rest: 25, refuse: 20, fail_ctl: 8, reuse_names: 25, ..d() }
            .set(&[("p_detach", 9), ("a_close_link", 6), ("p_end", 4), ("a_open", 9), ("p_disp", 24), ("p_begin", 8)]),
        ("E01", 0) => Prof { rich: 30, rest: 25, fail_ctl: 4, ..d() }
            .set(&[("g_hold", 8), ("p_credit", 40), ("p_detach", 10), ("p_end", 4), ("a_close_link", 6), ("a_end", 3), ("p_attach_r", 14), ("p_attach_s", 14), ("p_pipeline", 8), ("a_attach_s", 12)]),
        ("E01", _) => Prof { rich: 20, rest: 60, reuse_names: 20, ..d() }
            .set(&[("g_hold", 4), ("p_credit", 40), ("p_detach", 8), ("p_end", 3), ("p_attach_r", 14), ("p_pipeline", 8), ("p_answer", 40)]),
        ("A01", 0) => Prof { rich: 70, limits: 30, reuse_names: 25, ..d() }
            .set(&[("a_open", 14), ("a_attach_s", 24), ("a_attach_r", 20), ("p_begin", 8), ("p_attach_s", 14), ("p_attach_r", 14), ("a_close_link", 6), ("p_detach", 6), ("p_answer", 40)]),
        ("A01", _) => Prof { rich: 40, rest: 20, limits: 20, reuse_names: 40, max_frames: vec![512, 700, 4096], ..d() }
            .set(&[("a_open", 10), ("a_attach_s", 20), ("a_attach_r", 16), ("p_attach_s", 12), ("p_attach_r", 12), ("a_close_link", 8), ("p_detach", 8), ("p_transfer", 30), ("g_hold", 2)]),
        ("E02", 0) => Prof { rest: 25, serial: 30, fail_ready: 30, fail_ctl: 4, ..d() }
            .set(&[("g_unready", 30), ("p_detach", 6), ("p_end", 3), ("a_close_link", 5), ("a_end", 3), ("p_transfer", 40), ("p_pipeline", 6), ("p_begin", 8)]),
        ("E02", _) => Prof { rest: 12, serial: 60, fail_ready: 30, small_window: 60, steps: (40, 120), ..d() }
            .set(&[("g_unready", 15), ("p_transfer", 50), ("p_credit", 24), ("p_attach_s", 12), ("p_attach_r", 12), ("p_detach", 5), ("p_disp", 24)]),
        _ => d(),
    };
    p
}

pub fn generic(cx: &mut Cx) {
    let prop = cx.prop.clone();
    let n = cx.n(3000, 100_000);
    for (k, label) in ["focused", "dense"].into_iter().enumerate() {
        let pr = prop.clone();
        cx.worlds(label, n, move |r| profile(&pr, k, r));
    }
    let n = cx.n(2000, 60_000);
    cx.worlds("world", n, |r| {
        let mut p = Prof { fail_ctl: 2, overrun: true, ..Prof::default() };
        if r.chance(30) {
            p = p.set(&[("g_hold", 3)]);
        }
        p
    });
}

/// Hostile peers
pub fn s10(cx: &mut Cx) {
    let n = cx.n(12_000, 400_000);
    cx.worlds_with("hostile", n, true, |r| Prof { steps: (3, *r.pick(&[5, 20, 60])), rest: 30, fail_ctl: 3, overrun: true, ..Prof::default() });
    let n = cx.n(2000, 60_000);
    cx.worlds("world", n, |_| Prof { fail_ctl: 2, overrun: true, ..Prof::default() });
}
