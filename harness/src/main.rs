#![allow(dead_code)]
//! Runtime-monitoring harness for ntex-amqp.  `amqpmon check <ID> <tier> <verif-dir>` supervises
//! worker processes which run the real code under generated workloads with the monitors attached.
mod app;
mod codec_checks;
mod value_checks;
mod conv;
mod hs_checks;
mod mon;
mod net;
mod progress;
mod proto_checks;
mod report;
mod rng;
mod limits;
mod router_checks;
mod schema;
mod wire;
mod world;

use std::collections::BTreeMap;
use std::fmt::Write as _;
use std::process::{Command, Stdio};
use std::sync::atomic::Ordering::SeqCst;
use std::time::{Duration, Instant};

use report::{Report, json_str};
use rng::Rng;

#[global_allocator]
static GLOBAL: report::Counting = report::Counting;

pub struct Cx {
    pub prop: String,
    pub thorough: bool,
    pub seed: u64,
    pub shard: usize,
    pub nshards: usize,
    seq: u64,
    resume: u64,
    only: Option<(String, u64)>,
    pub r: Report,
    pub end: Instant,
    pub out: Option<String>,
    flushed: Instant,
}

impl Cx {
    /// quick or thorough case count
    pub fn n(&self, q: usize, t: usize) -> usize {
        if self.thorough { t } else { q }
    }
    /// Runs this shard's share of `total` numbered cases
    pub fn cases(&mut self, label: &str, total: usize, mut f: impl FnMut(&mut Cx, &mut Rng, u64)) {
        for i in 0..total as u64 {
            if let Some((l, n)) = &self.only {
                if l != label || *n != i {
                    continue;
                }
            } else if i as usize % self.nshards != self.shard {
                continue;
            }
            self.seq += 1;
            if self.seq <= self.resume {
                continue;
            }
            if Instant::now() > self.end {
                self.r.count(&format!("time budget reached/{label}"), 1);
                return;
            }
            let case = format!("{label}:{i} seed={}", self.seed);
            progress::set(self.seq, &case);
            self.r.case = case;
            self.r.evals += 1;
            let mut rng = Rng::of(label, self.seed, i);
            let prop = self.prop.clone();
            if let Err(p) = report::catch(|| f(self, &mut rng, i)) {
                let key = format!("panic@{}", report::panic_site(&p));
                self.r.violation(&prop, &key, format!("panic escaped the case: {p}"));
            }
            if self.flushed.elapsed() > Duration::from_secs(10) {
                self.flush();
                self.flushed = Instant::now();
            }
        }
    }
    pub fn flush(&self) {
        if let Some(o) = &self.out {
            let _ = std::fs::write(o, self.r.dump());
        }
    }
}

struct Suite {
    run: fn(&mut Cx),
    rule: &'static str,
    /// CPU seconds one case may burn; a normal case takes milliseconds
    hang: f64,
}

fn suite(prop: &str) -> Option<Suite> {
    let (run, rule): (fn(&mut Cx), &'static str) = match prop {
        "C01" => (codec_checks::c01, codec_checks::R01),
        "C02" => (codec_checks::c02, codec_checks::R02),
        "C03" => (codec_checks::c03, codec_checks::R03),
        "C04" => (codec_checks::c04, codec_checks::R04),
        "C05" => (codec_checks::c05, codec_checks::R05),
        "C06" => (codec_checks::c06, codec_checks::R06),
        "C07" => (value_checks::c07, value_checks::RULE),
        "N04" => (hs_checks::n04, hs_checks::RULE),
        "N01" => (hs_checks::n01, hs_checks::R01),
        "S10" => (proto_checks::s10, proto_checks::RW),
        "R01" => (router_checks::r01, router_checks::RULE),
        x if x.len() == 3 && "NSEA".contains(&x[..1]) => (proto_checks::generic, proto_checks::RW),
        _ => return None,
    };
    Some(Suite { run, rule, hang: 20.0 })
}

fn worker(a: &[String]) {
    // prop thorough seed shard nshards resume out page secs [only]
    let only = a.get(9).map(|s| {
        let (l, n) = s.rsplit_once(':').unwrap();
        (l.to_string(), n.parse().unwrap())
    });
    if a[7] != "-" {
        progress::attach(&a[7]);
    }
    let s = suite(&a[0]).expect("property");
    progress::watchdog(s.hang);
    report::install_panic_hook();
    let mut cx = Cx {
        prop: a[0].clone(),
        thorough: a[1] == "1",
        seed: a[2].parse().unwrap(),
        shard: a[3].parse().unwrap(),
        nshards: a[4].parse().unwrap(),
        seq: 0,
        resume: a[5].parse().unwrap(),
        r: Report { verbose: only.is_some(), ..Report::default() },
        only,
        end: Instant::now() + Duration::from_secs(a[8].parse().unwrap()),
        out: (a[6] != "-").then(|| a[6].clone()),
        flushed: Instant::now(),
    };
    (s.run)(&mut cx);
    cx.flush();
}

fn spawn(prop: &str, th: bool, seed: u64, shard: usize, n: usize, resume: u64, dir: &str, secs: u64) -> std::process::Child {
    let out = format!("{dir}/{shard}.{resume}.txt");
    let page = format!("{dir}/{shard}.page");
    Command::new(std::env::current_exe().unwrap())
        .args([
            "worker",
            prop,
            if th { "1" } else { "0" },
            &seed.to_string(),
            &shard.to_string(),
            &n.to_string(),
            &resume.to_string(),
            &out,
            &page,
            &secs.to_string(),
        ])
        .stdin(Stdio::null())
        .stdout(Stdio::null())
        .spawn()
        .unwrap()
}

fn known(path: &str, prop: &str) -> Vec<(String, String)> {
    let tag = format!("known: property={prop} key=");
    std::fs::read_to_string(path)
        .unwrap_or_default()
        .lines()
        .filter_map(|l| l.strip_prefix(&tag))
        .map(|l| {
            let (k, d) = l.split_once(' ').unwrap_or((l, ""));
            (k.to_string(), d.to_string())
        })
        .collect()
}

fn check(prop: &str, tier: &str, verif: &str) -> i32 {
    let t0 = Instant::now();
    let seed: u64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    let th = tier == "thorough";
    let Some(s) = suite(prop) else {
        eprintln!("unknown property {prop}");
        return 2;
    };
    let n: usize = std::env::var("AMQPMON_JOBS").ok().and_then(|s| s.parse().ok()).unwrap_or(8);
    let secs: u64 = std::env::var("AMQPMON_SECS")
        .ok()
        .and_then(|s| s.parse().ok())
        .unwrap_or(if th { 3000 } else { 300 });
    let dir = format!("{}/amqpmon-{prop}-{}", std::env::temp_dir().display(), std::process::id());
    std::fs::create_dir_all(&dir).unwrap();
    let mut rep = Report::default();
    let mut crashes = vec![];
    let mut inconclusive = vec![];
    let mut kids: Vec<(usize, u64, std::process::Child, usize)> =
        (0..n).map(|i| (i, 0, spawn(prop, th, seed, i, n, 0, &dir, secs), 0)).collect();
    let hard = t0 + Duration::from_secs(secs + secs / 2 + 60);
    while !kids.is_empty() {
        let mut next = vec![];
        for (shard, resume, mut k, crashed) in kids {
            match k.try_wait().unwrap() {
                None if Instant::now() > hard => {
                    let page = progress::open(&format!("{dir}/{shard}.page"));
                    let _ = k.kill();
                    let _ = k.wait();
                    inconclusive.push(format!("worker {shard} did not finish: {}", progress::label(page)));
                }
                None => next.push((shard, resume, k, crashed)),
                Some(st) => {
                    let txt = std::fs::read_to_string(format!("{dir}/{shard}.{resume}.txt")).unwrap_or_default();
                    rep.merge_text(&txt);
                    if !st.success() {
                        use std::os::unix::process::ExitStatusExt;
                        let page = progress::open(&format!("{dir}/{shard}.page"));
                        let label = progress::label(page);
                        let seqn = page.case.load(SeqCst).saturating_sub(1);
                        let refused = page.refused.swap(0, SeqCst);
                        let (key, what) = if st.code() == Some(97) {
                            ("hang".to_string(), format!("the case burned more than {} s of CPU time", s.hang))
                        } else if refused > 0 {
                            ("alloc".into(), format!("requested {refused} bytes at once (or over the live cap)"))
                        } else if let Some(sig) = st.signal() {
                            (format!("signal{sig}"), format!("process died of signal {sig} (stack overflow or abort)"))
                        } else {
                            (format!("exit{}", st.code().unwrap_or(0)), format!("process exited {:?}", st.code()))
                        };
                        if st.signal() == Some(9) {
                            inconclusive.push(format!("worker {shard} was killed at {label}"));
                        } else {
                            crashes.push((key, what, label));
                        }
                        if crashed < 4 && seqn > resume {
                            let c = spawn(prop, th, seed, shard, n, seqn, &dir, secs);
                            next.push((shard, seqn, c, crashed + 1));
                        }
                    }
                }
            }
        }
        kids = next;
        std::thread::sleep(Duration::from_millis(20));
    }
    for (key, what, label) in crashes {
        rep.case = label;
        let what = format!("{what} in {}", rep.case);
        rep.violation(prop, &key, what);
    }
    let _ = std::fs::remove_dir_all(&dir);

    // only this property's violations count here: other monitors run in their own check
    let kn = known(&format!("{verif}/known-findings.txt"), prop);
    let mut fresh: BTreeMap<String, Vec<report::Viol>> = BTreeMap::new();
    let mut hit = BTreeMap::new();
    for v in &rep.viols {
        if v.prop != prop && std::env::var_os("AMQPMON_ALL").is_none() {
            continue;
        }
        if let Some(k) = kn.iter().find(|k| k.0 == v.key) {
            hit.insert(k.0.clone(), k.1.clone());
        } else {
            fresh.entry(if v.prop == prop { v.key.clone() } else { format!("{} {}", v.prop, v.key) }).or_default().push(v.clone());
        }
    }
    for (k, d) in &hit {
        println!("KNOWN-FINDING: property={prop} {k}: {d}");
    }
    let mut code = 0;
    let rdir = format!("{verif}/replays");
    for (k, vs) in &fresh {
        std::fs::create_dir_all(&rdir).unwrap();
        let name: String = k.chars().map(|c| if c.is_alphanumeric() { c } else { '_' }).take(60).collect();
        let path = format!("{rdir}/{prop}-{name}.txt");
        let v = vs.iter().min_by_key(|v| v.what.len()).unwrap();
        let _ = std::fs::write(
            &path,
            format!(
                "property={prop}\nkey={k}\ntier={tier}\ncase={}\nreplay: {verif}/check.sh replay {path}\n\n{}\n",
                v.case, v.what
            ),
        );
        println!("VIOLATION property={prop} replay={path}");
        let one: String = v.what.chars().take(400).collect();
        println!("  {k}: {}", one.replace('\n', "\n    "));
        code = 1;
    }
    for i in &inconclusive {
        println!("INCONCLUSIVE: {i}");
    }
    // a run that observed nothing is not a pass
    if rep.evals == 0 && code == 0 {
        println!("INCONCLUSIVE: nothing was executed");
        code = 3;
    }
    let mut cov = String::new();
    let _ = write!(
        cov,
        "{{\"evaluations\":{},\"distinct_nontrivial\":{},\"rule\":{},\"samples\":[{}]",
        rep.evals,
        rep.distinct.len(),
        json_str(s.rule),
        rep.samples.iter().take(4).map(|s| json_str(s)).collect::<Vec<_>>().join(",")
    );
    let _ = write!(cov, ",\"observed\":{{");
    let mut first = true;
    for (k, v) in rep.counters.iter().filter(|c| !c.0.starts_with("violations/")) {
        let _ = write!(cov, "{}{}:{v}", if first { "" } else { "," }, json_str(k));
        first = false;
    }
    let _ = write!(cov, "}},\"distinct_observed\":{{");
    let mut first = true;
    for (k, v) in &rep.sets {
        let _ = write!(cov, "{}{}:{}", if first { "" } else { "," }, json_str(k), v.len());
        first = false;
    }
    let _ = write!(
        cov,
        "}},\"inconclusive\":[{}]}}",
        inconclusive.iter().map(|s| json_str(s)).collect::<Vec<_>>().join(",")
    );
    let ev = format!(
        "{{\"property\":{},\"tier\":{},\"seed\":{seed},\"level\":\"exploration\",\"coverage\":{cov},\"wall_s\":{:.2},\"violations\":{}}}\n",
        json_str(prop),
        json_str(tier),
        t0.elapsed().as_secs_f64(),
        fresh.len()
    );
    let _ = std::fs::create_dir_all(format!("{verif}/evidence"));
    std::fs::write(format!("{verif}/evidence/{prop}.json"), ev).unwrap();
    println!(
        "{prop} {tier}: {} executions, {} distinct non-trivial, {} violation kinds, {:.1}s",
        rep.evals,
        rep.distinct.len(),
        fresh.len(),
        t0.elapsed().as_secs_f64()
    );
    code
}

fn main() {
    let a: Vec<String> = std::env::args().skip(1).collect();
    let code = match a.first().map(String::as_str) {
        Some("worker") => {
            // generous stack is not a hiding place: the default 8 MiB main-thread stack is used
            worker(&a[1..]);
            0
        }
        Some("check") if a.len() >= 4 => check(&a[1], &a[2], &a[3]),
        Some("replay") if a.len() >= 2 => {
            let t = std::fs::read_to_string(&a[1]).unwrap();
            let get = |k: &str| t.lines().find_map(|l| l.strip_prefix(k)).unwrap_or("").to_string();
            let case = get("case=");
            let (lab, seed) = case.split_once(" seed=").unwrap();
            let th = if get("tier=") == "thorough" { "1" } else { "0" };
            worker(
                &[&get("property="), th, seed, "0", "1", "0", "-", "-", "600", lab].map(ToString::to_string),
            );
            0
        }
        Some("case") if a.len() >= 4 => {
            // case <prop> <seed> <label:idx>
            worker(&[&a[1], "0", &a[2], "0", "1", "0", "-", "-", "600", &a[3]].map(ToString::to_string));
            0
        }
        _ => {
            eprintln!("usage: amqpmon check <ID> quick|thorough <verif-dir> | replay <file> | case <ID> <seed> <label:n>");
            2
        }
    };
    std::process::exit(code);
}
