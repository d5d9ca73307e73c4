//! What a worker observed: counts, distinct-case hashes, violations.  Written as a line-based file
//! the supervisor merges.
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::RefCell;
use std::collections::{BTreeMap, HashSet};
use std::fmt::Write as _;
use std::hash::{Hash, Hasher};
use std::sync::atomic::{AtomicU64, AtomicUsize, Ordering::Relaxed};

/// Counts live heap bytes; refuses absurd single requests so that the refusal is attributable.
pub struct Counting;
pub static LIVE: AtomicUsize = AtomicUsize::new(0);
pub static PEAK: AtomicUsize = AtomicUsize::new(0);
pub const ALLOC_CAP: usize = 2 << 30;

unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        if l.size() > ALLOC_CAP || LIVE.load(Relaxed) + l.size() > 2 * ALLOC_CAP {
            crate::progress::refused(l.size());
            return std::ptr::null_mut();
        }
        let p = unsafe { System.alloc(l) };
        if !p.is_null() {
            let n = LIVE.fetch_add(l.size(), Relaxed) + l.size();
            PEAK.fetch_max(n, Relaxed);
        }
        p
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        unsafe { System.dealloc(p, l) };
        LIVE.fetch_sub(l.size(), Relaxed);
    }
}

pub fn peak_reset() -> usize {
    let n = LIVE.load(Relaxed);
    PEAK.store(n, Relaxed);
    n
}
pub fn peak_since(base: usize) -> usize {
    PEAK.load(Relaxed).saturating_sub(base)
}

#[derive(Clone, Debug)]
pub struct Viol {
    pub prop: String,
    /// stable signature: what kind of breakage at which site, used for known findings and dedup
    pub key: String,
    pub what: String,
    pub case: String,
}

#[derive(Default)]
pub struct Report {
    pub evals: u64,
    pub distinct: HashSet<u64>,
    pub counters: BTreeMap<String, u64>,
    pub sets: BTreeMap<String, HashSet<u64>>,
    pub samples: Vec<String>,
    pub viols: Vec<Viol>,
    pub known_hits: BTreeMap<String, String>,
    pub case: String,
    pub verbose: bool,
}

pub fn hash<T: Hash + ?Sized>(t: &T) -> u64 {
    #[allow(deprecated)]
    let mut h = std::hash::SipHasher::new();
    t.hash(&mut h);
    h.finish()
}

impl Report {
    pub fn count(&mut self, k: &str, n: u64) {
        if let Some(c) = self.counters.get_mut(k) {
            *c += n;
        } else {
            self.counters.insert(k.into(), n);
        }
    }
    pub fn seen<T: Hash + ?Sized>(&mut self, set: &str, v: &T) {
        let h = hash(v);
        if let Some(s) = self.sets.get_mut(set) {
            s.insert(h);
        } else {
            self.sets.entry(set.into()).or_default().insert(h);
        }
    }
    pub fn nontrivial<T: Hash + ?Sized>(&mut self, v: &T) {
        // bounded: beyond this the count is a lower bound
        if self.distinct.len() < 2_000_000 {
            self.distinct.insert(hash(v));
        }
    }
    pub fn sample(&mut self, f: impl FnOnce() -> String) {
        if self.samples.len() < 3 {
            let mut s = f();
            if s.len() > 1500 {
                let mut n = 1500;
                while !s.is_char_boundary(n) {
                    n -= 1;
                }
                s.truncate(n);
                s.push('…');
            }
            self.samples.push(s);
        }
    }
    pub fn violation(&mut self, prop: &str, key: &str, what: impl Into<String>) {
        let mut what: String = what.into();
        if what.len() > 6000 {
            let mut n = 6000;
            while !what.is_char_boundary(n) {
                n -= 1;
            }
            what.truncate(n);
        }
        if self.verbose {
            eprintln!("VIOL {prop} {key} [{}] {what}", self.case);
        }
        if self.viols.iter().filter(|v| v.prop == prop && v.key == key).count() < 3 {
            self.viols.push(Viol {
                prop: prop.into(),
                key: key.into(),
                what,
                case: self.case.clone(),
            });
        }
        self.count(&format!("violations/{prop}/{key}"), 1);
    }
    pub fn dump(&self) -> String {
        let mut o = String::new();
        let _ = writeln!(o, "E {}", self.evals);
        for h in &self.distinct {
            let _ = writeln!(o, "H {h:x}");
        }
        for (k, v) in &self.counters {
            let _ = writeln!(o, "C {v} {k}");
        }
        for (k, s) in &self.sets {
            for h in s {
                let _ = writeln!(o, "S {h:x} {k}");
            }
        }
        for s in &self.samples {
            let _ = writeln!(o, "M {}", esc(s));
        }
        for v in &self.viols {
            let _ = writeln!(o, "V {}\t{}\t{}\t{}", v.prop, v.key, esc(&v.what), esc(&v.case));
        }
        for (k, v) in &self.known_hits {
            let _ = writeln!(o, "K {k}\t{}", esc(v));
        }
        o
    }
    pub fn merge_text(&mut self, s: &str) {
        for l in s.lines() {
            if l.len() < 2 {
                continue;
            }
            let (t, r) = l.split_at(2);
            match t {
                "E " => self.evals += r.parse::<u64>().unwrap_or(0),
                "H " => {
                    self.distinct.insert(u64::from_str_radix(r, 16).unwrap_or(0));
                }
                "C " => {
                    let (n, k) = r.split_once(' ').unwrap_or(("0", ""));
                    self.count(k, n.parse().unwrap_or(0));
                }
                "S " => {
                    let (h, k) = r.split_once(' ').unwrap_or(("0", ""));
                    self.sets
                        .entry(k.into())
                        .or_default()
                        .insert(u64::from_str_radix(h, 16).unwrap_or(0));
                }
                "M " => self.samples.push(unesc(r)),
                "V " => {
                    let p: Vec<&str> = r.split('\t').collect();
                    if p.len() == 4 {
                        self.viols.push(Viol {
                            prop: p[0].into(),
                            key: p[1].into(),
                            what: unesc(p[2]),
                            case: unesc(p[3]),
                        });
                    }
                }
                "K " => {
                    let (k, v) = r.split_once('\t').unwrap_or((r, ""));
                    self.known_hits.insert(k.into(), unesc(v));
                }
                _ => {}
            }
        }
    }
}

fn esc(s: &str) -> String {
    s.replace('\\', "\\\\").replace('\n', "\\n").replace('\t', "\\t").replace('\r', "\\r")
}
fn unesc(s: &str) -> String {
    let mut o = String::new();
    let mut it = s.chars();
    while let Some(c) = it.next() {
        if c == '\\' {
            match it.next() {
                Some('n') => o.push('\n'),
                Some('t') => o.push('\t'),
                Some('r') => o.push('\r'),
                Some(c) => o.push(c),
                None => {}
            }
        } else {
            o.push(c);
        }
    }
    o
}

pub fn json_str(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 || c == '\u{7f}' => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

// ---- panics: message and location of the last one, for attribution
thread_local! {
    static LAST_PANIC: RefCell<Option<String>> = const { RefCell::new(None) };
}
pub static PANICS: AtomicU64 = AtomicU64::new(0);

pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|i| {
        PANICS.fetch_add(1, Relaxed);
        let msg = i
            .payload()
            .downcast_ref::<&str>()
            .map(|s| (*s).to_string())
            .or_else(|| i.payload().downcast_ref::<String>().cloned())
            .unwrap_or_default();
        let loc = i.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        LAST_PANIC.with(|p| *p.borrow_mut() = Some(format!("{loc}: {msg}")));
        if std::env::var_os("AMQPMON_BT").is_some() {
            eprintln!("PANIC {loc}: {msg}\n{}", std::backtrace::Backtrace::force_capture());
        }
    }));
}
pub fn take_panic() -> Option<String> {
    LAST_PANIC.with(|p| p.borrow_mut().take())
}

/// Runs `f`; a panic becomes Err(location: message)
pub fn catch<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    take_panic();
    std::panic::catch_unwind(std::panic::AssertUnwindSafe(f))
        .map_err(|_| take_panic().unwrap_or_else(|| "panic".into()))
}
/// location without line numbers (stable signature)
pub fn panic_site(p: &str) -> String {
    let f = p.split(':').next().unwrap_or("?");
    let f = f.rsplit("/repo/").next().unwrap_or(f);
    f.rsplit("index.crates.io-").next().unwrap_or(f).to_string()
}
