//! Shared-memory progress page: survives the worker's death, so the supervisor knows which case
//! was running, and drives the CPU-time watchdog.
use std::os::fd::AsRawFd;
use std::sync::atomic::{AtomicPtr, AtomicU64, Ordering::SeqCst};

#[repr(C)]
pub struct Page {
    pub case: AtomicU64,
    pub refused: AtomicU64,
    pub hang: AtomicU64,
    pub label_len: AtomicU64,
    pub label: [u8; 4000],
}
static PAGE: AtomicPtr<Page> = AtomicPtr::new(std::ptr::null_mut());

pub fn open(path: &str) -> &'static Page {
    let f = std::fs::OpenOptions::new()
        .read(true)
        .write(true)
        .create(true)
        .truncate(false)
        .open(path)
        .unwrap();
    f.set_len(size_of::<Page>() as u64).unwrap();
    let p = unsafe {
        libc::mmap(
            std::ptr::null_mut(),
            size_of::<Page>(),
            libc::PROT_READ | libc::PROT_WRITE,
            libc::MAP_SHARED,
            f.as_raw_fd(),
            0,
        )
    };
    assert!(p != libc::MAP_FAILED);
    unsafe { &*(p as *const Page) }
}
pub fn attach(path: &str) {
    let p = open(path);
    PAGE.store(std::ptr::from_ref(p).cast_mut(), SeqCst);
}
pub fn set(case: u64, label: &str) {
    let p = PAGE.load(SeqCst);
    if !p.is_null() {
        let b = label.as_bytes();
        let n = b.len().min(4000);
        unsafe {
            (&raw mut (*p).label).cast::<u8>().copy_from_nonoverlapping(b.as_ptr(), n);
            (*p).label_len.store(n as u64, SeqCst);
            (*p).case.store(case + 1, SeqCst);
        }
    }
}
pub fn label(p: &Page) -> String {
    let n = (p.label_len.load(SeqCst) as usize).min(4000);
    String::from_utf8_lossy(&p.label[..n]).into_owned()
}
/// called from the allocator: must not allocate
pub fn refused(n: usize) {
    let p = PAGE.load(SeqCst);
    if !p.is_null() {
        unsafe { (*p).refused.store(n as u64, SeqCst) };
    }
}

/// Thread that ends the process when one case burns more than `limit_s` of CPU time.  CPU time of
/// this process, not wall-clock, so a loaded machine cannot trip it.
pub fn watchdog(limit_s: f64) {
    std::thread::spawn(move || {
        let mut last = u64::MAX;
        let mut at = 0.0;
        loop {
            std::thread::sleep(std::time::Duration::from_millis(200));
            let p = PAGE.load(SeqCst);
            if p.is_null() {
                continue;
            }
            let c = unsafe { (*p).case.load(SeqCst) };
            let now = cpu();
            if c != last {
                last = c;
                at = now;
            } else if now - at > limit_s {
                unsafe {
                    (*p).hang.store(c, SeqCst);
                    libc::_exit(97);
                }
            }
        }
    });
}
pub fn cpu() -> f64 {
    let mut t = libc::timespec { tv_sec: 0, tv_nsec: 0 };
    unsafe { libc::clock_gettime(libc::CLOCK_PROCESS_CPUTIME_ID, &raw mut t) };
    t.tv_sec as f64 + t.tv_nsec as f64 / 1e9
}
