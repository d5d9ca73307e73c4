//! Async plumbing: one runtime per case, a scripted peer's end of an in-memory transport, and the
//! notion of "the endpoint is at rest".
use crate::mon::Mon;
use crate::rng::Rng;
use crate::wire::{Style, V, WFrame, build_frame, parse_frame};
use ntex_io::testing::IoTest;
use std::cell::{Cell, RefCell};
use std::collections::VecDeque;
use std::future::Future;
use std::pin::Pin;
use std::rc::Rc;
use std::task::{Context, Poll};

thread_local! {
    static ACT: Cell<u64> = const { Cell::new(0) };
}
/// Something observable happened (a byte moved, a callback ran, an operation finished)
pub fn activity() {
    ACT.with(|a| a.set(a.get() + 1));
}
pub fn activity_now() -> u64 {
    ACT.with(Cell::get)
}

/// Gives every other task a chance to run
pub struct Yield(bool);
impl Future for Yield {
    type Output = ();
    fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<()> {
        if self.0 {
            Poll::Ready(())
        } else {
            self.0 = true;
            cx.waker().wake_by_ref();
            Poll::Pending
        }
    }
}
pub fn yield_now() -> Yield {
    Yield(false)
}

pub fn block_on<T: 'static>(f: impl Future<Output = T> + 'static) -> T {
    ntex_rt::System::build().name("mon").build(ntex::rt::DefaultRuntime).block_on(f)
}

pub fn spawn(f: impl Future<Output = ()> + 'static) {
    drop(ntex_rt::spawn(f));
}

enum Item {
    Frame(Vec<u8>, WFrame),
    Raw(Vec<u8>),
}

/// The peer's end of the transport
pub struct Wire {
    io: Option<IoTest>,
    inbuf: Vec<u8>,
    out: VecDeque<Item>,
    pub mon: Mon,
    pub style: Style,
    /// frames the endpoint emitted since last taken
    pub got: VecDeque<WFrame>,
    /// bytes the transport takes per drain (slow peer)
    pub cap: usize,
    /// emitted bytes are not a frame sequence any more
    pub broken: bool,
    pub ext: bool,
    reset: Option<IoTest>,
    pub tx_bytes: u64,
    pub rx_bytes: u64,
    /// services of the application that may be unready: ready again before the endpoint is to rest
    pub app: Option<Rc<crate::app::App>>,
}

impl Wire {
    pub fn new(io: IoTest, style: Style) -> Wire {
        io.remote_buffer_cap(1 << 30);
        Wire {
            io: Some(io),
            inbuf: vec![],
            out: VecDeque::new(),
            mon: Mon::default(),
            style,
            got: VecDeque::new(),
            cap: 1 << 30,
            broken: false,
            ext: false,
            reset: None,
            tx_bytes: 0,
            rx_bytes: 0,
            app: None,
        }
    }
    pub fn is_open(&self) -> bool {
        self.io.is_some()
    }
    /// Transport loss: end of stream, or an error
    pub fn cut(&mut self, err: bool) {
        self.drain();
        if let Some(io) = self.io.take() {
            self.mon.note(if err { "transport error" } else { "transport lost" });
            if err {
                io.read_error(std::io::Error::other("reset"));
                io.write_error(std::io::Error::other("reset"));
                // keep the handle alive: the error must be what ends it
                self.reset = Some(io);
            }
            activity();
        }
    }
    pub fn io(&self) -> Option<&IoTest> {
        self.io.as_ref()
    }

    /// Reads what the endpoint wrote and feeds it to the monitor
    pub fn drain(&mut self) -> usize {
        let Some(io) = &self.io else { return 0 };
        let b = io.read_any();
        io.remote_buffer_cap(self.cap);
        if b.is_empty() {
            return 0;
        }
        activity();
        let n = b.len();
        self.tx_bytes += n as u64;
        self.inbuf.extend_from_slice(&b);
        while !self.broken {
            if self.inbuf.len() >= 8 && &self.inbuf[..4] == b"AMQP" {
                let h: Vec<u8> = self.inbuf.drain(..8).collect();
                self.mon.tx_header(&h);
                continue;
            }
            if self.inbuf.len() < 4 || (self.inbuf[0] == b'A' && self.inbuf.len() < 8) {
                break;
            }
            let size = u32::from_be_bytes(self.inbuf[..4].try_into().unwrap()) as usize;
            if size < 8 {
                self.mon.v("C02", "frame-size", format!("endpoint emitted a frame of declared size {size}"));
                self.broken = true;
                break;
            }
            if self.inbuf.len() < size {
                break;
            }
            let fr: Vec<u8> = self.inbuf.drain(..size).collect();
            match parse_frame(&fr) {
                Ok(f) => {
                    self.mon.tx(&f, size);
                    self.got.push_back(f);
                }
                Err(e) => {
                    self.mon.v("C03", "malformed-frame", format!("endpoint emitted a malformed frame: {e:?} {fr:02x?}"));
                    self.broken = true;
                }
            }
        }
        n
    }

    pub fn queue(&mut self, ftype: u8, ch: u16, perf: Option<&V>, payload: &[u8]) {
        let ext: &[u8] = if self.ext { &[1, 2, 3, 4] } else { &[] };
        let b = build_frame(ftype, ch, perf, payload, &mut self.style, ext);
        let f = parse_frame(&b).expect("own frame");
        self.out.push_back(Item::Frame(b, f));
    }
    pub fn queue_raw(&mut self, b: Vec<u8>) {
        self.out.push_back(Item::Raw(b));
    }
    pub fn queued(&self) -> usize {
        self.out.len()
    }

    fn write(&mut self, b: &[u8]) {
        self.rx_bytes += b.len() as u64;
        if let Some(io) = &self.io {
            io.write(b);
        }
        activity();
    }

    /// Writes everything queued: in one burst, or in random chunks with the endpoint running in between
    pub async fn flush(&mut self, rng: &mut Rng) {
        self.drain();
        if self.out.is_empty() {
            return;
        }
        let mode = rng.below(10);
        if mode < 6 {
            let mut all = vec![];
            while let Some(i) = self.out.pop_front() {
                match i {
                    Item::Frame(b, f) => {
                        self.mon.rx(&f);
                        all.extend_from_slice(&b);
                    }
                    Item::Raw(b) => all.extend_from_slice(&b),
                }
            }
            self.write(&all);
        } else {
            // (end offset, frame)
            let mut all = vec![];
            let mut ends = VecDeque::new();
            while let Some(i) = self.out.pop_front() {
                match i {
                    Item::Frame(b, f) => {
                        all.extend_from_slice(&b);
                        ends.push_back((all.len(), f));
                    }
                    Item::Raw(b) => all.extend_from_slice(&b),
                }
            }
            let max = match mode {
                6 => 1 + all.len() / 40,
                7 => 7,
                8 => 64,
                _ => 1 + all.len(),
            }
            .max(1 + all.len() / 60);
            let mut pos = 0;
            while pos < all.len() {
                let n = rng.range(1, max).min(all.len() - pos);
                while ends.front().is_some_and(|e| e.0 <= pos + n) {
                    let (_, f) = ends.pop_front().unwrap();
                    self.mon.rx(&f);
                }
                let chunk = all[pos..pos + n].to_vec();
                self.write(&chunk);
                pos += n;
                for _ in 0..rng.below(4) {
                    yield_now().await;
                    self.drain();
                }
            }
        }
    }

    /// Runs the endpoint until nothing observable happens any more
    pub async fn settle(&mut self) {
        if let Some(a) = &self.app
            && a.ready.iter().any(|r| r.off.get())
        {
            self.mon.note("services are ready");
            a.ready.iter().for_each(|r| r.set(false));
        }
        let mut idle = 0;
        let mut rounds = 0u32;
        let mut last = activity_now();
        while idle < 24 {
            yield_now().await;
            self.drain();
            let now = activity_now();
            if now == last {
                idle += 1;
            } else {
                idle = 0;
                last = now;
            }
            rounds += 1;
            if rounds > 200_000 {
                self.mon.v("S10", "never-at-rest", "the endpoint keeps emitting without input".to_string());
                return;
            }
        }
    }
}

/// Result slot of a spawned operation
pub struct Slot<T>(Rc<RefCell<Option<T>>>);
impl<T> Clone for Slot<T> {
    fn clone(&self) -> Self {
        Slot(self.0.clone())
    }
}
impl<T: 'static> Slot<T> {
    pub fn run(f: impl Future<Output = T> + 'static) -> Slot<T> {
        let s = Slot(Rc::new(RefCell::new(None)));
        let s2 = s.clone();
        spawn(async move {
            let r = f.await;
            *s2.0.borrow_mut() = Some(r);
            activity();
        });
        s
    }
    /// Runs until `stop` is set: the operation is then dropped unfinished
    pub fn run_cancellable(f: impl Future<Output = T> + 'static, stop: Rc<Cell<bool>>, waker: Rc<RefCell<Option<std::task::Waker>>>) -> Slot<T> {
        let s = Slot(Rc::new(RefCell::new(None)));
        let s2 = s.clone();
        spawn(async move {
            let mut f = Box::pin(f);
            let r = std::future::poll_fn(move |cx| {
                if stop.get() {
                    return Poll::Ready(None);
                }
                *waker.borrow_mut() = Some(cx.waker().clone());
                f.as_mut().poll(cx).map(Some)
            })
            .await;
            if let Some(r) = r {
                *s2.0.borrow_mut() = Some(r);
            }
            activity();
        });
        s
    }
    pub fn done(&self) -> bool {
        self.0.borrow().is_some()
    }
    pub fn take(&self) -> Option<T> {
        self.0.borrow_mut().take()
    }
    pub fn with<R>(&self, f: impl FnOnce(Option<&T>) -> R) -> R {
        f(self.0.borrow().as_ref())
    }
}
