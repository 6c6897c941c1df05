//! Preemption injection for the multi-threaded workloads.
//!
//! Threads that opted in are delayed at random at every allocation, deallocation, wall-clock read
//! and tracing event (all of which lie between and inside the critical sections of the code under
//! test), and a signal thread suspends them at arbitrary instructions.
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};

static LEVEL: AtomicU64 = AtomicU64::new(0);
pub static POINTS: AtomicU64 = AtomicU64::new(0);
pub static DELAYS: AtomicU64 = AtomicU64::new(0);
pub static SIGNALS: AtomicU64 = AtomicU64::new(0);

thread_local! {
    static STATE: Cell<u64> = const { Cell::new(0) };
}

/// Opts the calling thread in (`seed` != 0) or out (0).
pub fn enroll(seed: u64) {
    STATE.set(seed);
}

/// One in `n` points delays; 0 disables.
pub fn set_level(n: u64) {
    LEVEL.store(n, Ordering::Relaxed);
}

#[inline]
pub fn point() {
    let level = LEVEL.load(Ordering::Relaxed);
    if level == 0 {
        return;
    }
    let s = STATE.get();
    if s == 0 {
        return;
    }
    let mut x = s;
    x ^= x << 13;
    x ^= x >> 7;
    x ^= x << 17;
    STATE.set(if x == 0 { 1 } else { x });
    if x % level == 0 {
        DELAYS.fetch_add(1, Ordering::Relaxed);
        let k = (x >> 32) % 16;
        if k < 9 {
            unsafe { libc::sched_yield() };
        } else if k < 15 {
            for _ in 0..((x >> 40) % 400) {
                std::hint::spin_loop();
            }
        } else {
            let ts = libc::timespec { tv_sec: 0, tv_nsec: ((x >> 40) % 60_000) as i64 };
            unsafe { libc::syscall(libc::SYS_nanosleep, &ts, std::ptr::null_mut::<libc::timespec>()) };
        }
    }
}

pub struct ChaosAlloc;

unsafe impl GlobalAlloc for ChaosAlloc {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        point();
        unsafe { System.alloc(l) }
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        unsafe { System.dealloc(p, l) };
        point();
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        unsafe { System.alloc_zeroed(l) }
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        unsafe { System.realloc(p, l, n) }
    }
}

extern "C" fn on_signal(_: libc::c_int) {
    // async-signal-safe: one relaxed add and one nanosleep
    let n = SIGNALS.fetch_add(1, Ordering::Relaxed);
    let ns = (n.wrapping_mul(2_654_435_761) >> 7) % 150_000;
    let ts = libc::timespec { tv_sec: 0, tv_nsec: ns as i64 };
    unsafe {
        let e = *libc::__errno_location();
        libc::syscall(libc::SYS_nanosleep, &ts, std::ptr::null_mut::<libc::timespec>());
        *libc::__errno_location() = e;
    }
}

/// Periodically suspends the given threads for random times while it lives.
pub struct Preempter {
    stop: std::sync::Arc<AtomicBool>,
    handle: Option<std::thread::JoinHandle<()>>,
}

pub fn install_signal_handler() {
    unsafe {
        let mut sa: libc::sigaction = std::mem::zeroed();
        sa.sa_sigaction = on_signal as *const () as usize;
        sa.sa_flags = libc::SA_RESTART;
        libc::sigemptyset(&mut sa.sa_mask);
        libc::sigaction(libc::SIGUSR2, &sa, std::ptr::null_mut());
    }
}

/// Kernel thread id of the caller.
pub fn gettid() -> i32 {
    unsafe { libc::syscall(libc::SYS_gettid) as i32 }
}

impl Preempter {
    pub fn start(tids: Vec<i32>, seed: u64) -> Self {
        install_signal_handler();
        let stop = std::sync::Arc::new(AtomicBool::new(false));
        let stop2 = stop.clone();
        let pid = std::process::id() as i32;
        let handle = std::thread::spawn(move || {
            let mut rng = crate::rng::Rng::new(seed);
            while !stop2.load(Ordering::Relaxed) {
                let t = *rng.pick(&tids);
                unsafe { libc::syscall(libc::SYS_tgkill, pid, t, libc::SIGUSR2) };
                let ts = libc::timespec { tv_sec: 0, tv_nsec: rng.range(2_000, 40_000) };
                unsafe { libc::syscall(libc::SYS_nanosleep, &ts, std::ptr::null_mut::<libc::timespec>()) };
            }
        });
        Self { stop, handle: Some(handle) }
    }
}

impl Drop for Preempter {
    fn drop(&mut self) {
        self.stop.store(true, Ordering::Relaxed);
        if let Some(h) = self.handle.take() {
            let _ = h.join();
        }
    }
}

/// A tracing subscriber whose only effect is a chaos point per span and event.
pub struct ChaosSubscriber;

impl tracing::Subscriber for ChaosSubscriber {
    fn enabled(&self, _: &tracing::Metadata<'_>) -> bool {
        point();
        true
    }
    fn new_span(&self, _: &tracing::span::Attributes<'_>) -> tracing::span::Id {
        tracing::span::Id::from_u64(1)
    }
    fn record(&self, _: &tracing::span::Id, _: &tracing::span::Record<'_>) {}
    fn record_follows_from(&self, _: &tracing::span::Id, _: &tracing::span::Id) {}
    fn event(&self, _: &tracing::Event<'_>) {
        point();
    }
    fn enter(&self, _: &tracing::span::Id) {}
    fn exit(&self, _: &tracing::span::Id) {}
}
