//! Virtual wall clock.
//!
//! `clock_gettime` is interposed: on threads that belong to a virtual-time case `CLOCK_REALTIME`
//! is `base + (tokio::time::Instant::now() - t0)`, i.e. it follows tokio's paused clock, so
//! `Utc::now()` in the code under test and its timers agree. Everything else goes to the kernel.
use std::cell::Cell;
use std::time::Duration;

thread_local! {
    // (active, base nanos since epoch, t0)
    static ACTIVE: Cell<bool> = const { Cell::new(false) };
    static BUSY: Cell<bool> = const { Cell::new(false) };
    static BASE: Cell<i128> = const { Cell::new(0) };
    static T0: Cell<Option<tokio::time::Instant>> = const { Cell::new(None) };
}

/// # Safety
/// Same contract as the libc function it replaces.
#[unsafe(no_mangle)]
pub unsafe extern "C" fn clock_gettime(clock: libc::clockid_t, ts: *mut libc::timespec) -> libc::c_int {
    if clock == libc::CLOCK_REALTIME {
        if ACTIVE.get() && !BUSY.get() {
            BUSY.set(true);
            if let Some(t0) = T0.get() {
                let nanos = BASE.get() + tokio::time::Instant::now().duration_since(t0).as_nanos() as i128;
                unsafe {
                    (*ts).tv_sec = nanos.div_euclid(1_000_000_000) as libc::time_t;
                    (*ts).tv_nsec = nanos.rem_euclid(1_000_000_000) as libc::c_long;
                }
                BUSY.set(false);
                return 0;
            }
            BUSY.set(false);
        } else {
            crate::chaos::point();
        }
    }
    unsafe { libc::syscall(libc::SYS_clock_gettime, clock, ts) as libc::c_int }
}

fn install(base_ms: i64, t0: tokio::time::Instant) {
    BASE.set(base_ms as i128 * 1_000_000);
    T0.set(Some(t0));
    ACTIVE.set(true);
}

fn uninstall() {
    ACTIVE.set(false);
    T0.set(None);
}

/// 2024-03-01T00:00:00Z, just after a leap day.
pub const DEFAULT_BASE_MS: i64 = 1_709_251_200_000;

/// Runs `fut` on a fresh current-thread runtime with a paused clock and the virtual wall clock
/// starting at `base_ms` (milliseconds since the epoch).
pub fn run_virtual<F: Future>(base_ms: i64, fut: F) -> F::Output {
    let cell: std::sync::Arc<std::sync::Mutex<Option<tokio::time::Instant>>> = Default::default();
    let cell2 = cell.clone();
    let rt = tokio::runtime::Builder::new_current_thread()
        .enable_all()
        .start_paused(true)
        .on_thread_start(move || {
            // blocking pool threads
            if let Some(t0) = *cell2.lock().unwrap() {
                install(base_ms, t0);
            }
        })
        .on_thread_stop(uninstall)
        .build()
        .expect("runtime");
    let out = rt.block_on(async {
        let t0 = tokio::time::Instant::now();
        *cell.lock().unwrap() = Some(t0);
        install(base_ms, t0);
        fut.await
    });
    // Tasks dropped with the runtime must still see the virtual clock.
    {
        let _g = rt.enter();
    }
    rt.shutdown_timeout(Duration::from_secs(5));
    uninstall();
    out
}

/// Fails if the interposition is not effective (then no timing verdict can be trusted).
pub fn self_check() -> Result<(), String> {
    let (a, b, c) = run_virtual(DEFAULT_BASE_MS, async {
        let a = chrono::Utc::now();
        tokio::time::sleep(Duration::from_secs(3600)).await;
        let b = chrono::Utc::now();
        let c = tokio::task::spawn_blocking(chrono::Utc::now).await.unwrap();
        (a, b, c)
    });
    let ok = a.timestamp_millis() == DEFAULT_BASE_MS && b.timestamp_millis() == DEFAULT_BASE_MS + 3_600_000 && c == b;
    let real = chrono::Utc::now();
    if !ok || (real - a).num_days() < 30 {
        return Err(format!("virtual clock is not effective: {a} {b} {c} {real}"));
    }
    Ok(())
}
