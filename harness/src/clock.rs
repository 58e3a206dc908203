//! Per-thread control of the wall clock: this definition takes precedence over libc's.
use std::cell::Cell;
use std::sync::atomic::{AtomicI32, AtomicI64, Ordering};
thread_local! { static FAKE: Cell<Option<(i64, i64)>> = const { Cell::new(None) }; }
thread_local! { static ASKED: Cell<u64> = const { Cell::new(0) }; }

/// Set in processes that are to look alike: their process id, and the count of their clock readings.
static ALIKE: AtomicI32 = AtomicI32::new(0);
static READS: AtomicI64 = AtomicI64::new(0);

#[no_mangle]
pub unsafe extern "C" fn getpid() -> libc::pid_t {
    match ALIKE.load(Ordering::Relaxed) {
        0 => libc::syscall(libc::SYS_getpid) as libc::pid_t,
        p => p,
    }
}
#[no_mangle]
pub unsafe extern "C" fn clock_gettime(id: libc::clockid_t, ts: *mut libc::timespec) -> libc::c_int {
    if ALIKE.load(Ordering::Relaxed) != 0 && id != libc::CLOCK_REALTIME {
        (*ts).tv_sec = 1000;
        (*ts).tv_nsec = READS.fetch_add(1, Ordering::Relaxed) % 1_000_000 * 1000;
        return 0;
    }
    if id == libc::CLOCK_REALTIME || id == libc::CLOCK_REALTIME_COARSE {
        if let Ok(Some((s, n))) = FAKE.try_with(|f| f.get()) {
            let _ = ASKED.try_with(|a| a.set(a.get() + 1));
            (*ts).tv_sec = s;
            (*ts).tv_nsec = n;
            return 0;
        }
    }
    libc::syscall(libc::SYS_clock_gettime, id as libc::c_long, ts) as libc::c_int
}
/// Runs f with the wall clock of this thread set to (seconds, nanoseconds).
pub fn at<T>(s: i64, n: i64, f: impl FnOnce() -> T) -> T {
    struct G;
    impl Drop for G {
        fn drop(&mut self) {
            FAKE.with(|f| f.set(None));
        }
    }
    let _g = G;
    FAKE.with(|f| f.set(Some((s, n))));
    f()
}
/// Freezes the wall clock of this thread for good.
pub fn freeze_forever(s: i64) {
    FAKE.with(|f| f.set(Some((s, 0))));
}
/// Makes this process look like any other of its kind: the process id of a container's first
/// process, clocks that tell the same times.
pub fn look_alike() {
    ALIKE.store(1, Ordering::Relaxed);
}
