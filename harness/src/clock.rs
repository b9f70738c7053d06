//! The wall clock as the library sees it, which a check may set forward or back while it runs.
//!
//! The functions by which the standard library asks for the time are replaced in this binary: the
//! real time plus an offset. The clocks that measure elapsed time are left as they are, but a thread
//! may be held up after it read one, as if it had been preempted there.
use std::cell::Cell;
use std::sync::atomic::{AtomicBool, AtomicI64, AtomicU64, Ordering};
use std::thread;
use std::time::{Duration, Instant};

static OFFSET_MS: AtomicI64 = AtomicI64::new(0);
/// Of 1000 readings, how many are followed by a stall (0: none), and the longest one in ms.
static STALL_RATE: AtomicU64 = AtomicU64::new(0);
static STALL_MS: AtomicU64 = AtomicU64::new(0);
static STALL_RANDOM: AtomicU64 = AtomicU64::new(0);

thread_local! {
    static EXEMPT: Cell<bool> = const { Cell::new(false) };
}

/// The calling thread is never stalled.
pub fn exempt() {
    EXEMPT.with(|e| e.set(true));
}

unsafe fn stall(rate: u64) {
    if EXEMPT.try_with(|e| e.get()).unwrap_or(true) {
        return;
    }
    // splitmix64
    let mut z = STALL_RANDOM.fetch_add(0x9e37_79b9_7f4a_7c15, Ordering::Relaxed).wrapping_add(0x9e37_79b9_7f4a_7c15);
    z = (z ^ (z >> 30)).wrapping_mul(0xbf58_476d_1ce4_e5b9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94d0_49bb_1331_11eb);
    z ^= z >> 31;
    if z % 1000 < rate {
        let ms = (z >> 20) % STALL_MS.load(Ordering::Relaxed).max(1);
        libc::usleep((ms * 1000) as libc::c_uint);
    }
}

#[no_mangle]
pub unsafe extern "C" fn clock_gettime(id: libc::clockid_t, ts: *mut libc::timespec) -> libc::c_int {
    let r = libc::syscall(libc::SYS_clock_gettime, id, ts) as libc::c_int;
    if r == 0 && (id == libc::CLOCK_REALTIME || id == libc::CLOCK_REALTIME_COARSE) {
        let t = &mut *ts;
        let ms = OFFSET_MS.load(Ordering::Relaxed);
        t.tv_sec += ms.div_euclid(1000);
        t.tv_nsec += ms.rem_euclid(1000) * 1_000_000;
        if t.tv_nsec >= 1_000_000_000 {
            t.tv_nsec -= 1_000_000_000;
            t.tv_sec += 1;
        }
    }
    let rate = STALL_RATE.load(Ordering::Relaxed);
    if rate > 0 {
        stall(rate);
    }
    r
}

/// How threads of the library are held up: seed, how often (per 1000 readings of a clock), longest (ms).
pub type Stalls = (u64, u64, u64);

/// Runs `f` while threads that are not exempt are held up now and then.
pub fn stalling<T>(stalls: &Option<Stalls>, f: impl FnOnce() -> T) -> T {
    struct End;
    impl Drop for End {
        fn drop(&mut self) {
            STALL_RATE.store(0, Ordering::Relaxed);
        }
    }
    exempt();
    let _end = End;
    if let Some((seed, rate, longest)) = stalls {
        STALL_RANDOM.store(*seed, Ordering::Relaxed);
        STALL_MS.store(*longest, Ordering::Relaxed);
        STALL_RATE.store(*rate, Ordering::Relaxed);
    }
    f()
}

/// Runs `f` while the wall clock is about there (ms since 1970).
pub fn standing<T>(ms: i64, f: impl FnOnce() -> T) -> T {
    let now = std::time::SystemTime::now().duration_since(std::time::UNIX_EPOCH).map_or(0, |d| d.as_millis() as i64);
    OFFSET_MS.store(ms - now, Ordering::Relaxed);
    let r = f();
    OFFSET_MS.store(0, Ordering::Relaxed);
    r
}

/// ms since the step before, and by how many ms the clock is set forward (or back) then.
pub type Step = (u64, i64);

/// Runs `f` while the wall clock is set as told.
pub fn stepping<T>(steps: &[Step], f: impl FnOnce() -> T) -> T {
    struct End<'a>(&'a AtomicBool);
    impl Drop for End<'_> {
        fn drop(&mut self) {
            self.0.store(true, Ordering::Relaxed);
        }
    }
    let over = AtomicBool::new(false);
    let r = thread::scope(|s| {
        s.spawn(|| {
            exempt();
            for (gap, by) in steps {
                let until = Instant::now() + Duration::from_millis(*gap);
                while Instant::now() < until {
                    if over.load(Ordering::Relaxed) {
                        return;
                    }
                    thread::sleep(Duration::from_millis(2));
                }
                OFFSET_MS.fetch_add(*by, Ordering::Relaxed);
            }
        });
        let _end = End(&over);
        f()
    });
    OFFSET_MS.store(0, Ordering::Relaxed);
    r
}

/// Steps from some milliseconds to years, most often none.
pub fn steps() -> proptest::strategy::BoxedStrategy<Vec<Step>> {
    use proptest::prelude::*;
    let size = prop_oneof![
        2 => 1i64..100,
        3 => 100i64..5_000,
        2 => 5_000i64..100_000,
        1 => Just(3_600_000i64),
        1 => 100_000i64..50_000_000_000,
    ];
    let step = (0u64..700, size, any::<bool>()).prop_map(|(gap, by, back)| (gap, if back { -by } else { by }));
    prop_oneof![1 => Just(vec![]), 1 => proptest::collection::vec(step, 1..5)].boxed()
}
