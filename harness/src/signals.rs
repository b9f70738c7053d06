//! Signals that interrupt whatever system call a thread of this process waits in.
use std::fs;
use std::sync::atomic::{AtomicBool, Ordering};
use std::sync::Once;
use std::thread;
use std::time::Duration;

extern "C" fn nothing(_: libc::c_int) {}

fn install() {
    static ONCE: Once = Once::new();
    ONCE.call_once(|| unsafe {
        let mut a: libc::sigaction = std::mem::zeroed();
        a.sa_sigaction = nothing as extern "C" fn(libc::c_int) as usize;
        // without SA_RESTART
        libc::sigaction(libc::SIGUSR1, &a, std::ptr::null_mut());
    });
}

/// Runs `f` while every thread of this process gets a signal about every `us` microseconds.
pub fn interrupted<T>(us: u64, f: impl FnOnce() -> T) -> T {
    struct End<'a>(&'a AtomicBool);
    impl Drop for End<'_> {
        fn drop(&mut self) {
            self.0.store(true, Ordering::Relaxed);
        }
    }
    install();
    let over = AtomicBool::new(false);
    thread::scope(|s| {
        s.spawn(|| unsafe {
            let (pid, me) = (libc::getpid(), libc::syscall(libc::SYS_gettid));
            while !over.load(Ordering::Relaxed) {
                let tasks = fs::read_dir("/proc/self/task").into_iter().flatten().flatten();
                for t in tasks.filter_map(|t| t.file_name().to_str().and_then(|t| t.parse::<libc::c_long>().ok())) {
                    if t != me {
                        libc::syscall(libc::SYS_tgkill, pid, t, libc::SIGUSR1);
                    }
                }
                thread::sleep(Duration::from_micros(us));
            }
        });
        let _end = End(&over);
        f()
    })
}
