//! Threads and descriptors that the system refuses to create, as it does when a limit has been reached.
//!
//! The functions by which the standard library creates threads, copies descriptors and accepts connections are
//! replaced in this binary; a plan tells which of the next calls of one of them fail.
use std::collections::VecDeque;
use std::sync::atomic::{AtomicBool, Ordering};
use std::sync::{Mutex, OnceLock};
use std::thread;

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum What {
    Thread,
    Copy,
    Accept,
}

struct Plan {
    what: What,
    /// None: threads that have a name, which those of the harness do not
    by: Option<thread::ThreadId>,
    refuse: VecDeque<bool>,
    refused: usize,
}

static ACTIVE: AtomicBool = AtomicBool::new(false);
static PLAN: Mutex<Option<Plan>> = Mutex::new(None);

type Create = unsafe extern "C" fn(*mut libc::pthread_t, *const libc::pthread_attr_t, extern "C" fn(*mut libc::c_void) -> *mut libc::c_void, *mut libc::c_void) -> libc::c_int;

fn plan() -> std::sync::MutexGuard<'static, Option<Plan>> {
    match PLAN.lock() {
        Ok(g) => g,
        Err(p) => p.into_inner(),
    }
}

fn refuses(what: What) -> bool {
    if !ACTIVE.load(Ordering::SeqCst) {
        return false;
    }
    let me = thread::current();
    let mut plan = plan();
    let Some(p) = plan.as_mut() else { return false };
    let meant = p.what == what && match p.by {
        _ if what == What::Accept => true,
        Some(id) => id == me.id(),
        None => me.name().is_some_and(|n| n != "main"),
    };
    let no = meant && p.refuse.pop_front().unwrap_or(false);
    p.refused += no as usize;
    no
}

unsafe fn next(cell: &OnceLock<usize>, name: &std::ffi::CStr) -> usize {
    *cell.get_or_init(|| libc::dlsym(libc::RTLD_NEXT, name.as_ptr()) as usize)
}

#[no_mangle]
pub unsafe extern "C" fn pthread_create(thread: *mut libc::pthread_t, attr: *const libc::pthread_attr_t, start: extern "C" fn(*mut libc::c_void) -> *mut libc::c_void, arg: *mut libc::c_void) -> libc::c_int {
    static REAL: OnceLock<usize> = OnceLock::new();
    if refuses(What::Thread) {
        return libc::EAGAIN;
    }
    let real: Create = std::mem::transmute(next(&REAL, c"pthread_create"));
    real(thread, attr, start, arg)
}

/// No call has more than one further argument, and none of the others' types is wider than this one.
#[no_mangle]
pub unsafe extern "C" fn fcntl(fd: libc::c_int, cmd: libc::c_int, arg: usize) -> libc::c_int {
    static REAL: OnceLock<usize> = OnceLock::new();
    if cmd == libc::F_DUPFD_CLOEXEC && refuses(What::Copy) {
        *libc::__errno_location() = libc::EMFILE;
        return -1;
    }
    let real: unsafe extern "C" fn(libc::c_int, libc::c_int, usize) -> libc::c_int = std::mem::transmute(next(&REAL, c"fcntl"));
    real(fd, cmd, arg)
}

#[no_mangle]
pub unsafe extern "C" fn accept4(fd: libc::c_int, addr: *mut libc::sockaddr, len: *mut libc::socklen_t, flags: libc::c_int) -> libc::c_int {
    static REAL: OnceLock<usize> = OnceLock::new();
    if refuses(What::Accept) {
        *libc::__errno_location() = libc::EMFILE;
        return -1;
    }
    let real: unsafe extern "C" fn(libc::c_int, *mut libc::sockaddr, *mut libc::socklen_t, libc::c_int) -> libc::c_int = std::mem::transmute(next(&REAL, c"accept4"));
    real(fd, addr, len, flags)
}

/// Runs `f` while threads are refused as told: those that the calling thread creates, or else those that named threads create.
/// Also tells how many were refused.
pub fn scarce<T>(mine: bool, refuse: &[bool], f: impl FnOnce() -> T) -> (T, usize) {
    scarce_of(What::Thread, mine, refuse, f)
}

/// The same for copies of descriptors, or for connections whoever accepts them.
pub fn scarce_of<T>(what: What, mine: bool, refuse: &[bool], f: impl FnOnce() -> T) -> (T, usize) {
    struct End;
    impl Drop for End {
        fn drop(&mut self) {
            ACTIVE.store(false, Ordering::SeqCst);
        }
    }
    let by = if mine { Some(thread::current().id()) } else { None };
    *plan() = Some(Plan { what, by, refuse: refuse.iter().copied().collect(), refused: 0 });
    let end = End;
    ACTIVE.store(true, Ordering::SeqCst);
    let r = f();
    drop(end);
    let refused = plan().take().map_or(0, |p| p.refused);
    (r, refused)
}

/// How many threads have been refused so far.
pub fn refused() -> usize {
    plan().as_ref().map_or(0, |p| p.refused)
}
