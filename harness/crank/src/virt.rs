//! Virtual time: a process under test that sleeps does not wait, its clock jumps
//! instead. The jump is kept in a memory-mapped file, so that the observer can
//! time-stamp what it sees on the same clock.
use std::cell::Cell;
use std::sync::atomic::{AtomicPtr, AtomicU64, Ordering};

static OFF: AtomicPtr<AtomicU64> = AtomicPtr::new(std::ptr::null_mut());
thread_local! { static NAP: Cell<bool> = Cell::new(false); }
/// in the observer's own process: threads marked like this do not wait in a sleep
pub fn no_naps() { NAP.with(|n| n.set(true)) }

pub struct Shared(*mut AtomicU64);
unsafe impl Send for Shared {}
unsafe impl Sync for Shared {}
impl Shared {
    pub fn open(path: &str) -> Shared {
        use std::os::unix::io::AsRawFd;
        let f = std::fs::OpenOptions::new().read(true).write(true).create(true).open(path).unwrap();
        f.set_len(4096).unwrap();
        let p = unsafe { libc::mmap(std::ptr::null_mut(), 4096, libc::PROT_READ | libc::PROT_WRITE, libc::MAP_SHARED, f.as_raw_fd(), 0) };
        assert!(p != libc::MAP_FAILED);
        Shared(p as *mut AtomicU64)
    }
    pub fn now(&self) -> u64 { real(libc::CLOCK_MONOTONIC) + unsafe { &*self.0 }.load(Ordering::SeqCst) }
    pub fn take_over(&self) { OFF.store(self.0, Ordering::SeqCst) }
    pub fn close(self) { unsafe { libc::munmap(self.0 as *mut libc::c_void, 4096); } }
}
fn real(c: libc::clockid_t) -> u64 {
    let mut t = libc::timespec { tv_sec: 0, tv_nsec: 0 };
    unsafe { libc::syscall(libc::SYS_clock_gettime, c, &mut t) };
    t.tv_sec as u64 * 1_000_000_000 + t.tv_nsec as u64
}
#[no_mangle]
pub unsafe extern "C" fn clock_gettime(c: libc::clockid_t, t: *mut libc::timespec) -> libc::c_int {
    let r = libc::syscall(libc::SYS_clock_gettime, c, t) as libc::c_int;
    let p = OFF.load(Ordering::Relaxed);
    if r == 0 && !p.is_null() && c == libc::CLOCK_MONOTONIC {
        let n = (*t).tv_sec as u64 * 1_000_000_000 + (*t).tv_nsec as u64 + (*p).load(Ordering::SeqCst);
        (*t).tv_sec = (n / 1_000_000_000) as i64;
        (*t).tv_nsec = (n % 1_000_000_000) as i64;
    }
    r
}
unsafe fn nap(req: *const libc::timespec) -> bool {
    let p = OFF.load(Ordering::Relaxed);
    if !p.is_null() {
        (*p).fetch_add((*req).tv_sec as u64 * 1_000_000_000 + (*req).tv_nsec as u64, Ordering::SeqCst);
        libc::sched_yield();
        return true;
    }
    NAP.try_with(|n| n.get()).unwrap_or(false)
}
#[no_mangle]
pub unsafe extern "C" fn nanosleep(req: *const libc::timespec, rem: *mut libc::timespec) -> libc::c_int {
    if nap(req) { return 0 }
    libc::syscall(libc::SYS_nanosleep, req, rem) as libc::c_int
}
#[no_mangle]
pub unsafe extern "C" fn clock_nanosleep(c: libc::clockid_t, flags: libc::c_int, req: *const libc::timespec, rem: *mut libc::timespec) -> libc::c_int {
    if flags == 0 && nap(req) { return 0 }
    libc::syscall(libc::SYS_clock_nanosleep, c, flags, req, rem) as libc::c_int
}
