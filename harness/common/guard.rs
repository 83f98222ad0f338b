//! Supervision of the code under test: a call that never ends, allocates without
//! bound or crashes the process (on chain: a transaction that fails) is noticed
//! from outside, its thread is abandoned, and the history is run again with that
//! one call answered by "did not end", so that the monitors judge it like any
//! other refusal.
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::{Cell, RefCell};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicI32, AtomicU64, AtomicU8, AtomicUsize, Ordering::SeqCst};

pub const SLOTS: usize = 256;
pub struct Slot { pub tid: AtomicI32, pub epoch: AtomicU64, pub n: AtomicU64, pub job: AtomicU64, pub flag: AtomicU8, pub dead: AtomicU8 }
const FREE: Slot = Slot { tid: AtomicI32::new(0), epoch: AtomicU64::new(0), n: AtomicU64::new(0), job: AtomicU64::new(0), flag: AtomicU8::new(0), dead: AtomicU8::new(0) };
pub static SLOT: [Slot; SLOTS] = [FREE; SLOTS];
static USED: AtomicUsize = AtomicUsize::new(0);
pub const ENDLESS: u8 = 0;
pub const MEMORY: u8 = 1;
pub const CRASH: u8 = 2;
pub const HOW: [&str; 3] = ["did not end", "asked for memory without bound", "crashed the process"];
const LIVE_MAX: isize = 128 << 20;

thread_local! {
    static ME: Cell<usize> = const { Cell::new(usize::MAX) };
    static ACTIVE: Cell<bool> = const { Cell::new(false) };
    static LIVE: Cell<isize> = const { Cell::new(0) };
    static COUNT: Cell<u64> = const { Cell::new(0) };
    static POISON: RefCell<Vec<(u64, u8)>> = const { RefCell::new(Vec::new()) };
    static HIT: RefCell<Vec<(u64, u8)>> = const { RefCell::new(Vec::new()) };
}

/// supervise the calling thread; false when there is no room left
pub fn adopt() -> bool {
    let i = USED.fetch_add(1, SeqCst);
    if i >= SLOTS { return false }
    SLOT[i].tid.store(unsafe { libc::syscall(libc::SYS_gettid) } as i32, SeqCst);
    ME.with(|m| m.set(i));
    true
}
/// a new history begins on this thread
pub fn begin(job: u64, poison: &[(u64, u8)]) {
    COUNT.with(|c| c.set(0));
    POISON.with(|p| *p.borrow_mut() = poison.to_vec());
    HIT.with(|p| p.borrow_mut().clear());
    let me = ME.with(|m| m.get());
    if me < SLOTS { SLOT[me].job.store(job, SeqCst) }
}
/// the abandoned calls this history went through
pub fn hits() -> Vec<(u64, u8)> { HIT.with(|h| h.borrow().clone()) }

/// one call of the code under test
pub fn call<T>(f: impl FnOnce() -> T) -> Result<T, ()> {
    if ACTIVE.with(|a| a.get()) { return catch_unwind(AssertUnwindSafe(f)).map_err(|_| ()) }
    let n = COUNT.with(|c| { let n = c.get(); c.set(n + 1); n });
    if let Some(k) = POISON.with(|p| p.borrow().iter().find(|x| x.0 == n).cloned()) {
        HIT.with(|h| h.borrow_mut().push(k));
        crate::rt::set_last_panic(HOW[k.1 as usize]);
        return Err(());
    }
    let me = ME.with(|m| m.get());
    if me < SLOTS { SLOT[me].n.store(n, SeqCst); SLOT[me].epoch.fetch_add(1, SeqCst); LIVE.with(|l| l.set(0)); ACTIVE.with(|a| a.set(true)) }
    let r = catch_unwind(AssertUnwindSafe(f)).map_err(|_| ());
    if me < SLOTS { ACTIVE.with(|a| a.set(false)); SLOT[me].epoch.fetch_add(1, SeqCst); }
    r
}

fn park(flag: u8) -> ! {
    ME.with(|m| SLOT[m.get()].flag.store(flag, SeqCst));
    loop { unsafe { libc::pause(); } }
}

pub struct Alloc;
unsafe impl GlobalAlloc for Alloc {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 { note(l.size() as isize); System.alloc(l) }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 { note(l.size() as isize); System.alloc_zeroed(l) }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) { note(-(l.size() as isize)); System.dealloc(p, l) }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 { note(n as isize - l.size() as isize); System.realloc(p, l, n) }
}
#[inline]
fn note(n: isize) {
    let _ = ACTIVE.try_with(|a| if a.get() {
        let v = LIVE.with(|l| { let v = l.get().saturating_add(n); l.set(v); v });
        if v > LIVE_MAX { park(MEMORY) }
    });
}
#[global_allocator]
static ALLOC: Alloc = Alloc;

extern "C" fn on_signal(s: libc::c_int) {
    if ACTIVE.try_with(|a| a.get()).unwrap_or(false) { park(CRASH) }
    unsafe { libc::signal(s, libc::SIG_DFL); libc::raise(s); }
}
/// turns a crash inside a supervised call into a finding (the sanitizer build reports its own)
pub fn watch_crashes() {
    if std::env::var_os("ASAN_OPTIONS").is_some() { return }
    for s in [libc::SIGSEGV, libc::SIGBUS, libc::SIGILL, libc::SIGFPE, libc::SIGABRT] {
        unsafe {
            let mut a: libc::sigaction = std::mem::zeroed();
            a.sa_sigaction = on_signal as usize;
            a.sa_flags = libc::SA_ONSTACK | libc::SA_NODEFER;
            libc::sigaction(s, &a, std::ptr::null_mut());
        }
    }
}

/// seconds of processor time the thread has used
pub fn cpu(tid: i32) -> f64 {
    let t = match std::fs::read_to_string(format!("/proc/self/task/{}/stat", tid)) { Ok(t) => t, Err(_) => return 0.0 };
    let rest: Vec<&str> = t.rsplit(')').next().unwrap_or("").split_whitespace().collect();
    let g = |i: usize| rest.get(i).and_then(|x| x.parse::<f64>().ok()).unwrap_or(0.0);
    (g(11) + g(12)) / 100.0
}

/// outside view: which supervised calls are lost. One watcher only.
pub struct Watch { seen: Vec<(u64, f64)>, limit: f64 }
impl Watch {
    pub fn new(limit: f64) -> Watch { Watch { seen: vec![(0, 0.0); SLOTS], limit } }
    /// (job, call number, how) of calls given up since the last look
    pub fn look(&mut self) -> Vec<(u64, u64, u8)> {
        let mut out = vec![];
        for i in 0..USED.load(SeqCst).min(SLOTS) {
            let s = &SLOT[i];
            if s.dead.load(SeqCst) != 0 { continue }
            let e = s.epoch.load(SeqCst);
            if e % 2 == 0 { continue }
            let f = s.flag.load(SeqCst);
            let c = cpu(s.tid.load(SeqCst));
            if self.seen[i].0 != e { self.seen[i] = (e, c) }
            if f == 0 && c - self.seen[i].1 < self.limit { continue }
            if s.epoch.load(SeqCst) != e { continue }
            s.dead.store(1, SeqCst);
            out.push((s.job.load(SeqCst), s.n.load(SeqCst), f));
        }
        out
    }
}
