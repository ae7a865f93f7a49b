//! Interleavings inside of calls.
//!
//! Two encoders can only influence each other within their calls through writable static memory.
//! While two threads run an encoder each, the static memory of the program is kept inaccessible, so
//! that every access to it traps. The accesses are counted, and before each of them the thread can
//! be made to wait for the other one: they are the points at which interleavings can differ, as in
//! dynamic partial order reduction. One process runs one schedule, so that each starts with the
//! static memory of a new process.
use std::cell::Cell;
use std::sync::atomic::{AtomicU32, AtomicU64, AtomicUsize, Ordering::SeqCst};

const PAGE: usize = 4096;
const BASE: usize = 0x6000_0000_0000;
const MAXREC: usize = 1 << 16;

#[repr(C)]
struct Shared {
    lo: AtomicUsize,
    hi: AtomicUsize,
    /// 1 while accesses are monitored, 0 once the threads run freely.
    active: AtomicU32,
    turn: AtomicU32,
    done: [AtomicU32; 2],
    count: [AtomicU64; 2],
    /// Number of the access before which the thread hands over, plus one.
    plan: [AtomicU64; 2],
    given_up: AtomicU32,
    nrec: AtomicUsize,
    rec: [(AtomicU32, AtomicUsize); MAXREC],
}

thread_local! {
    static TID: Cell<u32> = const { Cell::new(9) };
}

extern "C" {
    fn mprotect(addr: *mut u8, len: usize, prot: i32) -> i32;
    fn mmap(addr: *mut u8, len: usize, prot: i32, flags: i32, fd: i32, off: i64) -> *mut u8;
    fn sigaction(sig: i32, act: *const SigAction, old: *mut SigAction) -> i32;
    fn usleep(us: u32) -> i32;
    fn _exit(code: i32) -> !;
    static mut __data_start: u8;
    static mut _end: u8;
    static __executable_start: u8;
}
#[repr(C)]
struct SigAction {
    handler: usize,
    mask: [u64; 16],
    flags: i32,
    restorer: usize,
}

fn sh() -> &'static Shared {
    unsafe { &*(BASE as *const Shared) }
}
unsafe fn protect(on: bool) {
    let s = sh();
    let (lo, hi) = (s.lo.load(SeqCst), s.hi.load(SeqCst));
    if mprotect(lo as *mut u8, hi - lo, if on { 0 } else { 3 }) != 0 {
        _exit(90);
    }
}
/// Lets the other thread run until it hands back, ends, or is found to be stuck.
fn hand_over(me: u32) {
    let s = sh();
    if s.done[1 - me as usize].load(SeqCst) == 1 {
        return;
    }
    s.turn.store(1 - me, SeqCst);
    let mut waited = 0u32;
    while s.turn.load(SeqCst) != me {
        unsafe { usleep(50) };
        waited += 1;
        // The other one probably waits for a lock held by this one.
        if waited > 8_000 || s.active.load(SeqCst) == 0 {
            s.given_up.store(1, SeqCst);
            s.active.store(0, SeqCst);
            unsafe { protect(false) };
            return;
        }
    }
}
const EFLAGS: usize = 40 + 17 * 8;
const RIP: usize = 40 + 16 * 8;
unsafe extern "C" fn on_segv(_sig: i32, info: *mut u8, uc: *mut u8) {
    let s = sh();
    let addr = *(info.add(16) as *const usize);
    if addr < s.lo.load(SeqCst) || addr >= s.hi.load(SeqCst) {
        _exit(91);
    }
    if s.active.load(SeqCst) == 0 {
        return;
    }
    let t = TID.with(|t| t.get());
    if t < 2 {
        let n = s.count[t as usize].fetch_add(1, SeqCst);
        let r = s.nrec.fetch_add(1, SeqCst);
        if r < MAXREC {
            s.rec[r].0.store(t, SeqCst);
            s.rec[r].1.store(*(uc.add(RIP) as *const usize), SeqCst);
        }
        if s.plan[t as usize].load(SeqCst) == n + 1 {
            hand_over(t);
        }
    }
    if s.active.load(SeqCst) == 0 {
        return;
    }
    // Let this one access through: make the memory accessible for one instruction.
    protect(false);
    *(uc.add(EFLAGS) as *mut u64) |= 0x100;
}
unsafe extern "C" fn on_trap(_sig: i32, _info: *mut u8, uc: *mut u8) {
    *(uc.add(EFLAGS) as *mut u64) &= !0x100;
    if sh().active.load(SeqCst) == 1 {
        protect(true);
    }
}

pub struct Result {
    pub outs: Vec<Vec<Vec<u8>>>,
    /// Thread and instruction (relative to the program) of every access to static memory.
    pub accesses: Vec<(u32, usize)>,
    pub given_up: bool,
}

/// Runs the jobs (one or two), starting with the first one; job t hands over to the other one
/// before its access number plan[t] to static memory, if given, and when it ends.
pub fn run(jobs: Vec<Box<dyn FnOnce() -> Vec<Vec<u8>> + Send>>, plan: [Option<u64>; 2]) -> Result {
    unsafe {
        let len = (std::mem::size_of::<Shared>() + PAGE - 1) / PAGE * PAGE;
        // MAP_PRIVATE | MAP_ANONYMOUS | MAP_FIXED_NOREPLACE
        let p = mmap(BASE as *mut u8, len, 3, 0x2 | 0x20 | 0x100000, -1, 0);
        assert_eq!(p as usize, BASE);
        let s = sh();
        s.lo.store(&raw mut __data_start as usize / PAGE * PAGE, SeqCst);
        s.hi.store((&raw mut _end as usize + PAGE - 1) / PAGE * PAGE, SeqCst);
        for t in 0..2 {
            s.plan[t].store(plan[t].map_or(0, |x| x + 1), SeqCst);
        }
        s.turn.store(9, SeqCst);
        let n = jobs.len();
        if n == 1 {
            s.done[1].store(1, SeqCst);
        }
        let hs: Vec<_> = jobs
            .into_iter()
            .enumerate()
            .map(|(t, j)| {
                std::thread::Builder::new()
                    .stack_size(4 << 20)
                    .spawn(move || {
                        TID.with(|x| x.set(t as u32));
                        let s = sh();
                        while s.turn.load(SeqCst) != t as u32 && (s.active.load(SeqCst) == 1 || s.turn.load(SeqCst) == 9) {
                            usleep(20);
                        }
                        let r = j();
                        s.done[t].store(1, SeqCst);
                        s.turn.store(1 - t as u32, SeqCst);
                        while s.active.load(SeqCst) == 1 {
                            usleep(50);
                        }
                        r
                    })
                    .unwrap()
            })
            .collect();
        let act = |h: unsafe extern "C" fn(i32, *mut u8, *mut u8)| SigAction { handler: h as usize, mask: [0; 16], flags: 4, restorer: 0 };
        assert_eq!(sigaction(11, &act(on_segv), std::ptr::null_mut()), 0);
        assert_eq!(sigaction(5, &act(on_trap), std::ptr::null_mut()), 0);
        s.active.store(1, SeqCst);
        protect(true);
        s.turn.store(0, SeqCst);
        while s.active.load(SeqCst) == 1 && !(s.done[0].load(SeqCst) == 1 && s.done[1].load(SeqCst) == 1) {
            usleep(50);
        }
        s.active.store(0, SeqCst);
        protect(false);
        let outs = hs.into_iter().map(|h| h.join().unwrap_or_default()).collect();
        let k = s.nrec.load(SeqCst).min(MAXREC);
        let base = &__executable_start as *const u8 as usize;
        Result {
            outs,
            accesses: (0..k).map(|i| (s.rec[i].0.load(SeqCst), s.rec[i].1.load(SeqCst).wrapping_sub(base))).collect(),
            given_up: s.given_up.load(SeqCst) == 1,
        }
    }
}
