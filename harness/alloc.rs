// Counting allocator, and (for the interleaving monitor) a scheduler whose switching points are allocations.
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering::*};
use std::sync::{Condvar, Mutex};

thread_local! {
    static REQ: Cell<u64> = const { Cell::new(0) };      // bytes requested
    static CALLS: Cell<u64> = const { Cell::new(0) };
    static LIVE: Cell<i64> = const { Cell::new(0) };     // bytes requested and not returned
    static LIVEN: Cell<i64> = const { Cell::new(0) };    // blocks requested and not returned
    static ME: Cell<usize> = const { Cell::new(usize::MAX) };
}
/// across all threads
pub static LIVE_ALL: std::sync::atomic::AtomicI64 = std::sync::atomic::AtomicI64::new(0);
static SCHED: AtomicBool = AtomicBool::new(false);

pub struct Counting;
#[inline] fn note(req: u64, live: i64, n: i64) {
    let _ = REQ.try_with(|c| c.set(c.get() + req));
    if req > 0 { let _ = CALLS.try_with(|c| c.set(c.get() + 1)); }
    let _ = LIVE.try_with(|c| c.set(c.get() + live));
    let _ = LIVEN.try_with(|c| c.set(c.get() + n));
}
// ---- arena: for counting instructions without those of malloc (whose number depends on its history) ----
static BUMP: AtomicUsize = AtomicUsize::new(0);
static BUMP_END: AtomicUsize = AtomicUsize::new(0);
static BUMP_START: AtomicUsize = AtomicUsize::new(0);
pub fn arena(bytes: usize) { unsafe { let l = Layout::from_size_align(bytes, 4096).unwrap(); let p = System.alloc(l) as usize; BUMP_START.store(p, Relaxed); BUMP_END.store(p + bytes, Relaxed); BUMP.store(p, Relaxed); } }
/// what was allocated since `arena_mark` is forgotten
pub fn arena_mark() -> usize { BUMP.load(Relaxed) }
pub fn arena_reset(m: usize) { BUMP.store(m, Relaxed) }
#[inline] fn bump(l: Layout) -> *mut u8 {
    let b = BUMP.load(Relaxed); if b == 0 { return std::ptr::null_mut() }
    let a = (b + l.align() - 1) & !(l.align() - 1);
    if a + l.size() > BUMP_END.load(Relaxed) { return std::ptr::null_mut() }
    BUMP.store(a + l.size(), Relaxed);
    a as *mut u8
}
#[inline] fn bumped(p: *mut u8) -> bool { let p = p as usize; p >= BUMP_START.load(Relaxed) && p < BUMP_END.load(Relaxed) }
unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        if BUMP.load(Relaxed) != 0 { let p = bump(l); if !p.is_null() { return p } }
        note(l.size() as u64, l.size() as i64, 1); point(); System.alloc(l) }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 { note(l.size() as u64, l.size() as i64, 1); point(); System.alloc_zeroed(l) }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) { if bumped(p) { return } note(0, -(l.size() as i64), -1); System.dealloc(p, l) }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        if bumped(p) { let q = self.alloc(Layout::from_size_align_unchecked(n, l.align())); if !q.is_null() { std::ptr::copy_nonoverlapping(p, q, l.size().min(n)); } return q }
        note(n as u64, n as i64 - l.size() as i64, 0); System.realloc(p, l, n) }
}

#[derive(Clone, Copy)]
pub struct Mem { pub req: u64, pub calls: u64, pub live: i64, pub blocks: i64 }
pub fn now() -> Mem { Mem { req: REQ.with(|c| c.get()), calls: CALLS.with(|c| c.get()), live: LIVE.with(|c| c.get()), blocks: LIVEN.with(|c| c.get()) } }

// ---- scheduler: exactly one of the registered threads runs; the turn moves at allocations ----------
static TURN: AtomicUsize = AtomicUsize::new(0);
static ALIVE: AtomicUsize = AtomicUsize::new(0);        // bit set
static RNG: AtomicU64 = AtomicU64::new(0);
static LEFT: AtomicU64 = AtomicU64::new(0);             // allocations until the next switch
static GAP: AtomicU64 = AtomicU64::new(1);
pub static SWITCHES: AtomicU64 = AtomicU64::new(0);
pub static TRACE: AtomicU64 = AtomicU64::new(0);        // hash of the switch sequence
static LOCK: Mutex<()> = Mutex::new(());
static CV: Condvar = Condvar::new();

fn rnd() -> u64 {
    let mut z = RNG.load(Relaxed).wrapping_add(0x9E3779B97F4A7C15);
    RNG.store(z, Relaxed);
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
    z ^ (z >> 31)
}
fn pass(me: usize) {
    let alive = ALIVE.load(Relaxed);
    LEFT.store(1 + rnd() % GAP.load(Relaxed), Relaxed);
    if alive == 0 { return }
    let mut k = (rnd() % alive.count_ones() as u64) as u32;
    for b in 0..64 { if alive & (1 << b) != 0 { if k == 0 { if b != me { SWITCHES.fetch_add(1, Relaxed); TRACE.store(TRACE.load(Relaxed).wrapping_mul(0x100000001b3) ^ (b as u64 + 1), Relaxed); } TURN.store(b, SeqCst); break } k -= 1 } }
}
#[inline] fn point() { if SCHED.load(Relaxed) { slow_point() } }
#[cold] fn slow_point() {
    let me = ME.try_with(|c| c.get()).unwrap_or(usize::MAX);
    if me == usize::MAX { return }
    let left = LEFT.load(Relaxed);
    if left > 1 { LEFT.store(left - 1, Relaxed); return }
    let mut g = LOCK.lock().unwrap();
    pass(me);
    CV.notify_all();
    while TURN.load(SeqCst) != me { g = CV.wait(g).unwrap() }
}
/// Runs the jobs on threads of their own, one at a time, switching at allocations as decided by the seed
pub fn interleave<T: Send>(seed: u64, gap: u64, jobs: Vec<Box<dyn FnOnce() -> T + Send + '_>>) -> Vec<Option<T>> {
    let n = jobs.len();
    RNG.store(seed, Relaxed); GAP.store(gap, Relaxed); LEFT.store(1, Relaxed);
    ALIVE.store((1 << n) - 1, SeqCst); TURN.store(0, SeqCst);
    let ready = AtomicUsize::new(0);
    let out = std::thread::scope(|s| {
        let hs: Vec<_> = jobs.into_iter().enumerate().map(|(i, j)| {
            let ready = &ready;
            std::thread::Builder::new().stack_size(64 << 20).spawn_scoped(s, move || {
                ready.fetch_add(1, SeqCst);
                while ready.load(SeqCst) < n { std::thread::yield_now() }
                SCHED.store(true, SeqCst);
                { let mut g = LOCK.lock().unwrap(); while TURN.load(SeqCst) != i { g = CV.wait(g).unwrap() } }
                ME.with(|c| c.set(i));
                let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(j)).ok();
                ME.with(|c| c.set(usize::MAX));
                let _g = LOCK.lock().unwrap();
                ALIVE.fetch_and(!(1 << i), SeqCst);
                pass(i);
                CV.notify_all();
                r
            }).unwrap()
        }).collect();
        hs.into_iter().map(|h| h.join().ok().flatten()).collect()
    });
    SCHED.store(false, SeqCst);
    out
}
