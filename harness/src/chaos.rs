//! Schedule perturbation: a global allocator that sometimes yields, spins or sleeps, and an
//! injector that interrupts random threads at arbitrary instructions with a signal whose handler
//! delays them. Neither changes what the code under test computes.
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering};

pub struct ChaosAlloc;

static STALL_NS: AtomicU64 = AtomicU64::new(0);
static STALL_EPOCH: AtomicU64 = AtomicU64::new(0);
static STALLS: AtomicU64 = AtomicU64::new(0);
static LEVEL: AtomicUsize = AtomicUsize::new(0);
static YIELDS: AtomicU64 = AtomicU64::new(0);
static SIGNALS: AtomicU64 = AtomicU64::new(0);
thread_local! {
    static ST: Cell<u64> = const { Cell::new(0) };
    /// epoch, allocations left until this thread stalls
    static LEFT: Cell<(u64, u64)> = const { Cell::new((0, 0)) };
}

/// One long stall per thread and run, at a random allocation: long enough for all other threads to
/// do the rest of the work meanwhile.
fn stall() {
    let ns = STALL_NS.load(Ordering::Relaxed);
    if ns == 0 {
        return;
    }
    let _ = LEFT.try_with(|l| {
        let e = STALL_EPOCH.load(Ordering::Relaxed);
        let (epoch, mut left) = l.get();
        if epoch != e {
            // log-uniform; most threads of a run do not stall
            let mut x = e.wrapping_mul(0x9e37_79b9_7f4a_7c15) ^ (l as *const _ as u64).rotate_left(17);
            x ^= x >> 31;
            x = x.wrapping_mul(0xbf58_476d_1ce4_e5b9);
            x ^= x >> 29;
            left = if x & 3 == 0 { 1 + ((x >> 8) & ((1 << (1 + (x >> 40) % 10)) - 1)) } else { 0 };
        }
        if left > 0 {
            left -= 1;
            if left == 0 {
                STALLS.fetch_add(1, Ordering::Relaxed);
                let ts = libc::timespec { tv_sec: 0, tv_nsec: ns as i64 };
                unsafe { libc::nanosleep(&ts, std::ptr::null_mut()) };
            }
        }
        l.set((e, left));
    });
}

/// Stalls of this length from now on (0: none); starts a new run.
pub fn stalls(ns: u64) {
    STALL_EPOCH.fetch_add(1, Ordering::Relaxed);
    STALL_NS.store(ns, Ordering::Relaxed);
}
pub fn stalled() -> u64 {
    STALLS.load(Ordering::Relaxed)
}

fn perturb() {
    let lvl = LEVEL.load(Ordering::Relaxed);
    if lvl == 0 {
        return;
    }
    let _ = ST.try_with(|s| {
        let mut x = s.get();
        if x == 0 {
            x = s as *const _ as u64 ^ 0x9e37_79b9_7f4a_7c15;
        }
        x ^= x << 13;
        x ^= x >> 7;
        x ^= x << 17;
        s.set(x);
        // roughly one allocation in 8 (level 1) or 3 (level 2)
        let m = if lvl == 1 { 8 } else { 3 };
        if (x >> 20) % m == 0 {
            YIELDS.fetch_add(1, Ordering::Relaxed);
            match (x >> 40) & 7 {
                0..=3 => unsafe {
                    libc::sched_yield();
                },
                4..=6 => {
                    for _ in 0..((x >> 44) & 1023) {
                        std::hint::spin_loop();
                    }
                }
                _ => unsafe {
                    let ts = libc::timespec { tv_sec: 0, tv_nsec: ((x >> 44) & 0x3fff) as i64 };
                    libc::nanosleep(&ts, std::ptr::null_mut());
                },
            }
        }
    });
}

unsafe impl GlobalAlloc for ChaosAlloc {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        perturb();
        stall();
        System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        System.dealloc(p, l);
        perturb();
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        perturb();
        System.realloc(p, l, n)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        perturb();
        System.alloc_zeroed(l)
    }
}

pub fn level(l: usize) {
    LEVEL.store(l, Ordering::Relaxed);
}
pub fn yields() -> u64 {
    YIELDS.load(Ordering::Relaxed)
}
pub fn signals() -> u64 {
    SIGNALS.load(Ordering::Relaxed)
}

static DELAY: AtomicU64 = AtomicU64::new(0);

extern "C" fn on_signal(_: libc::c_int) {
    unsafe {
        let e = *libc::__errno_location();
        let d = DELAY.load(Ordering::Relaxed);
        let ts = libc::timespec { tv_sec: 0, tv_nsec: (d % 200_000) as i64 };
        if d & 1 == 0 {
            libc::sched_yield();
        } else {
            libc::nanosleep(&ts, std::ptr::null_mut());
        }
        *libc::__errno_location() = e;
    }
}

/// Interrupts random threads of this process while alive.
pub struct Injector {
    stop: std::sync::Arc<AtomicBool>,
    h: Option<std::thread::JoinHandle<()>>,
}

impl Injector {
    pub fn start(seed: u64) -> Self {
        unsafe {
            let mut sa: libc::sigaction = std::mem::zeroed();
            sa.sa_sigaction = on_signal as *const () as usize;
            sa.sa_flags = libc::SA_RESTART;
            libc::sigaction(libc::SIGUSR1, &sa, std::ptr::null_mut());
        }
        let stop = std::sync::Arc::new(AtomicBool::new(false));
        let st = stop.clone();
        let h = std::thread::spawn(move || {
            let mut r = crate::rng::Rng::new(seed);
            let pid = unsafe { libc::getpid() };
            let me = unsafe { libc::syscall(libc::SYS_gettid) } as i32;
            let mut tids: Vec<i32> = vec![];
            let mut k = 0u64;
            while !st.load(Ordering::Relaxed) {
                if k % 64 == 0 {
                    tids = std::fs::read_dir("/proc/self/task")
                        .map(|d| {
                            d.filter_map(|e| e.ok()?.file_name().to_str()?.parse().ok())
                                .filter(|&t| t != me)
                                .collect()
                        })
                        .unwrap_or_default();
                }
                k += 1;
                if !tids.is_empty() {
                    DELAY.store(r.u64(), Ordering::Relaxed);
                    let t = *r.pick(&tids);
                    if unsafe { libc::syscall(libc::SYS_tgkill, pid, t, libc::SIGUSR1) } == 0 {
                        SIGNALS.fetch_add(1, Ordering::Relaxed);
                    }
                }
                let ts = libc::timespec { tv_sec: 0, tv_nsec: (r.below(60_000) + 2_000) as i64 };
                unsafe { libc::nanosleep(&ts, std::ptr::null_mut()) };
            }
        });
        Injector { stop, h: Some(h) }
    }
}

impl Drop for Injector {
    fn drop(&mut self) {
        self.stop.store(true, Ordering::Relaxed);
        if let Some(h) = self.h.take() {
            let _ = h.join();
        }
    }
}

/// CPUs this process may use.
pub fn cpus() -> Vec<usize> {
    unsafe {
        let mut s: libc::cpu_set_t = std::mem::zeroed();
        if libc::sched_getaffinity(0, std::mem::size_of::<libc::cpu_set_t>(), &mut s) != 0 {
            return vec![0];
        }
        (0..libc::CPU_SETSIZE as usize).filter(|&c| libc::CPU_ISSET(c, &s)).collect()
    }
}

/// Restrict the calling thread to `set`; false if the system refuses.
pub fn pin(set: &[usize]) -> bool {
    unsafe {
        let mut s: libc::cpu_set_t = std::mem::zeroed();
        for &c in set {
            libc::CPU_SET(c, &mut s);
        }
        libc::sched_setaffinity(0, std::mem::size_of::<libc::cpu_set_t>(), &s) == 0
    }
}

pub fn threads_seen() -> usize {
    std::thread::available_parallelism().map(|n| n.get()).unwrap_or(1)
}
