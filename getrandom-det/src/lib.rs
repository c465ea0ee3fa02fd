//! Deterministic stand-in for the `getrandom` 0.2 crate, patched into the harness workspace only.
//!
//! Each thread draws from its own stream. A test case sets the stream of its thread with
//! [`det_seed`] before calling the code under test; threads that never did (pool workers) use a
//! stream derived from a global seed and a per-thread counter.
use std::cell::Cell;
use std::num::NonZeroU32;
use std::sync::atomic::{AtomicU64, Ordering};

#[derive(Copy, Clone, Debug, Eq, PartialEq)]
pub struct Error(NonZeroU32);

impl Error {
    pub const UNSUPPORTED: Error = Error(match NonZeroU32::new(1 << 31) {
        Some(x) => x,
        None => unreachable!(),
    });
    pub const INTERNAL_START: u32 = 1 << 31;
    pub const CUSTOM_START: u32 = (1 << 31) + (1 << 30);
    pub const fn code(self) -> NonZeroU32 {
        self.0
    }
    pub fn raw_os_error(self) -> Option<i32> {
        None
    }
}
impl std::fmt::Display for Error {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "getrandom error {}", self.0)
    }
}
impl std::error::Error for Error {}
impl From<NonZeroU32> for Error {
    fn from(code: NonZeroU32) -> Self {
        Error(code)
    }
}
impl From<Error> for std::io::Error {
    fn from(e: Error) -> Self {
        std::io::Error::other(e)
    }
}

static GLOBAL: AtomicU64 = AtomicU64::new(0x1234_5678_9abc_def0);
static REQUESTS: AtomicU64 = AtomicU64::new(0);
thread_local! {
    static STATE: Cell<Option<u64>> = const { Cell::new(None) };
}

fn mix(mut z: u64) -> u64 {
    z = (z ^ (z >> 30)).wrapping_mul(0xbf58_476d_1ce4_e5b9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94d0_49bb_1331_11eb);
    z ^ (z >> 31)
}

/// Seed the random stream of the calling thread.
pub fn det_seed(seed: u64) {
    STATE.with(|s| s.set(Some(mix(seed ^ 0x5eed_5eed_5eed_5eed))));
}

/// Seed the streams of threads that are not seeded explicitly.
pub fn det_global_seed(seed: u64) {
    GLOBAL.store(mix(seed), Ordering::SeqCst);
}

/// Number of requests served so far (evidence that the stand-in is in use).
pub fn det_requests() -> u64 {
    REQUESTS.load(Ordering::Relaxed)
}

pub fn getrandom(dest: &mut [u8]) -> Result<(), Error> {
    REQUESTS.fetch_add(1, Ordering::Relaxed);
    STATE.with(|s| {
        let mut st = s.get().unwrap_or_else(|| {
            GLOBAL.fetch_add(0x9e37_79b9_7f4a_7c15, Ordering::SeqCst)
        });
        for chunk in dest.chunks_mut(8) {
            st = st.wrapping_add(0x9e37_79b9_7f4a_7c15);
            let b = mix(st).to_le_bytes();
            chunk.copy_from_slice(&b[..chunk.len()]);
        }
        s.set(Some(st));
    });
    Ok(())
}
