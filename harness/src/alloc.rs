//! Instrumented global allocator: counts allocations, scribbles over fresh and freed memory so that reads of
//! uninitialised or freed storage give recognisable garbage, and keeps guard zones and block headers so that
//! out-of-bounds writes, double frees and leaks are noticed. Not installed under Miri (Miri does better itself).

use std::alloc::{GlobalAlloc, Layout, System};
use std::sync::atomic::{AtomicBool, AtomicI64, AtomicU64, AtomicUsize, Ordering::Relaxed};

pub struct Guarded;

static ALLOCS: AtomicU64 = AtomicU64::new(0);
static LIVE: AtomicI64 = AtomicI64::new(0);
static BYTES: AtomicI64 = AtomicI64::new(0);
static CORRUPT: AtomicUsize = AtomicUsize::new(0);
static ENABLED: AtomicBool = AtomicBool::new(true);

const MAGIC_LIVE: u64 = 0x5afe_b10c_a110_c8ed;
const MAGIC_FREE: u64 = 0xdead_b10c_f4ee_d000;
const GUARD: u8 = 0xE7;
pub const FRESH: u8 = 0xA5;
pub const FREED: u8 = 0x5C;
const TAIL: usize = 16;
/// Requests above this size are refused, whatever the machine: no case needs as much.
const MAX_REQUEST: usize = 1 << 31;

fn front(align: usize) -> usize {
    align.max(32)
}

unsafe fn guard_ok(base: *mut u8, size: usize, fr: usize) -> bool {
    let mut ok = true;
    for k in 16..fr.min(64) {
        ok &= *base.add(k) == GUARD;
    }
    for k in 0..TAIL {
        ok &= *base.add(fr + size + k) == GUARD;
    }
    ok
}

unsafe impl GlobalAlloc for Guarded {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        let fr = front(l.align());
        if l.size() > MAX_REQUEST {
            return std::ptr::null_mut();
        }
        let full = Layout::from_size_align_unchecked(fr + l.size() + TAIL, fr);
        let base = System.alloc(full);
        if base.is_null() {
            return base;
        }
        ALLOCS.fetch_add(1, Relaxed);
        LIVE.fetch_add(1, Relaxed);
        BYTES.fetch_add(l.size() as i64, Relaxed);
        (base as *mut u64).write(MAGIC_LIVE);
        (base as *mut u64).add(1).write(l.size() as u64);
        std::ptr::write_bytes(base.add(16), GUARD, fr - 16);
        std::ptr::write_bytes(base.add(fr), FRESH, l.size());
        std::ptr::write_bytes(base.add(fr + l.size()), GUARD, TAIL);
        base.add(fr)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        let fr = front(l.align());
        let base = p.sub(fr);
        let magic = (base as *mut u64).read();
        if magic != MAGIC_LIVE || (base as *mut u64).add(1).read() != l.size() as u64 {
            // double free, wrong layout or overwritten header: note it and leave the block alone
            CORRUPT.fetch_add(1, Relaxed);
            return;
        }
        if !guard_ok(base, l.size(), fr) {
            CORRUPT.fetch_add(1, Relaxed);
        }
        (base as *mut u64).write(MAGIC_FREE);
        std::ptr::write_bytes(p, FREED, l.size());
        LIVE.fetch_sub(1, Relaxed);
        BYTES.fetch_sub(l.size() as i64, Relaxed);
        System.dealloc(base, Layout::from_size_align_unchecked(fr + l.size() + TAIL, fr));
    }
}

#[cfg(not(any(miri, feature = "no_alloc_hook")))]
#[global_allocator]
static GLOBAL: Guarded = Guarded;

/// Number of heap allocations made so far by this process.
pub fn allocations() -> u64 {
    ALLOCS.load(Relaxed)
}
/// Number of live heap blocks.
pub fn live() -> i64 {
    LIVE.load(Relaxed)
}
/// Number of bytes in live heap blocks, as requested.
pub fn live_bytes() -> i64 {
    BYTES.load(Relaxed)
}
pub fn case_begin() {
    CORRUPT.store(0, Relaxed);
}
pub fn case_end() -> Option<String> {
    if ENABLED.load(Relaxed) && CORRUPT.load(Relaxed) > 0 {
        Some(format!("heap corruption: {} damaged or doubly freed block(s)", CORRUPT.load(Relaxed)))
    } else {
        None
    }
}
