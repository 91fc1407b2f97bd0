//! Measuring work: CPU time of this thread, compared with the same number of operations on something small.

use crate::engine::Res;

pub fn thread_cpu_ns() -> u64 {
    // CLOCK_THREAD_CPUTIME_ID
    #[repr(C)]
    struct Ts {
        s: i64,
        n: i64,
    }
    extern "C" {
        fn clock_gettime(c: i32, t: *mut Ts) -> i32;
    }
    let mut t = Ts { s: 0, n: 0 };
    unsafe {
        clock_gettime(3, &mut t);
    }
    t.s as u64 * 1_000_000_000 + t.n as u64
}

/// Stops a measured run that is already over its limit.
pub struct Watch {
    start: u64,
    limit: u64,
    k: u32,
}
impl Watch {
    pub fn new(limit: u64) -> Watch {
        Watch { start: thread_cpu_ns(), limit, k: 0 }
    }
    /// to be asked after each operation; looks at the clock now and then
    pub fn over(&mut self) -> bool {
        self.k += 1;
        self.k % 64 == 0 && self.spent() > self.limit
    }
    pub fn spent(&self) -> u64 {
        thread_cpu_ns() - self.start
    }
}

/// The CPU time of `run` (told when to give up) stays within `factor` times that of `base`, which is taken to be at
/// least `floor` ns. Best of three runs.
pub fn within<B: FnMut(), R: FnMut(&mut Watch)>(factor: u64, floor: u64, mut base: B, mut run: R, what: &str) -> Res {
    let mut b = 0;
    for _ in 0..2 {
        let t = thread_cpu_ns();
        base();
        b = b.max(thread_cpu_ns() - t);
    }
    let limit = b.max(floor) * factor;
    for _ in 0..3 {
        let mut w = Watch::new(limit);
        run(&mut w);
        if w.spent() <= limit {
            return Ok(());
        }
    }
    Err(format!("{}: more than {} times the time of the same operations on a small instance", what, factor))
}
