//! Coverage-guided generation: choice sequences are mutated, and those that reach code, loop counts or operands of
//! comparisons not seen before are kept and mutated further. Needs a build with LLVM's coverage callbacks (bin/build
//! ... guided); in other builds there is no feedback and this is plain random generation.

use crate::engine::{hash64, Rng, Src};

const SLOTS: usize = 1 << 18;
const CONSTS: usize = 256;

#[cfg(feature = "guided")]
mod hooks {
    use super::{CONSTS, SLOTS};

    pub static mut RANGES: [(usize, usize); 64] = [(0, 0); 64];
    pub static mut NRANGES: usize = 0;
    pub static mut SEEN: [u8; SLOTS] = [0; SLOTS];
    /// slots of SEEN written in this case
    pub static mut TOUCHED: [u32; SLOTS] = [0; SLOTS];
    pub static mut NTOUCHED: usize = 0;
    /// operands seen in comparisons, a ring
    pub static mut OPERANDS: [u64; CONSTS] = [0; CONSTS];
    pub static mut NOPERANDS: usize = 0;
    pub static mut ON: bool = false;

    // (functions of these names are not instrumented themselves)
    #[no_mangle]
    pub unsafe extern "C" fn __sanitizer_cov_8bit_counters_init(start: usize, stop: usize) {
        let mut i = 0;
        while i < NRANGES {
            if RANGES[i].0 == start {
                return;
            }
            i = i.wrapping_add(1);
        }
        if i < 64 && start < stop {
            RANGES[i] = (start, stop);
            NRANGES = i.wrapping_add(1);
        }
    }

    #[no_mangle]
    pub unsafe extern "C" fn __sanitizer_vh_cmp(a: u64, b: u64, pc: u64) {
        if !ON {
            return;
        }
        let d = if a < b { b.wrapping_sub(a) } else { a.wrapping_sub(b) };
        let class = if d < 32 { d } else { 96u64.wrapping_sub(d.leading_zeros() as u64) };
        let mut z = pc.wrapping_mul(0x9E37_79B9_7F4A_7C15);
        z = z ^ (z >> 29);
        let slot = (z.wrapping_add(class) & 0x3_ffff) as usize;
        let p = (&raw mut SEEN as *mut u8).wrapping_add(slot);
        if *p == 0 {
            *p = 1;
            *(&raw mut TOUCHED as *mut u32).wrapping_add(NTOUCHED & 0x3_ffff) = slot as u32;
            NTOUCHED = NTOUCHED.wrapping_add(1);
            // new relation of two operands: remember them
            let o = &raw mut OPERANDS as *mut u64;
            *o.wrapping_add(NOPERANDS & 0xff) = b;
            *o.wrapping_add(NOPERANDS.wrapping_add(1) & 0xff) = a;
            NOPERANDS = NOPERANDS.wrapping_add(2);
        }
    }

    macro_rules! cmp_hook {
        ($($name:ident $za:expr, $zb:expr);*) => {$(
            #[cfg(target_arch = "x86_64")]
            #[unsafe(naked)]
            #[no_mangle]
            pub unsafe extern "C" fn $name() {
                core::arch::naked_asm!($za, $zb, "mov rdx, [rsp]", "jmp {f}", f = sym __sanitizer_vh_cmp)
            }
            #[cfg(not(target_arch = "x86_64"))]
            #[no_mangle]
            pub unsafe extern "C" fn $name() {}
        )*};
    }
    cmp_hook! {
        __sanitizer_cov_trace_cmp1 "movzx edi, dil", "movzx esi, sil";
        __sanitizer_cov_trace_cmp2 "movzx edi, di", "movzx esi, si";
        __sanitizer_cov_trace_cmp4 "mov edi, edi", "mov esi, esi";
        __sanitizer_cov_trace_cmp8 "nop", "nop";
        __sanitizer_cov_trace_const_cmp1 "movzx edi, dil", "movzx esi, sil";
        __sanitizer_cov_trace_const_cmp2 "movzx edi, di", "movzx esi, si";
        __sanitizer_cov_trace_const_cmp4 "mov edi, edi", "mov esi, esi";
        __sanitizer_cov_trace_const_cmp8 "nop", "nop"
    }
    #[no_mangle]
    pub unsafe extern "C" fn __sanitizer_cov_trace_switch(_: u64, _: *const u64) {}
    #[no_mangle]
    pub unsafe extern "C" fn __sanitizer_cov_pcs_init(_: usize, _: usize) {}

    /// what ran while this was off counts for nothing
    pub fn on(x: bool) {
        unsafe {
            if x {
                for k in 0..NRANGES {
                    std::ptr::write_bytes(RANGES[k].0 as *mut u8, 0, RANGES[k].1 - RANGES[k].0);
                }
                NTOUCHED = 0;
            }
            ON = x;
        }
    }

    /// number of features of the case just run that no case had before; clears the counters
    pub fn new_features(history: &mut Vec<u8>) -> usize {
        unsafe {
            let mut new = NTOUCHED;
            let mut at = 0;
            for k in 0..NRANGES {
                let n = RANGES[k].1 - RANGES[k].0;
                if history.len() < at + n {
                    history.resize(at + n, 0);
                }
                new += __sanitizer_vh_scan(RANGES[k].0 as *mut u8, n, history[at..].as_mut_ptr());
                at += n;
            }
            NTOUCHED = 0;
            new
        }
    }

    #[no_mangle]
    pub unsafe extern "C" fn __sanitizer_vh_scan(counters: *mut u8, n: usize, seen: *mut u8) -> usize {
        let mut new = 0usize;
        let mut at = 0usize;
        while at < n {
            if n.wrapping_sub(at) >= 64 {
                let p = counters.wrapping_add(at) as *const u64;
                let mut any = 0;
                let mut i = 0usize;
                while i < 8 {
                    any |= p.wrapping_add(i).read_unaligned();
                    i = i.wrapping_add(1);
                }
                if any == 0 {
                    at = at.wrapping_add(64);
                    continue;
                }
            }
            let stop = if n.wrapping_sub(at) < 64 { n } else { at.wrapping_add(64) };
            while at < stop {
                let p = counters.wrapping_add(at);
                let c = *p;
                if c != 0 {
                    *p = 0;
                    let bit: u8 = if c < 4 {
                        1u8.wrapping_shl((c as u32).wrapping_sub(1))
                    } else if c < 8 {
                        8
                    } else if c < 16 {
                        16
                    } else if c < 32 {
                        32
                    } else if c < 128 {
                        64
                    } else {
                        128
                    };
                    let h = seen.wrapping_add(at);
                    if *h & bit == 0 {
                        *h |= bit;
                        new = new.wrapping_add(1);
                    }
                }
                at = at.wrapping_add(1);
            }
        }
        new
    }

    pub fn operand(i: usize) -> Option<u64> {
        unsafe {
            if NOPERANDS == 0 {
                None
            } else {
                let n = NOPERANDS.min(CONSTS);
                Some(*(&raw const OPERANDS as *const u64).wrapping_add(i % n))
            }
        }
    }
}

#[cfg(not(feature = "guided"))]
mod hooks {
    pub fn on(_: bool) {}
    pub fn new_features(_: &mut Vec<u8>) -> usize {
        0
    }
    pub fn operand(_: usize) -> Option<u64> {
        None
    }
}

struct Entry {
    rec: Vec<u64>,
    lim: Vec<u64>,
}

pub struct Guide {
    rng: Rng,
    corpus: Vec<Entry>,
    history: Vec<u8>,
    pub kept: u64,
}

const MAX_CORPUS: usize = 3000;
const MAX_LEN: usize = 3000;

impl Guide {
    pub fn new(seed: u64) -> Guide {
        // (the buffers are there before the first case is measured)
        Guide { rng: Rng::new(seed), corpus: Vec::with_capacity(MAX_CORPUS), history: Vec::new(), kept: 0 }
    }
    fn below(&mut self, n: usize) -> usize {
        ((self.rng.next() as u128 * n as u128) >> 64) as usize
    }

    /// The start of the next choice sequence.
    pub fn next(&mut self) -> Vec<u64> {
        let n = self.corpus.len();
        if n == 0 || self.below(8) == 0 {
            return vec![self.rng.next()];
        }
        let i = if self.below(2) == 0 { n - 1 - self.below(n.min(40)) } else { self.below(n) };
        let mut v = self.corpus[i].rec.clone();
        let mut lim = self.corpus[i].lim.clone();
        for _ in 0..1 + self.below(4) {
            if v.is_empty() {
                break;
            }
            let at = self.below(v.len());
            match self.below(13) {
                0 | 1 => {
                    let x = self.rng.next();
                    v[at] = if lim[at] == 0 { x } else { x % lim[at] };
                }
                2 => v[at] = v[at].wrapping_add(1),
                3 => v[at] = v[at].wrapping_sub(1),
                4 => v[at] = if self.below(2) == 0 { 0 } else { lim[at].wrapping_sub(1) },
                5 | 6 => {
                    let k = self.below(super::guided::CONSTS);
                    if let Some(x) = hooks::operand(k) {
                        v[at] = x.wrapping_add(self.below(3) as u64).wrapping_sub(1);
                    }
                }
                7 => {
                    let k = 1 + self.below((v.len() - at).min(16));
                    v.drain(at..at + k);
                    lim.drain(at..at + k);
                }
                8 => {
                    // a block again, at another place
                    let k = 1 + self.below((v.len() - at).min(16));
                    let to = self.below(v.len() + 1);
                    let (bv, bl) = (v[at..at + k].to_vec(), lim[at..at + k].to_vec());
                    v.splice(to..to, bv);
                    lim.splice(to..to, bl);
                }
                9 => {
                    let j = self.below(v.len());
                    v[at] = v[j];
                }
                10 => {
                    // the rest of another one
                    let o = self.below(n);
                    let other = &self.corpus[o];
                    let from = at.min(other.rec.len());
                    v.truncate(at);
                    lim.truncate(at);
                    v.extend_from_slice(&other.rec[from..]);
                    lim.extend_from_slice(&other.lim[from..]);
                }
                11 => {
                    // another rest
                    v.truncate(at);
                    lim.truncate(at);
                }
                _ => {
                    let x = self.rng.next();
                    v.insert(at, x);
                    lim.insert(at, 0);
                }
            }
            v.truncate(MAX_LEN);
            lim.truncate(MAX_LEN);
        }
        v
    }

    pub fn begin(&mut self) {
        hooks::on(true);
    }
    pub fn end(&mut self, src: &Src) {
        hooks::on(false);
        let new = hooks::new_features(&mut self.history);
        if new > 0 && src.rec.len() <= MAX_LEN {
            self.kept += 1;
            let e = Entry { rec: src.rec.clone(), lim: src.lim.clone() };
            if self.corpus.len() < MAX_CORPUS {
                self.corpus.push(e);
            } else {
                let i = self.below(MAX_CORPUS);
                self.corpus[i] = e;
            }
        }
    }
}

/// seed of the choices after the given start
pub fn tail_seed(start: &[u64]) -> u64 {
    hash64(&[0x6775_6964_6564, hash64(start)])
}
