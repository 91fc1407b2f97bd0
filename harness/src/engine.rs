//! Choice-sequence property testing engine.
//!
//! A case is a function of a finite sequence of bounded choices ("draws"). The same check function is
//! driven by random choices, by an odometer that enumerates every choice sequence (small scopes), by a
//! recorded sequence (replay, shrinking) or by fuzzer bytes.

use std::cell::RefCell;
use std::collections::BTreeMap;
use std::panic::{catch_unwind, AssertUnwindSafe};

#[derive(Clone)]
pub struct Rng(u64);

impl Rng {
    pub fn new(seed: u64) -> Self {
        Rng(seed)
    }
    pub fn next(&mut self) -> u64 {
        // splitmix64
        self.0 = self.0.wrapping_add(0x9E37_79B9_7F4A_7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
        z ^ (z >> 31)
    }
}

pub fn hash64(parts: &[u64]) -> u64 {
    let mut h = 0xcbf2_9ce4_8422_2325u64;
    for &p in parts {
        let mut z = h ^ p;
        z = (z ^ (z >> 32)).wrapping_mul(0xD6E8_FEB8_6659_FD93);
        z = (z ^ (z >> 32)).wrapping_mul(0xD6E8_FEB8_6659_FD93);
        h = (z ^ (z >> 32)).wrapping_add(0x9E37_79B9_7F4A_7C15);
    }
    h
}

pub fn hash_str(s: &str) -> u64 {
    let v: Vec<u64> = s.bytes().map(|b| b as u64).collect();
    hash64(&v)
}

enum Mode<'a> {
    Random(Rng),
    Replay(&'a [u64]),
    /// given choices first (reduced to the range asked for), then random ones
    Guided(&'a [u64], Rng),
    Bytes(&'a [u8]),
}

/// Source of all choices of a case, and collector of what the case was.
pub struct Src<'a> {
    mode: Mode<'a>,
    pos: usize,
    pub rec: Vec<u64>,
    pub lim: Vec<u64>,
    pub labels: Vec<&'static str>,
    pub nontrivial: bool,
    pub verbose: bool,
    pub log: Vec<String>,
    /// scale of the case: 0 = quick, 1 = thorough, 2 = tiny (Miri)
    pub scale: u8,
    pub known: &'a [String],
    pub known_hits: BTreeMap<String, u64>,
    trace: Option<std::fs::File>,
}

impl<'a> Src<'a> {
    fn with(mode: Mode<'a>) -> Self {
        Src {
            mode,
            pos: 0,
            rec: Vec::new(),
            lim: Vec::new(),
            labels: Vec::new(),
            nontrivial: false,
            verbose: false,
            log: Vec::new(),
            scale: 0,
            known: &[],
            known_hits: BTreeMap::new(),
            trace: None,
        }
    }
    pub fn random(seed: u64) -> Self {
        Self::with(Mode::Random(Rng::new(seed)))
    }
    pub fn replay(v: &'a [u64]) -> Self {
        Self::with(Mode::Replay(v))
    }
    pub fn guided(v: &'a [u64], seed: u64) -> Self {
        Self::with(Mode::Guided(v, Rng::new(seed)))
    }
    pub fn bytes(v: &'a [u8]) -> Self {
        Self::with(Mode::Bytes(v))
    }
    pub fn trace_to(&mut self, f: std::fs::File) {
        self.trace = Some(f);
    }

    /// A choice in 0..n (n >= 1); n == 0 means the full u64 range. 0 is the simplest choice.
    pub fn draw(&mut self, n: u64) -> u64 {
        let v = match self.mode {
            Mode::Random(ref mut r) => {
                let x = r.next();
                if n == 0 { x } else { ((x as u128 * n as u128) >> 64) as u64 }
            }
            Mode::Replay(s) => {
                let x = if self.pos < s.len() { s[self.pos] } else { 0 };
                if n == 0 { x } else { x.min(n - 1) }
            }
            Mode::Guided(s, ref mut r) => {
                if self.pos < s.len() {
                    let x = s[self.pos];
                    if n == 0 || x < n { x } else { x % n }
                } else {
                    let x = r.next();
                    if n == 0 { x } else { ((x as u128 * n as u128) >> 64) as u64 }
                }
            }
            Mode::Bytes(b) => {
                let width = if n == 0 || n > 1 << 32 { 8 } else if n > 1 << 16 { 4 } else if n > 256 { 2 } else { 1 };
                let mut x = 0u64;
                for k in 0..width {
                    let i = self.pos + k;
                    x = (x << 8) | if i < b.len() { b[i] as u64 } else { 0 };
                }
                self.pos += width - 1;
                if n == 0 { x } else { x % n }
            }
        };
        self.pos += 1;
        self.rec.push(v);
        self.lim.push(n);
        if let Some(f) = self.trace.as_mut() {
            use std::io::Write;
            let _ = f.write_all(format!("{},", v).as_bytes());
        }
        v
    }
    pub fn exhausted(&self) -> bool {
        match self.mode {
            Mode::Random(_) | Mode::Guided(..) => false,
            Mode::Replay(s) => self.pos >= s.len(),
            Mode::Bytes(b) => self.pos >= b.len(),
        }
    }
    pub fn us(&mut self, n: usize) -> usize {
        self.draw(n as u64) as usize
    }
    /// inclusive range
    pub fn range(&mut self, lo: usize, hi: usize) -> usize {
        lo + self.us(hi - lo + 1)
    }
    pub fn irange(&mut self, lo: i64, hi: i64) -> i64 {
        lo + self.draw((hi - lo) as u64 + 1) as i64
    }
    pub fn bool(&mut self) -> bool {
        self.draw(2) == 1
    }
    /// true with probability num/den
    pub fn chance(&mut self, num: u64, den: u64) -> bool {
        self.draw(den) >= den - num
    }
    /// index with the given weights; index 0 is the simplest
    pub fn weighted(&mut self, w: &[u32]) -> usize {
        let total: u32 = w.iter().sum();
        let mut x = self.draw(total as u64) as u32;
        for (i, &k) in w.iter().enumerate() {
            if x < k {
                return i;
            }
            x -= k;
        }
        w.len() - 1
    }
    pub fn pick<'b, T>(&mut self, xs: &'b [T]) -> &'b T {
        let i = self.us(xs.len());
        &xs[i]
    }
    /// size biased to small values: mostly <= small, sometimes up to max
    pub fn size(&mut self, small: usize, max: usize) -> usize {
        match self.draw(16) {
            0..=11 => self.us(small.min(max) + 1),
            12..=14 => {
                let m = (small * 4).min(max);
                self.us(m + 1)
            }
            _ => self.us(max + 1),
        }
    }
    /// signed integers: small, extreme, or anything within lo..=hi
    pub fn int(&mut self, lo: i128, hi: i128) -> i128 {
        let c = self.draw(10);
        let v = match c {
            0..=4 => {
                let x = self.draw(21) as i128;
                if x % 2 == 0 { x / 2 } else { -(x / 2) - 1 }
            }
            5 => lo + self.draw(4) as i128,
            6 => hi - self.draw(4) as i128,
            7 => {
                let sh = self.draw(127) as u32;
                let d = self.draw(3) as i128 - 1;
                let s = self.bool();
                let x = (1i128 << sh).saturating_add(d);
                if s { -x } else { x }
            }
            8 => self.irange(-1000, 1000) as i128,
            _ => {
                let a = self.draw(0) as u128;
                let b = self.draw(0) as u128;
                let raw = (a << 64 | b) as i128;
                if hi.checked_sub(lo).is_none() {
                    raw
                } else {
                    let span = (hi - lo) as u128;
                    if span == u128::MAX { raw } else { lo + ((raw as u128) % (span + 1)) as i128 }
                }
            }
        };
        v.max(lo).min(hi)
    }

    pub fn label(&mut self, l: &'static str) {
        if !self.labels.contains(&l) {
            self.labels.push(l);
        }
    }
    pub fn label_if(&mut self, c: bool, l: &'static str) {
        if c {
            self.label(l);
        }
    }
    pub fn nontrivial_if(&mut self, c: bool) {
        if c {
            self.nontrivial = true;
        }
    }
    pub fn note<F: FnOnce() -> String>(&mut self, f: F) {
        if self.verbose && self.log.len() < 4000 {
            let s = f();
            self.log.push(s);
        }
    }
    /// A deviation: Ok when it is a listed known finding (counted), Err otherwise.
    pub fn deviation(&mut self, sig: &str, msg: String) -> Res {
        if self.known.iter().any(|k| k == sig) {
            *self.known_hits.entry(sig.to_string()).or_insert(0) += 1;
            Ok(())
        } else {
            Err(format!("[{}] {}", sig, msg))
        }
    }
}

pub type Res = Result<(), String>;

thread_local! {
    static LAST_PANIC: RefCell<String> = RefCell::new(String::new());
}

/// Message used by harness-injected panics; never reported on its own.
pub const INJECTED: &str = "verif-injected-panic";

pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "panic".to_string()
        };
        let loc = info.location().map(|l| format!(" at {}:{}", l.file(), l.line())).unwrap_or_default();
        let _ = LAST_PANIC.try_with(|p| {
            if let Ok(mut p) = p.try_borrow_mut() {
                *p = format!("{}{}", msg, loc);
            }
        });
        if std::env::var_os("VH_TRACE_PANICS").is_some() {
            eprintln!("panic: {}{}", msg, loc);
        }
    }));
}

/// Runs `f`, turning a panic into Err(message).
pub fn guarded<R, F: FnOnce() -> R>(f: F) -> Result<R, String> {
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(r) => Ok(r),
        Err(_) => Err(LAST_PANIC.with(|p| p.borrow().clone())),
    }
}

pub type CheckFn = fn(&mut Src) -> Res;

/// Runs one case; unexpected panics become failures, and so do heap corruptions seen by the allocator.
pub fn run_case(f: CheckFn, src: &mut Src) -> Res {
    crate::alloc::case_begin();
    let r = match guarded(|| f(src)) {
        Ok(r) => r,
        Err(m) => Err(format!("unexpected panic: {}", m)),
    };
    match (r, crate::alloc::case_end()) {
        (Ok(()), Some(m)) => Err(m),
        (r, _) => r,
    }
}

pub struct ShrinkResult {
    pub rec: Vec<u64>,
    pub msg: String,
    pub runs: usize,
}

/// Shrinks a failing choice sequence; `test` returns Some((normalised record, message)) when it still fails.
pub fn shrink<F>(start: Vec<u64>, msg: String, budget: usize, mut test: F) -> ShrinkResult
where
    F: FnMut(&[u64]) -> Option<(Vec<u64>, String)>,
{
    let mut best = start;
    let mut best_msg = msg;
    let mut runs = 0;
    let less = |a: &[u64], b: &[u64]| a.len() < b.len() || (a.len() == b.len() && a < b);
    macro_rules! attempt {
        ($cand:expr) => {{
            let cand: Vec<u64> = $cand;
            let mut ok = false;
            if runs < budget && less(&cand, &best) {
                runs += 1;
                if let Some((rec, m)) = test(&cand) {
                    let new = if less(&rec, &cand) || rec == cand { rec } else { cand };
                    if less(&new, &best) {
                        best = new;
                        best_msg = m;
                        ok = true;
                    }
                }
            }
            ok
        }};
    }
    loop {
        let before = best.clone();
        // truncate
        let mut k = best.len() / 2;
        while k > 0 && runs < budget {
            if best.len() > k && attempt!(best[..best.len() - k].to_vec()) {
                continue;
            }
            k /= 2;
        }
        // delete blocks
        let mut block = (best.len() / 2).max(1).min(256);
        while block >= 1 && runs < budget {
            let mut i = best.len().saturating_sub(block);
            loop {
                if i + block <= best.len() {
                    let mut c = best.clone();
                    c.drain(i..i + block);
                    if !attempt!(c) {
                        // delete together with decrementing an earlier count
                        if i > 0 && block <= 8 {
                            for j in (0..i.min(12)).rev() {
                                if best.get(j).map_or(false, |&v| v > 0) {
                                    let mut c = best.clone();
                                    if i + block <= c.len() {
                                        c.drain(i..i + block);
                                        c[j] -= 1;
                                        if attempt!(c) {
                                            break;
                                        }
                                    }
                                }
                            }
                        }
                    }
                }
                if i == 0 {
                    break;
                }
                i = i.saturating_sub(block.max(1));
                if runs >= budget {
                    break;
                }
            }
            if block == 1 {
                break;
            }
            block /= 2;
        }
        // lower values
        let mut i = 0;
        while i < best.len() && runs < budget {
            if best[i] > 0 {
                let v = best[i];
                let mut c = best.clone();
                c[i] = 0;
                if !attempt!(c) {
                    // binary search for the smallest failing value (assuming monotone)
                    let (mut lo, mut hi) = (0u64, v);
                    while hi - lo > 1 && runs < budget {
                        let mid = lo + (hi - lo) / 2;
                        if i >= best.len() {
                            break;
                        }
                        let mut c = best.clone();
                        c[i] = mid;
                        if attempt!(c) {
                            if i >= best.len() {
                                break;
                            }
                            hi = best[i].min(mid);
                        } else {
                            lo = mid;
                        }
                    }
                    if i < best.len() && best[i] > 0 {
                        let mut c = best.clone();
                        c[i] -= 1;
                        attempt!(c);
                    }
                }
            }
            i += 1;
        }
        if best == before || runs >= budget {
            break;
        }
    }
    ShrinkResult { rec: best, msg: best_msg, runs }
}
