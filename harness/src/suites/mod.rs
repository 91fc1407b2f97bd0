use crate::engine::{hash64, CheckFn, Res, Src};

#[cfg(feature = "counter")]
pub mod counter;
#[cfg(feature = "disjoint")]
pub mod disjoint;
pub mod cost;
pub mod elem;
#[cfg(any(feature = "disjoint", feature = "counter"))]
pub mod keys;
#[cfg(feature = "interval")]
pub mod interval;
#[cfg(feature = "ring")]
pub mod ring;

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Kind {
    Random,
    /// every choice sequence of the generator is run
    Exhaustive,
}

#[derive(Clone)]
pub struct Suite {
    pub prop: &'static str,
    pub name: &'static str,
    pub kind: Kind,
    /// cases in the quick tier (random suites), shared between the builds
    pub quick: u64,
    pub thorough: u64,
    /// cases run under Miri in the quick tier (0: none)
    pub miri: u64,
    pub run: CheckFn,
    pub about: &'static str,
}

pub fn all() -> Vec<Suite> {
    #[allow(unused_mut)]
    let mut v = Vec::new();
    #[cfg(feature = "ring")]
    v.extend(ring::suites());
    #[cfg(feature = "disjoint")]
    v.extend(disjoint::suites());
    #[cfg(feature = "counter")]
    v.extend(counter::suites());
    #[cfg(feature = "interval")]
    v.extend(interval::suites());
    v
}

/// An iterator with an honest but possibly loose size hint.
pub struct Hinted<I> {
    pub it: I,
    pub kind: u64,
}
pub const HINTS: u64 = 7;
impl<I: Iterator> Iterator for Hinted<I> {
    type Item = I::Item;
    fn next(&mut self) -> Option<I::Item> {
        self.it.next()
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        let n = self.it.size_hint().0;
        match self.kind {
            0 => (n, Some(n)),
            1 => (0, None),
            2 => (n / 2, None),
            3 => (0, Some(n * 2 + 3)),
            4 => (n, Some(usize::MAX)),
            5 => (n.saturating_sub(1), Some(n + 1)),
            _ => (n.min(1), Some(n + 40)),
        }
    }
}

/// Fails the case unless two values are equal.
#[macro_export]
macro_rules! same {
    ($a:expr, $b:expr, $($fmt:tt)+) => {{
        let (a, b) = (&$a, &$b);
        if !(*a == *b) {
            return Err(format!("{}: got {:?}, expected {:?}", format!($($fmt)+), a, b));
        }
    }};
}

#[macro_export]
macro_rules! require {
    ($c:expr, $($fmt:tt)+) => {{
        if !$c {
            return Err(format!($($fmt)+));
        }
    }};
}

/// The steps of one long life: few to some thousand, at times more than 65 536. Step by step choices come from
/// a generator of their own, so that a failing case is as small as its number of steps and its seed.
pub fn long_life<F: FnMut(&mut Src, usize) -> Res>(src: &mut Src, mut step: F) -> Res {
    let steps = match src.draw(16) {
        0..=9 => src.range(1, 700),
        10..=12 => src.range(500, 3000),
        13 => src.range(3000, 9000),
        14 => src.range(69_000, 76_000),
        _ => src.range(138_000, 150_000),
    };
    let seed = src.draw(1 << 20);
    src.note(|| format!("{} steps from seed {}", steps, seed));
    src.label_if(steps > 256, "more than 256 steps");
    src.label_if(steps > 65_536, "more than 65536 steps");
    let mut inner = Src::random(hash64(&[0x10_17, seed]));
    inner.verbose = src.verbose;
    let mut out = Ok(());
    for i in 0..steps {
        // (a failing case shows its last steps)
        if inner.log.len() > 60 {
            inner.log.drain(..30);
        }
        inner.rec.clear();
        inner.lim.clear();
        out = step(&mut inner, i).map_err(|e| format!("step {} of a long life: {}", i + 1, e));
        if out.is_err() {
            break;
        }
    }
    for l in inner.log.drain(..) {
        src.note(|| l);
    }
    out
}

/// A history of n steps, or a long life.
pub fn repeat<F: FnMut(&mut Src) -> Res>(src: &mut Src, long: bool, n: usize, mut f: F) -> Res {
    if long {
        return long_life(src, |src, _| f(src));
    }
    for _ in 0..n {
        f(src)?;
    }
    Ok(())
}
