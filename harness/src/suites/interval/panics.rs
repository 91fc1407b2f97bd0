//! C43: panics in the code of the bound type.

use super::*;
use crate::suites::elem::{arm, disarm, tick, F_CLONE, F_EQ, F_ITER};

/// A bound value whose comparisons, clones and arithmetic panic when told to.
#[derive(Debug, Hash)]
pub struct Boom(i32);
const F_MATH: usize = F_ITER;

impl Clone for Boom {
    fn clone(&self) -> Boom {
        tick(F_CLONE);
        Boom(self.0)
    }
}
impl PartialEq for Boom {
    fn eq(&self, o: &Boom) -> bool {
        tick(F_EQ);
        self.0 == o.0
    }
}
impl Eq for Boom {}
impl PartialOrd for Boom {
    fn partial_cmp(&self, o: &Boom) -> Option<Ordering> {
        Some(self.cmp(o))
    }
}
impl Ord for Boom {
    fn cmp(&self, o: &Boom) -> Ordering {
        tick(F_EQ);
        self.0.cmp(&o.0)
    }
}
macro_rules! boom {
    ($($tr:ident $f:ident $tra:ident $fa:ident $e:expr;)*) => { $(
        impl std::ops::$tr for Boom {
            type Output = Boom;
            fn $f(self, o: Boom) -> Boom {
                tick(F_MATH);
                let f: fn(i32, i32) -> i32 = $e;
                Boom(f(self.0, o.0))
            }
        }
        impl std::ops::$tra for Boom {
            fn $fa(&mut self, o: Boom) {
                let f: fn(i32, i32) -> i32 = $e;
                // half done when it panics
                let n = f(self.0, o.0);
                self.0 = n + 100;
                tick(F_MATH);
                self.0 = n;
            }
        }
    )* };
}
boom! {
    Add add AddAssign add_assign |a, b| a + b;
    Sub sub SubAssign sub_assign |a, b| a - b;
    Mul mul MulAssign mul_assign |a, b| a * b;
    Div div DivAssign div_assign |a, b| if b == 0 { 0 } else { a / b };
}

fn made<T: Val>(x: &Tup<T>) -> Interval<T> {
    match x.clone() {
        None => Interval::empty(),
        Some((a, ac, b, bc)) => Interval::new(a, ac, b, bc),
    }
}

/// += -= *= /= on primitive and standard types: when it panics, the interval is what it was.
pub fn c43_values(src: &mut Src) -> Res {
    macro_rules! assign {
        ($t:ty, $gv:expr, $ops:expr, $($k:tt $op:tt),*) => {{
            let x: Tup<$t> = random_tup(src);
            let g: fn(&mut Src) -> $t = $gv;
            let v: $t = g(src);
            let op = src.us($ops);
            src.note(|| format!("{}: {} {}= {:?}", stringify!($t), tup_text(&x), ["+", "-", "*", "/"][op], v));
            let mut i = made(&x);
            let r = guarded(|| match op {
                $($k => i $op v.clone(),)*
                _ => {}
            });
            src.label_if(r.is_err(), "panicked");
            if r.is_err() {
                src.nontrivial_if(x.as_ref().map_or(false, |p| p.0 != p.2));
                same!(i.is_empty(), x.is_none(), "is_empty after a panic in an arithmetic assignment");
                same!(i.into_tuple(), x, "the interval after a panic in an arithmetic assignment");
            }
        }};
    }
    match src.us(6) {
        0 => assign!(i32, |s| <i32 as Val>::gen(s), 4, 0 +=, 1 -=, 2 *=, 3 /=),
        1 => assign!(i8, |s| <i8 as Val>::gen(s), 4, 0 +=, 1 -=, 2 *=, 3 /=),
        2 => assign!(u8, |s| <u8 as Val>::gen(s), 4, 0 +=, 1 -=, 2 *=, 3 /=),
        3 => assign!(i128, |s| <i128 as Val>::gen(s), 4, 0 +=, 1 -=, 2 *=, 3 /=),
        // Duration panics in every build
        4 => assign!(Duration, |s| if s.chance(1, 6) { Duration::new(u64::MAX, s.us(1_000_000_000) as u32) } else { Duration::new(s.us(6) as u64, *s.pick(&[0, 1, 500_000_000])) }, 2, 0 +=, 1 -=),
        // and so does division of the least value by -1
        _ => {
            let lo = src.bool();
            let k = src.irange(-20, 20) as i32;
            let (c, d) = (src.bool(), src.bool());
            let v = if src.chance(1, 4) { 0 } else { -1 };
            let x: Tup<i32> = if lo { Some((i32::MIN, c, k, d)) } else { Some((k, c, i32::MAX, d)) };
            src.note(|| format!("i32: {} /= {}", tup_text(&x), v));
            let mut i = made(&x);
            let r = guarded(|| i /= v);
            if r.is_err() {
                src.nontrivial = true;
                same!(i.into_tuple(), x, "the interval after a panic in a division");
            }
        }
    }
    Ok(())
}

/// Every operation on a type whose own code panics at a chosen point.
pub fn c43_code(src: &mut Src) -> Res {
    disarm();
    let gen = |src: &mut Src| -> Option<(i32, bool, i32, bool)> {
        let (a, b) = (src.us(6) as i32, src.us(6) as i32);
        let (ac, bc) = (src.bool(), src.bool());
        if a == b { if ac { Some((a, true, b, true)) } else { None } } else { Some((a.min(b), ac, a.max(b), bc)) }
    };
    let mk = |x: &Option<(i32, bool, i32, bool)>| -> Interval<Boom> {
        match *x {
            None => Interval::empty(),
            Some((a, ac, b, bc)) => Interval::new(Boom(a), ac, Boom(b), bc),
        }
    };
    let un = |i: Interval<Boom>| i.into_tuple().map(|(a, ac, b, bc)| (a.0, ac, b.0, bc));
    let (x, y) = (gen(src), gen(src));
    let v = src.irange(-3, 3) as i32;
    let (mut i, j) = (mk(&x), mk(&y));
    let op = src.us(10);
    let kind = [F_EQ, F_CLONE, F_MATH][src.us(3)];
    let at = src.us(12) as i64;
    src.note(|| format!("{:?} {} {:?} or {}, {} number {} panics", x, ["+=", "-=", "*=", "/=", "intersection", "merge", "span", "clone", "contains, intersects, comparisons", "into_ forms and arithmetic by value"][op], y, v, if kind == F_EQ { "comparison" } else if kind == F_CLONE { "clone" } else { "arithmetic" }, at));
    // what the operation does when nothing panics
    let mut done = mk(&x);
    let run = |i: &mut Interval<Boom>, j: Interval<Boom>| match op {
        0 => *i += Boom(v),
        1 => *i -= Boom(v),
        2 => *i *= Boom(v),
        3 => *i /= Boom(v),
        4 => i.intersection(j),
        5 => {
            let _ = i.merge(j);
        }
        6 => i.span(j),
        7 => drop(i.clone()),
        8 => {
            let _ = (i.contains_val(&Boom(v)), i.intersects(&j), (*i).partial_cmp(&j), i.contains_interval(&j), i.can_be_merged(&j), i.is_single(), *i == j);
        }
        _ => {
            let c = || mk(&x);
            let d = || mk(&y);
            let _ = (c().into_intersection(d()), c().into_merged(d()).is_ok(), c().into_span(d()), c() + Boom(v), c() - Boom(v), c() * Boom(v), c() / Boom(v));
        }
    };
    run(&mut done, mk(&y));
    arm(kind, at);
    let r = guarded(|| run(&mut i, j));
    disarm();
    if let Err(m) = &r {
        require!(m.starts_with(INJECTED), "unexpected panic: {}", m);
        src.nontrivial_if(x.is_some());
    }
    // still a valid interval that every operation can be applied to
    let shown = (i.is_empty(), i.contains_val(&Boom(2)), i.is_single());
    let (now, done) = (un(i), un(done));
    same!(shown, (now.is_none(), now.map_or(false, |(a, ac, b, bc)| (a < 2 || (a == 2 && ac)) && (2 < b || (b == 2 && bc))), now.map_or(false, |(a, _, b, _)| a == b)), "is_empty, contains_val(2) and is_single of {:?}", now);
    match (&r, op) {
        (Ok(()), _) => same!(now, done, "outcome"),
        (Err(_), 0..=3) => require!(now == x || now == done, "{:?} became {:?} by an arithmetic assignment that panicked", x, now),
        (Err(_), 4..=6) => {
            if let Some((a, ac, b, bc)) = now {
                require!(a < b || (a == b && ac && bc), "{:?} is no valid interval after a panic", now);
                // each end is one of the operands' ends
                let from: Vec<(i32, bool)> = [&x, &y, &done].iter().filter_map(|t| t.map(|p| (p.0, p.1))).collect();
                require!(from.contains(&(a, ac)), "{:?} became {:?} in an operation with {:?} that panicked: the lower bound comes from neither", x, now, y);
                let from: Vec<(i32, bool)> = [&x, &y, &done].iter().filter_map(|t| t.map(|p| (p.2, p.3))).collect();
                require!(from.contains(&(b, bc)), "{:?} became {:?} in an operation with {:?} that panicked: the upper bound comes from neither", x, now, y);
            }
        }
        (Err(_), _) => same!(now, x, "the interval after a panic in an operation by reference"),
    }
    src.label_if(r.is_err() && op < 4, "panic in an arithmetic assignment");
    src.label_if(r.is_err() && (4..=6).contains(&op), "panic in an operation in place");
    Ok(())
}
