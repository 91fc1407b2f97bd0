//! Intervals and bounds: C30..C42.
//!
//! Set-like properties are decided in an index space that does not use the library: a sorted table of distinct
//! values gives points and the gaps around them, as the cells of a line (cell 2i+1 is the point of value i, the even
//! cells are the gaps below, between and above; over a dense order no gap is empty). An interval is a set of cells.

use super::{Kind, Suite};
use crate::engine::*;
use crate::{require, same};
use advanced_collections::interval::{Interval, LowerBound, UpperBound};
use std::cmp::{Ordering, Reverse};
use std::collections::hash_map::DefaultHasher;
use std::fmt::{Debug, Display};
use std::hash::{Hash, Hasher};
use std::net::Ipv4Addr;
use std::num::{Saturating, Wrapping};
use std::time::Duration;

// ---- values ---------------------------------------------------------------------------------------------

pub trait Val: Ord + Clone + Debug + Hash {
    const NAME: &'static str;
    fn gen(src: &mut Src) -> Self;
    fn show(&self) -> Option<String> {
        None
    }
    /// what `{}` prints for an interval of this type, when the type can be displayed
    fn shown(_i: &Interval<Self>) -> Option<String> {
        None
    }
}

macro_rules! val {
    ($t:ty, $name:expr, $gen:expr) => {
        impl Val for $t {
            const NAME: &'static str = $name;
            fn gen(src: &mut Src) -> Self {
                let f: fn(&mut Src) -> $t = $gen;
                f(src)
            }
            fn show(&self) -> Option<String> {
                Some(self.to_string())
            }
            fn shown(i: &Interval<Self>) -> Option<String> {
                Some(i.to_string())
            }
        }
    };
    ($t:ty, $name:expr, nodisplay, $gen:expr) => {
        impl Val for $t {
            const NAME: &'static str = $name;
            fn gen(src: &mut Src) -> Self {
                let f: fn(&mut Src) -> $t = $gen;
                f(src)
            }
        }
    };
}

val!(i32, "i32", |s| s.int(i32::MIN as i128, i32::MAX as i128) as i32);
val!(i8, "i8", |s| s.int(i8::MIN as i128, i8::MAX as i128) as i8);
val!(u8, "u8", |s| s.int(0, 255) as u8);
val!(i64, "i64", |s| s.int(i64::MIN as i128, i64::MAX as i128) as i64);
val!(u64, "u64", |s| s.int(0, u64::MAX as i128) as u64);
val!(i128, "i128", |s| s.int(i128::MIN, i128::MAX));
val!(char, "char", |s| *s.pick(&['a', 'b', 'c', 'z', '0', ' ', ',', '(', ']', 'Ø', '\u{0}', '\u{10ffff}', '\u{e000}', 'Z']));
val!(String, "String", |s| {
    let n = s.us(4);
    (0..n).map(|_| *s.pick(&['a', 'b', ',', 'é', '(', '\u{0}'])).collect()
});
val!(Ipv4Addr, "Ipv4Addr", |s| Ipv4Addr::from(s.int(0, u32::MAX as i128) as u32));
val!(Box<i32>, "Box<i32>", |s| Box::new(s.int(-50, 50) as i32));
val!(Wrapping<i32>, "Wrapping<i32>", |s| Wrapping(s.int(i32::MIN as i128, i32::MAX as i128) as i32));
val!(Wrapping<i8>, "Wrapping<i8>", |s| Wrapping(s.int(-128, 127) as i8));
val!(Saturating<i8>, "Saturating<i8>", |s| Saturating(s.int(-128, 127) as i8));
val!(Saturating<u8>, "Saturating<u8>", |s| Saturating(s.int(0, 255) as u8));
val!((u8, i16), "(u8,i16)", nodisplay, |s| (s.int(0, 3) as u8, s.int(-3, 3) as i16));
val!(Reverse<i64>, "Reverse<i64>", nodisplay, |s| Reverse(s.int(i64::MIN as i128, i64::MAX as i128) as i64));
val!(Vec<u8>, "Vec<u8>", nodisplay, |s| {
    let n = s.us(4);
    (0..n).map(|_| s.us(3) as u8).collect()
});
val!(Option<u8>, "Option<u8>", nodisplay, |s| if s.chance(1, 4) { None } else { Some(s.int(0, 255) as u8) });
val!(Duration, "Duration", nodisplay, |s| Duration::new(s.int(0, 5) as u64, *s.pick(&[0, 1, 999_999_999, 500_000_000])));
val!(Ordering, "Ordering", nodisplay, |s| *s.pick(&[Ordering::Less, Ordering::Equal, Ordering::Greater]));

/// Ordered by length only: equal values can differ.
#[derive(Clone, Debug)]
pub struct Len(String);
impl PartialEq for Len {
    fn eq(&self, o: &Len) -> bool {
        self.0.len() == o.0.len()
    }
}
impl Eq for Len {}
impl PartialOrd for Len {
    fn partial_cmp(&self, o: &Len) -> Option<Ordering> {
        Some(self.cmp(o))
    }
}
impl Ord for Len {
    fn cmp(&self, o: &Len) -> Ordering {
        self.0.len().cmp(&o.0.len())
    }
}
impl Hash for Len {
    fn hash<H: Hasher>(&self, h: &mut H) {
        self.0.len().hash(h)
    }
}
impl Display for Len {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        write!(f, "len{}", self.0.len())
    }
}
val!(Len, "ordered by length", |s| {
    let n = s.us(12);
    Len((0..n).map(|_| *s.pick(&['x', 'y'])).collect())
});

/// A sorted table of distinct values.
fn table<T: Val>(src: &mut Src, want: usize) -> Vec<T> {
    let mut v: Vec<T> = (0..want * 2).map(|_| T::gen(src)).collect();
    v.sort();
    v.dedup();
    while v.len() > want {
        let i = src.us(v.len());
        v.remove(i);
    }
    v
}

/// Runs a generic check for one of many value types, on a random table.
macro_rules! any_type {
    ($src:expr, $f:ident) => {
        any_type!($src, $f, 17)
    };
    ($src:expr, $f:ident, $n:expr) => {
        match $src.us($n) {
            0 => $f::<i32>($src),
            1 => $f::<String>($src),
            2 => $f::<i8>($src),
            3 => $f::<u64>($src),
            4 => $f::<i128>($src),
            5 => $f::<char>($src),
            6 => $f::<Ipv4Addr>($src),
            7 => $f::<Box<i32>>($src),
            8 => $f::<Wrapping<i32>>($src),
            9 => $f::<(u8, i16)>($src),
            10 => $f::<Reverse<i64>>($src),
            11 => $f::<Vec<u8>>($src),
            12 => $f::<Option<u8>>($src),
            13 => $f::<Duration>($src),
            14 => $f::<Ordering>($src),
            15 => $f::<Len>($src),
            _ => $f::<u8>($src),
        }
    };
}

// ---- index space ----------------------------------------------------------------------------------------

/// (lower index, closed, upper index, closed); None is the empty interval
type Ix = Option<(usize, bool, usize, bool)>;

fn cells(x: &Ix) -> u64 {
    match *x {
        None => 0,
        Some((a, ac, b, bc)) => {
            let lo = if ac { 2 * a + 1 } else { 2 * a + 2 };
            let hi = if bc { 2 * b + 1 } else { 2 * b };
            let mut m = 0;
            let mut c = lo;
            while c <= hi {
                m |= 1u64 << c;
                c += 1;
            }
            m
        }
    }
}
fn contiguous(m: u64) -> bool {
    if m == 0 {
        return true;
    }
    let s = m >> m.trailing_zeros();
    s & (s + 1) == 0
}
/// the interval with these cells (contiguous, not reaching the outermost gaps)
fn uncells(m: u64) -> Ix {
    if m == 0 {
        return None;
    }
    let lo = m.trailing_zeros() as usize;
    let hi = 63 - m.leading_zeros() as usize;
    let (a, ac) = if lo % 2 == 1 { (lo / 2, true) } else { (lo / 2 - 1, false) };
    let (b, bc) = if hi % 2 == 1 { (hi / 2, true) } else { (hi / 2, false) };
    Some((a, ac, b, bc))
}
fn hull(m: u64) -> u64 {
    if m == 0 {
        return 0;
    }
    let lo = m.trailing_zeros();
    let hi = 63 - m.leading_zeros();
    ((u64::MAX) >> (63 - hi)) & (u64::MAX << lo)
}
/// every point of x is below every point of y; `eq` allows the same point
fn before(x: u64, y: u64, eq: bool) -> bool {
    if x == 0 || y == 0 {
        return false;
    }
    let hi = 63 - x.leading_zeros();
    let lo = y.trailing_zeros();
    hi < lo || (eq && hi == lo && hi % 2 == 1)
}

fn valid(a: usize, ac: bool, b: usize, bc: bool) -> bool {
    a < b || (a == b && ac && bc)
}

/// all intervals over n values
fn all_ix(n: usize) -> Vec<Ix> {
    let mut v = vec![None];
    for a in 0..n {
        for b in a..n {
            for f in 0..4 {
                let (ac, bc) = (f & 1 == 0, f & 2 == 0);
                if valid(a, ac, b, bc) {
                    v.push(Some((a, ac, b, bc)));
                }
            }
        }
    }
    v
}

fn pick_ix(src: &mut Src, n: usize) -> Ix {
    if n == 0 || src.chance(1, 16) {
        return None;
    }
    let x = src.us(n);
    let y = src.us(n);
    let (a, b) = (x.min(y), x.max(y));
    if a == b {
        return Some((a, true, a, true));
    }
    Some((a, src.bool(), b, src.bool()))
}

fn ix_text<T: Val>(t: &[T], x: &Ix) -> String {
    match *x {
        None => "empty".into(),
        Some((a, ac, b, bc)) => format!("{}{:?}, {:?}{}", if ac { '[' } else { '(' }, t[a], t[b], if bc { ']' } else { ')' }),
    }
}

fn build<T: Val>(t: &[T], x: &Ix, route: u64) -> Interval<T> {
    match *x {
        None => Interval::empty(),
        Some((a, ac, b, bc)) => {
            let (l, u) = (t[a].clone(), t[b].clone());
            match route {
                0 => Interval::new(l, ac, u, bc),
                1 => Interval::from_bounds(LowerBound::new(l, ac), UpperBound::new(u, bc)),
                _ => match (ac, bc) {
                    (true, true) if a == b => Interval::single(l),
                    (true, true) => Interval::closed(l, u),
                    (false, false) => Interval::open(l, u),
                    (true, false) => Interval::lower_closed(l, u),
                    (false, true) => Interval::upper_closed(l, u),
                },
            }
        }
    }
}

/// Reads an interval back through its accessors.
fn read<T: Val>(t: &[T], i: &Interval<T>) -> Result<Ix, String> {
    match (i.lower(), i.upper()) {
        (None, None) => Ok(None),
        (Some(l), Some(u)) => {
            let f = |v: &T| t.binary_search(v).map_err(|_| format!("bound value {:?} is not one of the operands'", v));
            Ok(Some((f(l.val())?, l.is_closed(), f(u.val())?, u.is_closed())))
        }
        _ => Err("exactly one of lower() and upper() is None".into()),
    }
}

/// The interval is exactly the expected one.
fn is<T: Val>(t: &[T], i: &Interval<T>, want: &Ix, what: &str) -> Res {
    let got = read(t, i).map_err(|e| format!("{}: {}", what, e))?;
    if got != *want {
        return Err(format!("{}: got {}, expected {}", what, ix_text(t, &got), ix_text(t, want)));
    }
    same!(i.is_empty(), want.is_none(), "{}: is_empty", what);
    Ok(())
}

type Pair<T> = fn(&mut Src, &[T], &Ix, &Ix) -> Res;

fn small_table_i32() -> Vec<i32> {
    vec![-3, 0, 1, 2, 9]
}
fn small_table_string() -> Vec<String> {
    ["", "a", "aa", "b", "c"].iter().map(|s| s.to_string()).collect()
}
fn small_table_rev() -> Vec<Reverse<i64>> {
    vec![Reverse(50), Reverse(4), Reverse(0), Reverse(-1), Reverse(-2)]
}

/// Every pair of intervals over 5 values, for three value types: every relative position of four end points.
fn small_pairs(src: &mut Src, fi: Pair<i32>, fs: Pair<String>, fr: Pair<Reverse<i64>>) -> Res {
    let all = all_ix(5);
    let ty = src.us(3);
    let a = all[src.us(all.len())];
    let b = all[src.us(all.len())];
    src.nontrivial_if(a.is_some() && b.is_some());
    match ty {
        0 => {
            let t = small_table_i32();
            src.note(|| format!("{} and {}", ix_text(&t, &a), ix_text(&t, &b)));
            fi(src, &t, &a, &b)
        }
        1 => {
            let t = small_table_string();
            src.note(|| format!("{} and {}", ix_text(&t, &a), ix_text(&t, &b)));
            fs(src, &t, &a, &b)
        }
        _ => {
            let t = small_table_rev();
            src.note(|| format!("{} and {}", ix_text(&t, &a), ix_text(&t, &b)));
            fr(src, &t, &a, &b)
        }
    }
}

fn random_pair<T: Val>(src: &mut Src, f: Pair<T>) -> Res {
    let n = src.range(1, 8);
    let t: Vec<T> = table(src, n);
    let a = pick_ix(src, t.len());
    let b = pick_ix(src, t.len());
    src.note(|| format!("{}: {} and {}", T::NAME, ix_text(&t, &a), ix_text(&t, &b)));
    let (ca, cb) = (cells(&a), cells(&b));
    src.label_if(ca == 0 || cb == 0, "an empty operand");
    src.label_if(ca & cb != 0 && ca != cb, "overlapping");
    src.label_if(ca != 0 && cb != 0 && ca & cb == 0 && contiguous(ca | cb), "adjacent");
    src.label_if(ca & cb == 0 && !contiguous(ca | cb), "disjoint");
    src.label_if(ca == cb && ca != 0, "equal");
    src.nontrivial_if(ca != 0 && cb != 0 && ca != cb);
    f(src, &t, &a, &b)
}

macro_rules! pair_suite {
    ($small:ident, $random:ident, $generic:ident, $f:ident) => {
        fn $small(src: &mut Src) -> Res {
            small_pairs(src, $f::<i32>, $f::<String>, $f::<Reverse<i64>>)
        }
        fn $generic<T: Val>(src: &mut Src) -> Res {
            random_pair::<T>(src, $f::<T>)
        }
        fn $random(src: &mut Src) -> Res {
            any_type!(src, $generic)
        }
    };
}

// ---- C30 ------------------------------------------------------------------------------------------------

fn accessors<T: Val>(t: &[T], i: &Interval<T>, x: &Ix, what: &str) -> Res {
    is(t, i, x, what)?;
    match *x {
        None => {
            require!(i.lower().is_none() && i.upper().is_none() && i.bounds().is_none(), "{}: an empty interval has bounds", what);
            same!((i.is_lower_closed(), i.is_upper_closed()), (None, None), "{}: closedness of an empty interval", what);
            same!((i.is_empty(), i.is_single()), (true, false), "{}: is_empty and is_single", what);
            require!(i.clone().into_tuple().is_none() && i.clone().into_bounds().is_none(), "{}: an empty interval converts to values", what);
        }
        Some((a, ac, b, bc)) => {
            let (l, u) = (&t[a], &t[b]);
            same!((i.is_lower_closed(), i.is_upper_closed()), (Some(ac), Some(bc)), "{}: closedness", what);
            same!((i.is_empty(), i.is_single()), (false, a == b), "{}: is_empty and is_single", what);
            same!(i.clone().into_tuple(), Some((l.clone(), ac, u.clone(), bc)), "{}: into_tuple", what);
            match i.bounds() {
                None => return Err(format!("{}: bounds() is None", what)),
                Some((x, y)) => {
                    same!((x.val(), x.is_closed(), y.val(), y.is_closed()), (l, ac, u, bc), "{}: bounds", what);
                }
            }
            match i.clone().into_bounds() {
                None => return Err(format!("{}: into_bounds() is None", what)),
                Some((x, y)) => {
                    same!((x.into_tuple(), y.into_tuple()), ((l.clone(), ac), (u.clone(), bc)), "{}: into_bounds", what);
                }
            }
        }
    }
    Ok(())
}

/// Every way of constructing from two values and two flags.
fn construct<T: Val>(_src: &mut Src, t: &[T], a: usize, ac: bool, b: usize, bc: bool) -> Res {
    let ok = valid(a, ac, b, bc);
    let (l, u) = (&t[a], &t[b]);
    let want: Ix = Some((a, ac, b, bc));
    let text = ix_text(t, &want);
    let try_one = |name: &str, r: Result<Interval<T>, String>| -> Res {
        match r {
            Ok(i) => {
                require!(ok, "{} accepted {} as {:?}", name, text, i);
                accessors(t, &i, &want, &format!("{} of {}", name, text))
            }
            Err(m) => {
                require!(!ok, "{} refused {}: {}", name, text, m);
                Ok(())
            }
        }
    };
    try_one("new", guarded(|| Interval::new(l.clone(), ac, u.clone(), bc)))?;
    try_one("from_bounds", guarded(|| Interval::from_bounds(LowerBound::new(l.clone(), ac), UpperBound::new(u.clone(), bc))))?;
    match (ac, bc) {
        (true, true) => {
            try_one("closed", guarded(|| Interval::closed(l.clone(), u.clone())))?;
            if a == b {
                try_one("single", guarded(|| Interval::single(l.clone())))?;
            }
        }
        (false, false) => try_one("open", guarded(|| Interval::open(l.clone(), u.clone())))?,
        (true, false) => try_one("lower_closed", guarded(|| Interval::lower_closed(l.clone(), u.clone())))?,
        (false, true) => try_one("upper_closed", guarded(|| Interval::upper_closed(l.clone(), u.clone())))?,
    }
    // taking the interval apart and building it again
    if ok {
        let i = Interval::new(l.clone(), ac, u.clone(), bc);
        let (x, y) = i.clone().into_bounds().unwrap();
        require!(Interval::from_bounds(x, y) == i, "rebuilding {} from its bounds gives another interval", text);
        let (p, pc, q, qc) = i.clone().into_tuple().unwrap();
        require!(Interval::new(p, pc, q, qc) == i, "rebuilding {} from its tuple gives another interval", text);
    }
    accessors(t, &Interval::empty(), &None, "empty()")
}

fn c30_random_t<T: Val>(src: &mut Src) -> Res {
    let n = src.range(1, 4);
    let t: Vec<T> = table(src, n);
    let a = src.us(t.len());
    let b = if src.chance(1, 3) { a } else { src.us(t.len()) };
    let (ac, bc) = (src.bool(), src.bool());
    src.note(|| format!("{}: {}", T::NAME, ix_text(&t, &Some((a, ac, b, bc)))));
    src.label_if(!valid(a, ac, b, bc), "invalid interval");
    src.label_if(a == b, "equal values");
    src.nontrivial_if(t.len() >= 2);
    construct(src, &t, a, ac, b, bc)
}
fn c30_random(src: &mut Src) -> Res {
    any_type!(src, c30_random_t)
}
fn c30_i8(src: &mut Src) -> Res {
    // every pair of i8 values, every closedness
    let a = src.us(256);
    let b = src.us(256);
    let f = src.us(4);
    let t: Vec<i8> = (-128i16..128).map(|v| v as i8).collect();
    let (ac, bc) = (f & 1 == 0, f & 2 == 0);
    src.note(|| ix_text(&t, &Some((a, ac, b, bc))));
    src.nontrivial = true;
    let r = guarded(|| Interval::new(t[a], ac, t[b], bc));
    same!(r.is_ok(), valid(a, ac, b, bc), "new accepts");
    if let Ok(i) = r {
        same!(i.into_tuple(), Some((t[a], ac, t[b], bc)), "into_tuple");
        same!((i.is_single(), i.is_empty()), (a == b, false), "is_single, is_empty");
    }
    Ok(())
}

// ---- C31 ------------------------------------------------------------------------------------------------

fn c31_random_t<T: Val>(src: &mut Src) -> Res {
    let n = src.range(1, 12);
    let t: Vec<T> = table(src, n);
    let x = pick_ix(src, t.len());
    let route = src.draw(3);
    let i = build(&t, &x, route);
    src.note(|| format!("{}: {} against {} values", T::NAME, ix_text(&t, &x), t.len()));
    let m = cells(&x);
    for (k, v) in t.iter().enumerate() {
        same!(i.contains_val(v), m >> (2 * k + 1) & 1 == 1, "{} contains {:?}", ix_text(&t, &x), v);
    }
    src.nontrivial_if(x.is_some() && t.len() >= 3);
    src.label_if(x.is_none(), "empty interval");
    Ok(())
}
fn c31_random(src: &mut Src) -> Res {
    any_type!(src, c31_random_t)
}
fn c31_small(src: &mut Src) -> Res {
    // every interval of i8 values within -4..=4 against every i8 value
    let all = all_ix(9);
    let x = all[src.us(all.len())];
    let t: Vec<i8> = (-4..=4).collect();
    let i = build(&t, &x, 0);
    src.note(|| ix_text(&t, &x));
    let m = cells(&x);
    for v in -128i16..128 {
        let v = v as i8;
        let want = (-4..=4).contains(&v) && m >> (2 * (v + 4) as usize + 1) & 1 == 1;
        same!(i.contains_val(&v), want, "{} contains {}", ix_text(&t, &x), v);
    }
    src.nontrivial_if(x.is_some());
    Ok(())
}

// ---- C32 ------------------------------------------------------------------------------------------------

fn inclusion<T: Val>(src: &mut Src, t: &[T], a: &Ix, b: &Ix) -> Res {
    let r = src.draw(3);
    let (ia, ib) = (build(t, a, r), build(t, b, 0));
    let (ca, cb) = (cells(a), cells(b));
    let text = || format!("{} and {}", ix_text(t, a), ix_text(t, b));
    same!(ia.contains_interval(&ib), cb & !ca == 0, "contains_interval of {}", text());
    same!(ib.contains_interval(&ia), ca & !cb == 0, "contains_interval of {} (swapped)", text());
    require!(ia.contains_interval(&ia) && ib.contains_interval(&ib), "containment is not reflexive for {}", text());
    // membership agrees with containment
    if cb & !ca == 0 {
        for v in t {
            require!(!ib.contains_val(v) || ia.contains_val(v), "{}: the first contains the second but not its value {:?}", text(), v);
        }
    }
    if ia.contains_interval(&ib) && ib.contains_interval(&ia) {
        require!(ia == ib, "{} contain each other and differ", text());
    }
    Ok(())
}
pair_suite!(c32_small, c32_random, c32_generic, inclusion);

fn c32_chain_t<T: Val>(src: &mut Src) -> Res {
    let n = src.range(2, 8);
    let t: Vec<T> = table(src, n);
    let v: Vec<Ix> = (0..3).map(|_| pick_ix(src, t.len())).collect();
    let i: Vec<Interval<T>> = v.iter().map(|x| build(&t, x, 0)).collect();
    src.note(|| v.iter().map(|x| ix_text(&t, x)).collect::<Vec<_>>().join(" / "));
    let mut some = false;
    for a in 0..3 {
        for b in 0..3 {
            for c in 0..3 {
                if i[a].contains_interval(&i[b]) && i[b].contains_interval(&i[c]) {
                    require!(i[a].contains_interval(&i[c]), "containment is not transitive");
                    some |= a != b && b != c && v[c].is_some() && v[a] != v[b] && v[b] != v[c];
                }
            }
        }
    }
    src.nontrivial_if(some);
    Ok(())
}
fn c32_chain(src: &mut Src) -> Res {
    any_type!(src, c32_chain_t)
}

// ---- C33 ------------------------------------------------------------------------------------------------

fn intersect<T: Val>(src: &mut Src, t: &[T], a: &Ix, b: &Ix) -> Res {
    let r = src.draw(3);
    let (ia, ib) = (build(t, a, r), build(t, b, 0));
    let m = cells(a) & cells(b);
    let want = uncells(m);
    let text = format!("{} and {}", ix_text(t, a), ix_text(t, b));
    same!(ia.intersects(&ib), m != 0, "intersects of {}", text);
    same!(ib.intersects(&ia), m != 0, "intersects of {} (swapped)", text);
    let x = ia.clone().into_intersection(ib.clone());
    is(t, &x, &want, &format!("into_intersection of {}", text))?;
    is(t, &ib.clone().into_intersection(ia.clone()), &want, &format!("into_intersection of {} (swapped)", text))?;
    let mut y = ia.clone();
    y.intersection(ib.clone());
    is(t, &y, &want, &format!("intersection of {}", text))?;
    let mut z = ib.clone();
    z.intersection(ia.clone());
    is(t, &z, &want, &format!("intersection of {} (swapped)", text))?;
    for (k, v) in t.iter().enumerate() {
        let both = ia.contains_val(v) && ib.contains_val(v);
        same!(x.contains_val(v), both, "intersection of {} contains {:?}", text, v);
        same!(both, m >> (2 * k + 1) & 1 == 1, "membership of {:?} in {}", v, text);
    }
    // intersecting again changes nothing
    y.intersection(ib.clone());
    is(t, &y, &want, &format!("intersecting twice of {}", text))?;
    same!(y.intersects(&ia), m != 0, "intersects of the intersection of {} and its operand", text);
    Ok(())
}
pair_suite!(c33_small, c33_random, c33_generic, intersect);

// ---- C34 ------------------------------------------------------------------------------------------------

fn merge<T: Val>(src: &mut Src, t: &[T], a: &Ix, b: &Ix) -> Res {
    let r = src.draw(3);
    let (ia, ib) = (build(t, a, r), build(t, b, 0));
    let u = cells(a) | cells(b);
    let can = a.is_none() || b.is_none() || contiguous(u);
    let text = format!("{} and {}", ix_text(t, a), ix_text(t, b));
    same!(ia.can_be_merged(&ib), can, "can_be_merged of {}", text);
    same!(ib.can_be_merged(&ia), can, "can_be_merged of {} (swapped)", text);
    for (p, q, pi, qi, how) in [(a, b, &ia, &ib, ""), (b, a, &ib, &ia, " (swapped)")] {
        match pi.clone().into_merged(qi.clone()) {
            Ok(x) => {
                require!(can, "into_merged of {}{} succeeded with {:?}", text, how, x);
                is(t, &x, &uncells(u), &format!("into_merged of {}{}", text, how))?;
            }
            Err((x, y)) => {
                require!(!can, "into_merged of {}{} refused", text, how);
                is(t, &x, p, &format!("first operand returned by into_merged of {}{}", text, how))?;
                is(t, &y, q, &format!("second operand returned by into_merged of {}{}", text, how))?;
            }
        }
        let mut s = pi.clone();
        match s.merge(qi.clone()) {
            Ok(()) => {
                require!(can, "merge of {}{} succeeded with {:?}", text, how, s);
                is(t, &s, &uncells(u), &format!("merge of {}{}", text, how))?;
                for v in t {
                    same!(s.contains_val(v), pi.contains_val(v) || qi.contains_val(v), "merge of {}{} contains {:?}", text, how, v);
                }
            }
            Err(x) => {
                require!(!can, "merge of {}{} refused", text, how);
                is(t, &s, p, &format!("interval after a refused merge of {}{}", text, how))?;
                is(t, &x, q, &format!("operand returned by a refused merge of {}{}", text, how))?;
            }
        }
    }
    Ok(())
}
pair_suite!(c34_small, c34_random, c34_generic, merge);

// ---- C35 ------------------------------------------------------------------------------------------------

fn span<T: Val>(src: &mut Src, t: &[T], a: &Ix, b: &Ix) -> Res {
    let r = src.draw(3);
    let (ia, ib) = (build(t, a, r), build(t, b, 0));
    let want = uncells(hull(cells(a) | cells(b)));
    let text = format!("{} and {}", ix_text(t, a), ix_text(t, b));
    let x = ia.clone().into_span(ib.clone());
    is(t, &x, &want, &format!("into_span of {}", text))?;
    is(t, &ib.clone().into_span(ia.clone()), &want, &format!("into_span of {} (swapped)", text))?;
    let mut y = ia.clone();
    y.span(ib.clone());
    is(t, &y, &want, &format!("span of {}", text))?;
    let mut z = ib.clone();
    z.span(ia.clone());
    is(t, &z, &want, &format!("span of {} (swapped)", text))?;
    require!(x.contains_interval(&ia) && x.contains_interval(&ib), "the span of {} does not contain its operands", text);
    if let Ok(m) = ia.clone().into_merged(ib.clone()) {
        require!(m == x, "span and merge of {} differ", text);
    }
    Ok(())
}
pair_suite!(c35_small, c35_random, c35_generic, span);

// ---- C36 ------------------------------------------------------------------------------------------------

fn compare<T: Val>(src: &mut Src, t: &[T], a: &Ix, b: &Ix) -> Res {
    let r = src.draw(3);
    let (ia, ib) = (build(t, a, r), build(t, b, 0));
    let (ca, cb) = (cells(a), cells(b));
    for (x, y, cx, cy, tx) in [
        (&ia, &ib, ca, cb, format!("{} and {}", ix_text(t, a), ix_text(t, b))),
        (&ib, &ia, cb, ca, format!("{} and {}", ix_text(t, b), ix_text(t, a))),
        (&ia, &ia, ca, ca, format!("{} and itself", ix_text(t, a))),
    ] {
        same!(x < y, before(cx, cy, false), "< of {}", tx);
        same!(x <= y, before(cx, cy, true), "<= of {}", tx);
        same!(x > y, before(cy, cx, false), "> of {}", tx);
        same!(x >= y, before(cy, cx, true), ">= of {}", tx);
        same!(x == y, cx == cy, "== of {}", tx);
        same!(x != y, cx != cy, "!= of {}", tx);
        let want = if before(cx, cy, false) {
            Some(Ordering::Less)
        } else if before(cy, cx, false) {
            Some(Ordering::Greater)
        } else if cx == cy {
            Some(Ordering::Equal)
        } else {
            None
        };
        same!(x.partial_cmp(y), want, "partial_cmp of {}", tx);
    }
    for (k, v) in t.iter().enumerate() {
        let cv = 1u64 << (2 * k + 1);
        let tx = format!("{} and the value {:?}", ix_text(t, a), v);
        same!(ia < *v, before(ca, cv, false), "< of {}", tx);
        same!(ia <= *v, before(ca, cv, true), "<= of {}", tx);
        same!(ia > *v, before(cv, ca, false), "> of {}", tx);
        same!(ia >= *v, before(cv, ca, true), ">= of {}", tx);
        same!(ia == *v, ca == cv, "== of {}", tx);
        same!(ia != *v, ca != cv, "!= of {}", tx);
        let want = if before(ca, cv, false) {
            Some(Ordering::Less)
        } else if before(cv, ca, false) {
            Some(Ordering::Greater)
        } else if ca == cv {
            Some(Ordering::Equal)
        } else {
            None
        };
        same!(ia.partial_cmp(v), want, "partial_cmp of {}", tx);
    }
    Ok(())
}
pair_suite!(c36_small, c36_random, c36_generic, compare);

// ---- C37 ------------------------------------------------------------------------------------------------

/// What an interval with these bound values has to be after both were mapped.
fn renormalised<T: Ord>(a: T, ac: bool, b: T, bc: bool) -> Option<(T, bool, T, bool)> {
    match a.cmp(&b) {
        Ordering::Less => Some((a, ac, b, bc)),
        Ordering::Greater => Some((b, bc, a, ac)),
        Ordering::Equal => {
            if ac && bc { Some((a, ac, b, bc)) } else { None }
        }
    }
}

/// Applies `g` to the interval and compares with `f` applied to both bound values.
fn mapped<T: Val, F: Fn(T) -> T, G: FnOnce(Interval<T>) -> Interval<T>>(x: &Option<(T, bool, T, bool)>, f: F, g: G, what: &dyn Fn() -> String) -> Result<Option<Option<(T, bool, T, bool)>>, String> {
    let i = match x.clone() {
        None => Interval::empty(),
        Some((a, ac, b, bc)) => Interval::new(a, ac, b, bc),
    };
    let want = match x.clone() {
        None => Ok(None),
        Some((a, ac, b, bc)) => match (guarded(|| f(a)), guarded(|| f(b))) {
            (Ok(p), Ok(q)) => Ok(renormalised(p, ac, q, bc)),
            (Err(m), _) | (_, Err(m)) => Err(m),
        },
    };
    match (want, guarded(|| g(i))) {
        (Ok(w), Ok(r)) => {
            same!(r.is_empty(), w.is_none(), "{}: is_empty", what());
            let got = r.into_tuple();
            same!(got, w, "{}", what());
            Ok(Some(w))
        }
        // the value type's own arithmetic panics on one of the bounds
        (Err(_), Err(_)) => Ok(None),
        (Ok(w), Err(m)) => Err(format!("{}: panicked ({}), expected {:?}", what(), m, w)),
        (Err(m), Ok(r)) => Err(format!("{}: gave {:?} although the bound arithmetic panics ({})", what(), r, m)),
    }
}

type Tup<T> = Option<(T, bool, T, bool)>;

fn random_tup<T: Val>(src: &mut Src) -> Tup<T> {
    if src.chance(1, 20) {
        return None;
    }
    let x = T::gen(src);
    let y = if src.chance(1, 5) { x.clone() } else { T::gen(src) };
    if x == y {
        return Some((x.clone(), true, x, true));
    }
    let (a, b) = if x < y { (x, y) } else { (y, x) };
    Some((a, src.bool(), b, src.bool()))
}

fn tup_text<T: Debug>(x: &Tup<T>) -> String {
    match x {
        None => "empty".into(),
        Some((a, ac, b, bc)) => format!("{}{:?}, {:?}{}", if *ac { '[' } else { '(' }, a, b, if *bc { ']' } else { ')' }),
    }
}

macro_rules! four_ops {
    ($src:expr, $x:expr, $v:expr, $op:expr, $assign:ident) => {{
        let x = $x;
        let v = $v;
        let op: usize = $op;
        let sym = ["+", "-", "*", "/"][op];
        let what = || format!("{} {} {:?}", tup_text(&x), sym, v);
        let whata = || format!("{} {}= {:?}", tup_text(&x), sym, v);
        let r = match op {
            0 => mapped(&x, |b| b + v.clone(), |i| i + v.clone(), &what)?,
            1 => mapped(&x, |b| b - v.clone(), |i| i - v.clone(), &what)?,
            2 => mapped(&x, |b| b * v.clone(), |i| i * v.clone(), &what)?,
            _ => mapped(&x, |b| b / v.clone(), |i| i / v.clone(), &what)?,
        };
        four_ops!(@$assign, x, v, op, whata);
        r
    }};
    (@assign, $x:expr, $v:expr, $op:expr, $what:expr) => {
        match $op {
            0 => mapped(&$x, |b| b + $v.clone(), |mut i| { i += $v.clone(); i }, &$what)?,
            1 => mapped(&$x, |b| b - $v.clone(), |mut i| { i -= $v.clone(); i }, &$what)?,
            2 => mapped(&$x, |b| b * $v.clone(), |mut i| { i *= $v.clone(); i }, &$what)?,
            _ => mapped(&$x, |b| b / $v.clone(), |mut i| { i /= $v.clone(); i }, &$what)?,
        }
    };
    (@noassign, $x:expr, $v:expr, $op:expr, $what:expr) => { () };
}

/// Counts modulo 12: adding and subtracting wraps around, so both ends can change order.
#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub struct Clock(u8);
impl std::ops::Add for Clock {
    type Output = Clock;
    fn add(self, o: Clock) -> Clock {
        Clock((self.0 + o.0) % 12)
    }
}
impl std::ops::Sub for Clock {
    type Output = Clock;
    fn sub(self, o: Clock) -> Clock {
        Clock((self.0 + 12 - o.0) % 12)
    }
}
impl std::ops::Mul for Clock {
    type Output = Clock;
    fn mul(self, o: Clock) -> Clock {
        Clock((self.0 * o.0) % 12)
    }
}
impl std::ops::Div for Clock {
    type Output = Clock;
    fn div(self, o: Clock) -> Clock {
        Clock(if o.0 == 0 { 11 - self.0 } else { self.0 / o.0 })
    }
}
impl std::ops::AddAssign for Clock {
    fn add_assign(&mut self, o: Clock) {
        *self = *self + o
    }
}
impl std::ops::SubAssign for Clock {
    fn sub_assign(&mut self, o: Clock) {
        *self = *self - o
    }
}
impl std::ops::MulAssign for Clock {
    fn mul_assign(&mut self, o: Clock) {
        *self = *self * o
    }
}
impl std::ops::DivAssign for Clock {
    fn div_assign(&mut self, o: Clock) {
        *self = *self / o
    }
}
impl std::ops::Neg for Clock {
    type Output = Clock;
    fn neg(self) -> Clock {
        Clock((12 - self.0) % 12)
    }
}
val!(Clock, "Clock", nodisplay, |s| Clock(s.us(12) as u8));

/// A type that is multiplied and divided by another type.
#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub struct Metres(i64);
impl std::ops::Add<i32> for Metres {
    type Output = Metres;
    fn add(self, o: i32) -> Metres {
        Metres(self.0 + o as i64)
    }
}
impl std::ops::Sub<i32> for Metres {
    type Output = Metres;
    fn sub(self, o: i32) -> Metres {
        Metres(self.0 - o as i64)
    }
}
impl std::ops::Mul<i32> for Metres {
    type Output = Metres;
    fn mul(self, o: i32) -> Metres {
        Metres(self.0 * o as i64)
    }
}
impl std::ops::Div<i32> for Metres {
    type Output = Metres;
    fn div(self, o: i32) -> Metres {
        Metres(self.0 / o as i64)
    }
}
val!(Metres, "Metres", nodisplay, |s| Metres(s.int(-1000, 1000) as i64));

fn c37_random(src: &mut Src) -> Res {
    fn outcome<T: Val>(src: &mut Src, x: &Tup<T>, r: Option<Tup<T>>) {
        match (x, &r) {
            (Some(_), Some(None)) => src.label("became empty"),
            (Some(p), Some(Some(q))) => {
                src.label_if(p.1 != q.1 || p.3 != q.3, "bounds exchanged");
                src.label_if(p.0 != p.2 && q.0 == q.2, "became a single value");
            }
            (_, None) => src.label("value arithmetic panics"),
            _ => src.label("empty operand"),
        }
        src.nontrivial_if(x.as_ref().map_or(false, |p| p.0 != p.2) && r.is_some());
    }
    macro_rules! prim {
        ($t:ty, $small:expr) => {{
            let x: Tup<$t> = if src.bool() { random_tup(src) } else {
                let (a, b) = (src.irange(-9, 9), src.irange(-9, 9));
                let (a, b) = (<$t>::try_from(a).unwrap_or_default(), <$t>::try_from(b).unwrap_or_default());
                renormalised(a, src.bool(), b, src.bool())
            };
            let v: $t = if src.chance(2, 3) { <$t>::try_from(src.irange(-4, 6)).unwrap_or_default() } else { <$t>::gen(src) };
            let op = src.us(4);
            src.note(|| format!("{}: {} {} {:?}", stringify!($t), tup_text(&x), ["+", "-", "*", "/"][op], v));
            let r = four_ops!(src, x.clone(), v.clone(), op, assign);
            outcome(src, &x, r);
        }};
    }
    macro_rules! other {
        ($t:ty, $u:ty, $gv:expr, $assign:ident) => {{
            let x: Tup<$t> = random_tup(src);
            let g: fn(&mut Src) -> $u = $gv;
            let v = g(src);
            let op = src.us(4);
            src.note(|| format!("{} op {}: {} {} {:?}", stringify!($t), stringify!($u), tup_text(&x), ["+", "-", "*", "/"][op], v));
            let r = four_ops!(src, x.clone(), v.clone(), op, $assign);
            outcome(src, &x, r);
        }};
    }
    match src.us(13) {
        0 => prim!(i32, 0),
        1 => prim!(i8, 0),
        2 => prim!(i64, 0),
        3 => prim!(u8, 0),
        4 => prim!(i128, 0),
        5 => prim!(u64, 0),
        6 => other!(Wrapping<i32>, Wrapping<i32>, |s| if s.bool() { Wrapping(s.irange(-5, 5) as i32) } else { <Wrapping<i32>>::gen(s) }, assign),
        7 => other!(Wrapping<i8>, Wrapping<i8>, |s| <Wrapping<i8>>::gen(s), assign),
        8 => other!(Clock, Clock, |s| Clock::gen(s), assign),
        9 => other!(Metres, i32, |s| s.irange(-4, 4) as i32, noassign),
        // both ends can meet at the limit
        11 => other!(Saturating<i8>, Saturating<i8>, |s| <Saturating<i8>>::gen(s), assign),
        12 => other!(Saturating<u8>, Saturating<u8>, |s| <Saturating<u8>>::gen(s), assign),
        _ => {
            // Duration: each operation has its own operand type
            let x: Tup<Duration> = random_tup(src);
            let op = src.us(4);
            let d = Duration::gen(src);
            let k = src.us(4) as u32;
            src.note(|| format!("Duration: {} op {} {:?} or {}", tup_text(&x), op, d, k));
            let what = || format!("{} op {} with {:?} or {}", tup_text(&x), op, d, k);
            let r = match op {
                0 => mapped(&x, |b| b + d, |i| i + d, &what)?,
                1 => mapped(&x, |b| b - d, |i| i - d, &what)?,
                2 => mapped(&x, |b| b * k, |i| i * k, &what)?,
                _ => mapped(&x, |b| b / k, |i| i / k, &what)?,
            };
            match op {
                0 => { mapped(&x, |b| b + d, |mut i| { i += d; i }, &what)?; }
                1 => { mapped(&x, |b| b - d, |mut i| { i -= d; i }, &what)?; }
                _ => {}
            }
            outcome(src, &x, r);
        }
    }
    Ok(())
}

fn c37_neg(src: &mut Src) -> Res {
    macro_rules! neg {
        ($t:ty) => {{
            let x: Tup<$t> = random_tup(src);
            src.note(|| format!("{}: -{}", stringify!($t), tup_text(&x)));
            let what = || format!("-{}", tup_text(&x));
            let r = mapped(&x, |b| -b, |i| -i, &what)?;
            src.label_if(r.is_none(), "value arithmetic panics");
            src.nontrivial_if(x.as_ref().map_or(false, |p| p.0 != p.2) && r.is_some());
            // twice gives the interval back, where the value type does
            if let (Some(Some(_)), Some(p)) = (&r, x.clone()) {
                let back = guarded(|| (-(-p.0.clone()), -(-p.2.clone())));
                if let Ok((a, b)) = back {
                    if a == p.0 && b == p.2 && -p.0.clone() != p.0.clone() && -p.2.clone() != p.2.clone() {
                        let i = Interval::new(p.0.clone(), p.1, p.2.clone(), p.3);
                        let j = -(-i.clone());
                        require!(i == j, "-(-{}) gives {:?}", tup_text(&x), j);
                    }
                }
            }
        }};
    }
    match src.us(7) {
        6 => neg!(Saturating<i8>),
        0 => neg!(i32),
        1 => neg!(i8),
        2 => neg!(Wrapping<i32>),
        3 => neg!(Clock),
        4 => neg!(i128),
        _ => neg!(Wrapping<i8>),
    }
    Ok(())
}

fn c37_small(src: &mut Src) -> Res {
    let all = all_ix(7);
    let x = all[src.us(all.len())];
    let t: Vec<i32> = (-3..=3).collect();
    let v = src.us(9) as i32 - 4;
    let op = src.us(5);
    let tup: Tup<i32> = x.map(|(a, ac, b, bc)| (t[a], ac, t[b], bc));
    src.note(|| format!("{} {} {}", tup_text(&tup), ["+", "-", "*", "/", "negated"][op], v));
    src.nontrivial_if(x.is_some());
    if op == 4 {
        if v == 0 {
            let what = || format!("-{}", tup_text(&tup));
            mapped(&tup, |b| -b, |i| -i, &what)?;
        }
        return Ok(());
    }
    four_ops!(src, tup.clone(), v, op, assign);
    Ok(())
}

mod panics;

// ---- C38 ------------------------------------------------------------------------------------------------

fn hash_of<H: Hash>(x: &H) -> u64 {
    let mut h = DefaultHasher::new();
    x.hash(&mut h);
    h.finish()
}

macro_rules! one_kind {
    ($t:expr, $B:ident, $a:expr, $ac:expr, $b:expr, $bc:expr, $open_rank:expr, $name:expr) => {{
        // position of a bound on the line: an open lower bound just above its value, an open upper one just below
        let pos = |i: usize, c: bool| 3 * i as i64 + if c { 0 } else { $open_rank };
        let (pa, pb) = (pos($a, $ac), pos($b, $bc));
        let mk = |i: usize, c: bool| $B::new($t[i].clone(), c);
        let (x, y) = (mk($a, $ac), mk($b, $bc));
        let tx = format!("{} bounds {:?} and {:?}", $name, x, y);
        same!(x.cmp(&y), pa.cmp(&pb), "cmp of {}", tx);
        same!(x.partial_cmp(&y), Some(pa.cmp(&pb)), "partial_cmp of {}", tx);
        same!((x < y, x <= y, x > y, x >= y), (pa < pb, pa <= pb, pa > pb, pa >= pb), "<, <=, >, >= of {}", tx);
        same!((x == y, x != y), (pa == pb, pa != pb), "==, != of {}", tx);
        let lo = mk($a, $ac).min(mk($b, $bc));
        let hi = mk($a, $ac).max(mk($b, $bc));
        require!(lo == if pa <= pb { mk($a, $ac) } else { mk($b, $bc) }, "min of {} is {:?}", tx, lo);
        require!(hi == if pa >= pb { mk($a, $ac) } else { mk($b, $bc) }, "max of {} is {:?}", tx, hi);
        if pa == pb {
            same!(hash_of(&x), hash_of(&y), "hash of {}", tx);
        }
        let z = x.clone();
        require!(z == x && z.val() == x.val() && z.is_closed() == x.is_closed(), "clone of {:?} differs", x);
        // against a value
        let v = &$t[$b];
        let pv = 3 * $b as i64;
        let tx = format!("{} bound {:?} and value {:?}", $name, x, v);
        same!((x < *v, x <= *v, x > *v, x >= *v), (pa < pv, pa <= pv, pa > pv, pa >= pv), "<, <=, >, >= of {}", tx);
        same!((x == *v, x != *v), (pa == pv, pa != pv), "==, != of {}", tx);
        same!(x.partial_cmp(v), Some(pa.cmp(&pv)), "partial_cmp of {}", tx);
    }};
}

fn same_kind<T: Val>(t: &[T], a: usize, ac: bool, b: usize, bc: bool) -> Res {
    one_kind!(t, LowerBound, a, ac, b, bc, 1, "lower");
    one_kind!(t, UpperBound, a, ac, b, bc, -1, "upper");
    Ok(())
}

fn c38_random_t<T: Val>(src: &mut Src) -> Res {
    let n = src.range(1, 6);
    let t: Vec<T> = table(src, n);
    let k = src.range(2, 6);
    let bs: Vec<(usize, bool)> = (0..k).map(|_| (src.us(t.len()), src.bool())).collect();
    src.note(|| format!("{}: {:?} over {:?}", T::NAME, bs, t));
    for &(a, ac) in &bs {
        for &(b, bc) in &bs {
            same_kind(&t, a, ac, b, bc)?;
        }
    }
    // sorting
    let mut l: Vec<LowerBound<T>> = bs.iter().map(|&(i, c)| LowerBound::new(t[i].clone(), c)).collect();
    l.sort();
    for w in l.windows(2) {
        require!(w[0].val() < w[1].val() || (w[0].val() == w[1].val() && (w[0].is_closed() || !w[1].is_closed())), "sorted lower bounds {:?}", l);
    }
    let mut u: Vec<UpperBound<T>> = bs.iter().map(|&(i, c)| UpperBound::new(t[i].clone(), c)).collect();
    u.sort();
    for w in u.windows(2) {
        require!(w[0].val() < w[1].val() || (w[0].val() == w[1].val() && (!w[0].is_closed() || w[1].is_closed())), "sorted upper bounds {:?}", u);
    }
    same!(l.iter().min().map(|x| (x.val().clone(), x.is_closed())), l.first().map(|x| (x.val().clone(), x.is_closed())), "minimum of lower bounds");
    src.nontrivial_if(t.len() >= 2);
    Ok(())
}
fn c38_random(src: &mut Src) -> Res {
    any_type!(src, c38_random_t)
}
fn c38_small(src: &mut Src) -> Res {
    let t = small_table_i32();
    let (a, b) = (src.us(5), src.us(5));
    let f = src.us(4);
    src.note(|| format!("{} {} flags {}", t[a], t[b], f));
    src.nontrivial = true;
    same_kind(&t, a, f & 1 == 1, b, f & 2 == 2)?;
    same_kind(&small_table_string(), a, f & 1 == 1, b, f & 2 == 2)?;
    same_kind(&small_table_rev(), a, f & 1 == 1, b, f & 2 == 2)
}

// ---- C39 ------------------------------------------------------------------------------------------------

fn cross_kind<T: Val>(src: &mut Src, t: &[T], a: usize, lc: bool, b: usize, uc: bool) -> Res {
    let l = LowerBound::new(t[a].clone(), lc);
    let u = UpperBound::new(t[b].clone(), uc);
    let tx = format!("lower {:?} and upper {:?}", l, u);
    same!((l == u, u == l, l != u, u != l), (false, false, true, true), "==, ==, !=, != of {}", tx);
    let o = a.cmp(&b);
    let open = !lc || !uc;
    same!((l <= u, l >= u), (o != Ordering::Greater, o != Ordering::Less), "<=, >= of {}", tx);
    same!((u <= l, u >= l), (o != Ordering::Less, o != Ordering::Greater), "<=, >= of {} (swapped)", tx);
    // an upper bound precedes a lower bound of the same value unless both are closed
    same!((u < l, l > u), (o == Ordering::Greater || (o == Ordering::Equal && open), o == Ordering::Greater || (o == Ordering::Equal && open)), "upper < lower, lower > upper of {}", tx);
    if o == Ordering::Equal && open {
        let flags = |c: bool| if c { "closed" } else { "open" };
        if l < u {
            src.deviation(&format!("lower<upper:equal-values:{}-lower:{}-upper", flags(lc), flags(uc)), format!("both < and > hold for {}", tx))?;
        }
        if u > l {
            src.deviation(&format!("upper>lower:equal-values:{}-lower:{}-upper", flags(lc), flags(uc)), format!("both > and < hold for {} (swapped)", tx))?;
        }
        if l.partial_cmp(&u) != Some(Ordering::Greater) {
            src.deviation(&format!("lower.partial_cmp(upper)={:?}:equal-values:{}-lower:{}-upper", l.partial_cmp(&u), flags(lc), flags(uc)), format!("partial_cmp does not mirror for {}", tx))?;
        }
        same!(u.partial_cmp(&l), Some(Ordering::Less), "upper.partial_cmp(lower) of {}", tx);
    } else {
        same!((l < u, u > l), (o == Ordering::Less, o == Ordering::Less), "lower < upper, upper > lower of {}", tx);
        let w = if o == Ordering::Equal { None } else { Some(o) };
        same!(l.partial_cmp(&u), w, "lower.partial_cmp(upper) of {}", tx);
        same!(u.partial_cmp(&l), w.map(|x| x.reverse()), "upper.partial_cmp(lower) of {}", tx);
    }
    let sep = o == Ordering::Greater || (o == Ordering::Equal && !lc && !uc);
    same!((l.is_separated_from(&u), u.is_separated_from(&l)), (sep, sep), "is_separated_from of {}", tx);
    Ok(())
}
fn c39_random_t<T: Val>(src: &mut Src) -> Res {
    let n = src.range(1, 4);
    let t: Vec<T> = table(src, n);
    let a = src.us(t.len());
    let b = if src.chance(1, 3) { a } else { src.us(t.len()) };
    let (lc, uc) = (src.bool(), src.bool());
    src.note(|| format!("{}: lower {:?} {} upper {:?} {}", T::NAME, t[a], lc, t[b], uc));
    src.label_if(a == b, "equal values");
    src.nontrivial = true;
    cross_kind(src, &t, a, lc, b, uc)
}
fn c39_random(src: &mut Src) -> Res {
    any_type!(src, c39_random_t)
}
fn c39_small(src: &mut Src) -> Res {
    let (a, b) = (src.us(5), src.us(5));
    let f = src.us(4);
    let (lc, uc) = (f & 1 == 1, f & 2 == 2);
    src.note(|| format!("lower {} {} upper {} {}", small_table_i32()[a], lc, small_table_i32()[b], uc));
    src.nontrivial = true;
    cross_kind(src, &small_table_i32(), a, lc, b, uc)?;
    cross_kind(src, &small_table_string(), a, lc, b, uc)?;
    cross_kind(src, &small_table_rev(), a, lc, b, uc)
}

// ---- C40 ------------------------------------------------------------------------------------------------

fn faithful<T: Val>(src: &mut Src, t: &[T], a: &Ix, b: &Ix) -> Res {
    let r = src.draw(3);
    let (ia, ib) = (build(t, a, r), build(t, b, 0));
    let text = format!("{} and {}", ix_text(t, a), ix_text(t, b));
    same!((ia == ib, ib == ia, ia != ib), (a == b, a == b, a != b), "==, ==, != of {}", text);
    if a == b {
        same!(hash_of(&ia), hash_of(&ib), "hash of {}", text);
    }
    let c = ia.clone();
    is(t, &c, a, &format!("clone of {}", ix_text(t, a)))?;
    require!(c == ia && hash_of(&c) == hash_of(&ia), "clone of {} differs", ix_text(t, a));
    // the same interval reached by a computation
    let d = ia.clone().into_span(ia.clone());
    require!(d == ia && hash_of(&d) == hash_of(&ia), "span of {} with itself differs", ix_text(t, a));
    let e = ia.clone().into_span(ib.clone()).into_intersection(ia.clone());
    require!(e == ia && hash_of(&e) == hash_of(&ia), "(a span b) intersected with a differs from a for {}", text);
    let mut s = std::collections::HashSet::new();
    s.insert(ia.clone());
    s.insert(ib.clone());
    s.insert(d);
    same!(s.len(), if a == b { 1 } else { 2 }, "distinct intervals in a hash set of {}", text);
    if let Some(got) = T::shown(&ia) {
        let want = match *a {
            None => "Ø".to_string(),
            Some((x, xc, y, yc)) => format!("{}{},{}{}", if xc { "[" } else { "(" }, t[x].show().unwrap(), t[y].show().unwrap(), if yc { "]" } else { ")" }),
        };
        same!(got, want, "display of {}", ix_text(t, a));
    }
    Ok(())
}
pair_suite!(c40_small, c40_random, c40_generic, faithful);

// ---- C41 ------------------------------------------------------------------------------------------------

fn normal_form<T: Val>(i: &Interval<T>, what: &str) -> Res {
    match i.clone().into_tuple() {
        None => {
            require!(i.is_empty() && i.lower().is_none() && i.upper().is_none(), "{}: {:?} is half empty", what, i);
        }
        Some((a, ac, b, bc)) => {
            require!(!i.is_empty(), "{}: {:?} is reported empty", what, i);
            require!(a < b || (a == b && ac && bc), "{}: {:?} is not a valid interval", what, i);
            let again = guarded(|| Interval::new(a, ac, b, bc));
            match again {
                Ok(j) => require!(j == *i, "{}: rebuilding {:?} gives {:?}", what, i, j),
                Err(m) => return Err(format!("{}: {:?} cannot be rebuilt: {}", what, i, m)),
            }
            match i.clone().into_bounds() {
                None => return Err(format!("{}: {:?} has no bounds", what, i)),
                Some((l, u)) => match guarded(|| Interval::from_bounds(l, u)) {
                    Ok(j) => require!(j == *i, "{}: rebuilding {:?} from its bounds gives {:?}", what, i, j),
                    Err(m) => return Err(format!("{}: {:?} cannot be rebuilt from its bounds: {}", what, i, m)),
                },
            }
        }
    }
    Ok(())
}

/// Set operations on tuples, through the index space.
fn set_op<T: Val>(a: &Tup<T>, b: &Tup<T>, f: fn(u64, u64) -> Option<u64>) -> Option<Tup<T>> {
    let mut t: Vec<T> = Vec::new();
    for x in [a, b].iter() {
        if let Some((p, _, q, _)) = x {
            t.push(p.clone());
            t.push(q.clone());
        }
    }
    t.sort();
    t.dedup();
    let ix = |x: &Tup<T>| -> Ix { x.as_ref().map(|(p, pc, q, qc)| (t.binary_search(p).unwrap(), *pc, t.binary_search(q).unwrap(), *qc)) };
    f(cells(&ix(a)), cells(&ix(b))).map(|m| uncells(m).map(|(p, pc, q, qc)| (t[p].clone(), pc, t[q].clone(), qc)))
}

macro_rules! history {
    ($name:ident, $t:ty, $vgen:expr, $($neg:tt)*) => {
        fn $name(src: &mut Src) -> Res {
            let n = src.range(2, 4);
            let mut m: Vec<Tup<$t>> = (0..n).map(|_| random_tup::<$t>(src)).collect();
            let mk = |x: &Tup<$t>| match x.clone() {
                None => Interval::empty(),
                Some((a, ac, b, bc)) => Interval::new(a, ac, b, bc),
            };
            let mut p: Vec<Interval<$t>> = m.iter().map(|x| mk(x)).collect();
            src.note(|| format!("{}: {}", stringify!($t), m.iter().map(|x| tup_text(x)).collect::<Vec<_>>().join(" / ")));
            let steps = src.size(10, 40);
            let (mut emptied, mut refused, mut turned) = (0, 0, 0);
            let gv: fn(&mut Src) -> $t = $vgen;
            for _ in 0..steps {
                let i = src.us(n);
                let j = src.us(n);
                let op = src.us(16);
                let was = m[i].clone();
                let (a, b) = (p[i].clone(), p[j].clone());
                let union = |x: u64, y: u64| if x == 0 || y == 0 || contiguous(x | y) { Some(x | y) } else { None };
                match op {
                    0 | 1 => {
                        let w = set_op(&m[i], &m[j], union);
                        let ok;
                        if op == 0 {
                            ok = p[i].merge(b).is_ok();
                        } else {
                            match a.into_merged(b) {
                                Ok(x) => { p[i] = x; ok = true; }
                                Err((x, y)) => { p[i] = x; p[j] = y; ok = false; }
                            }
                        }
                        same!(ok, w.is_some(), "merge of {} and {} succeeds", tup_text(&was), tup_text(&m[j]));
                        match w { Some(w) => m[i] = w, None => refused += 1 }
                    }
                    2 => { p[i].intersection(b); m[i] = set_op(&m[i], &m[j], |x, y| Some(x & y)).unwrap(); }
                    3 => { p[i] = a.into_intersection(b); m[i] = set_op(&m[i], &m[j], |x, y| Some(x & y)).unwrap(); }
                    4 => { p[i].span(b); m[i] = set_op(&m[i], &m[j], |x, y| Some(hull(x | y))).unwrap(); }
                    5 => { p[i] = a.into_span(b); m[i] = set_op(&m[i], &m[j], |x, y| Some(hull(x | y))).unwrap(); }
                    6..=13 => {
                        let v = gv(src);
                        let k = op % 4;
                        let assign = op >= 10;
                        let w = match m[i].clone() {
                            None => Ok(None),
                            Some((x, xc, y, yc)) => guarded(|| match k {
                                0 => renormalised(x + v, xc, y + v, yc),
                                1 => renormalised(x - v, xc, y - v, yc),
                                2 => renormalised(x * v, xc, y * v, yc),
                                _ => renormalised(x / v, xc, y / v, yc),
                            }),
                        };
                        let r = guarded(|| {
                            let mut c = a;
                            match (k, assign) {
                                (0, false) => c + v,
                                (1, false) => c - v,
                                (2, false) => c * v,
                                (3, false) => c / v,
                                (0, _) => { c += v; c }
                                (1, _) => { c -= v; c }
                                (2, _) => { c *= v; c }
                                _ => { c /= v; c }
                            }
                        });
                        match (w, r) {
                            (Ok(w), Ok(r)) => {
                                if let (Some(x), Some(y)) = (&m[i], &w) { turned += (x.1 != y.1 || x.3 != y.3) as u32; }
                                m[i] = w;
                                p[i] = r;
                            }
                            (Err(_), Err(_)) => {}
                            (Ok(w), Err(e)) => return Err(format!("{} {} {:?}{} panicked ({}), expected {}", tup_text(&was), ["+", "-", "*", "/"][k], v, if assign { " (assigning)" } else { "" }, e, tup_text(&w))),
                            (Err(e), Ok(r)) => return Err(format!("{} {} {:?} gave {:?} although the value arithmetic panics ({})", tup_text(&was), ["+", "-", "*", "/"][k], v, r, e)),
                        }
                    }
                    14 => {
                        $($neg)*(i, a, &mut p, &mut m)?;
                    }
                    _ => {
                        let x = random_tup::<$t>(src);
                        p[i] = mk(&x);
                        m[i] = x;
                    }
                }
                src.note(|| format!("op {} on {} and {}: {}", op, tup_text(&was), j, tup_text(&m[i])));
                emptied += (was.is_some() && m[i].is_none()) as u32;
                normal_form(&p[i], "after an operation")?;
                same!(p[i].clone().into_tuple(), m[i].clone(), "interval {} after operation {} on {}", i, op, tup_text(&was));
                normal_form(&p[j], "other operand after an operation")?;
            }
            for (x, y) in p.iter().zip(m.iter()) {
                same!(x.clone().into_tuple(), y.clone(), "final");
            }
            src.label_if(emptied > 0, "became empty");
            src.label_if(refused > 0, "merge refused");
            src.label_if(turned > 0, "bounds exchanged");
            src.nontrivial_if(steps >= 3 && m.iter().any(|x| x.is_some()));
            Ok(())
        }
    };
}
macro_rules! negate {
    ($name:ident, $t:ty) => {
        fn $name(i: usize, a: Interval<$t>, p: &mut Vec<Interval<$t>>, m: &mut Vec<Tup<$t>>) -> Res {
            let w = match m[i].clone() {
                None => Ok(None),
                Some((x, xc, y, yc)) => guarded(|| renormalised(-y, yc, -x, xc)),
            };
            match (w, guarded(|| -a)) {
                (Ok(w), Ok(r)) => {
                    m[i] = w;
                    p[i] = r;
                    Ok(())
                }
                (Err(_), Err(_)) => Ok(()),
                (w, r) => Err(format!("negation of {} gives {:?}, expected {:?}", tup_text(&m[i]), r, w)),
            }
        }
    };
}
fn no_neg<T>(_i: usize, _a: Interval<T>, _p: &mut Vec<Interval<T>>, _m: &mut Vec<Tup<T>>) -> Res
where
    T: Ord,
{
    Ok(())
}
negate!(neg_i32, i32);
negate!(neg_w8, Wrapping<i8>);
negate!(neg_s8, Saturating<i8>);
negate!(neg_i128, i128);
negate!(neg_clock, Clock);
history!(hist_i32, i32, |s| s.irange(-3, 4) as i32, neg_i32);
history!(hist_w8, Wrapping<i8>, |s| Wrapping(s.int(-128, 127) as i8), neg_w8);
history!(hist_i128, i128, |s| s.int(-5, 1 << 70), neg_i128);
history!(hist_clock, Clock, |s| Clock(s.us(12) as u8), neg_clock);
history!(hist_s8, Saturating<i8>, |s| Saturating(if s.bool() { s.int(-128, 127) } else { s.irange(-3, 3) as i128 } as i8), neg_s8);
history!(hist_u8, u8, |s| s.us(5) as u8, no_neg);

fn c41(src: &mut Src) -> Res {
    match src.us(6) {
        5 => hist_s8(src),
        0 => hist_i32(src),
        1 => hist_w8(src),
        2 => hist_clock(src),
        3 => hist_i128(src),
        _ => hist_u8(src),
    }
}

// ---- C42 ------------------------------------------------------------------------------------------------

macro_rules! bound_ops {
    ($src:expr, $t:ty, $u:ty, $gv:expr, $assign:tt) => {{
        let x = <$t>::gen($src);
        let g: fn(&mut Src) -> $u = $gv;
        let v = g($src);
        let c = $src.bool();
        let op = $src.us(4);
        $src.note(|| format!("{:?} ({}) {} {:?}", x, if c { "closed" } else { "open" }, ["+", "-", "*", "/"][op], v));
        let want = guarded(|| match op { 0 => x.clone() + v.clone(), 1 => x.clone() - v.clone(), 2 => x.clone() * v.clone(), _ => x.clone() / v.clone() });
        bound_ops!(@one LowerBound, "lower", x, v, c, op, want, $assign);
        bound_ops!(@one UpperBound, "upper", x, v, c, op, want, $assign);
        $src.nontrivial_if(want.as_ref().map_or(false, |w| *w != x));
        $src.label_if(want.is_err(), "value arithmetic panics");
    }};
    (@one $B:ident, $name:expr, $x:expr, $v:expr, $c:expr, $op:expr, $want:expr, $assign:tt) => {{
        let b = $B::new($x.clone(), $c);
        same!((b.val().clone(), b.is_closed()), ($x.clone(), $c), "{} bound", $name);
        same!(b.clone().into_tuple(), ($x.clone(), $c), "{} bound into_tuple", $name);
        let r = guarded(|| match $op { 0 => b.clone() + $v.clone(), 1 => b.clone() - $v.clone(), 2 => b.clone() * $v.clone(), _ => b.clone() / $v.clone() });
        match (&$want, r) {
            (Ok(w), Ok(r)) => {
                same!((r.val().clone(), r.is_closed()), (w.clone(), $c), "{} bound after operation {}", $name, $op);
                same!(r.into_tuple(), (w.clone(), $c), "{} bound after operation {}: into_tuple", $name, $op);
            }
            (Err(_), Err(_)) => {}
            (w, r) => return Err(format!("{} bound operation {}: got {:?}, expected {:?}", $name, $op, r, w)),
        }
        bound_ops!(@$assign b, $name, $v, $c, $op, $want);
    }};
    (@assign $b:expr, $name:expr, $v:expr, $c:expr, $op:expr, $want:expr) => {{
        let r = guarded(|| { let mut d = $b.clone(); match $op { 0 => d += $v.clone(), 1 => d -= $v.clone(), 2 => d *= $v.clone(), _ => d /= $v.clone() }; d });
        match (&$want, r) {
            (Ok(w), Ok(r)) => { same!(r.into_tuple(), (w.clone(), $c), "{} bound after assigning operation {}", $name, $op); }
            (Err(_), Err(_)) => {}
            (w, r) => return Err(format!("{} bound assigning operation {}: got {:?}, expected {:?}", $name, $op, r, w)),
        }
    }};
    (@noassign $b:expr, $name:expr, $v:expr, $c:expr, $op:expr, $want:expr) => { () };
}

fn c42(src: &mut Src) -> Res {
    match src.us(9) {
        8 => bound_ops!(src, Saturating<i8>, Saturating<i8>, |s| <Saturating<i8>>::gen(s), assign),
        0 => bound_ops!(src, i32, i32, |s| if s.bool() { s.irange(-5, 5) as i32 } else { i32::gen(s) }, assign),
        1 => bound_ops!(src, i8, i8, |s| i8::gen(s), assign),
        2 => bound_ops!(src, u64, u64, |s| if s.bool() { s.us(6) as u64 } else { u64::gen(s) }, assign),
        3 => bound_ops!(src, Wrapping<i32>, Wrapping<i32>, |s| <Wrapping<i32>>::gen(s), assign),
        4 => bound_ops!(src, Clock, Clock, |s| Clock::gen(s), assign),
        5 => bound_ops!(src, Metres, i32, |s| s.irange(-4, 4) as i32, noassign),
        6 => bound_ops!(src, i128, i128, |s| s.int(-9, 9), assign),
        _ => bound_ops!(src, u8, u8, |s| u8::gen(s), assign),
    }
    Ok(())
}

pub fn suites() -> Vec<Suite> {
    let r = Kind::Random;
    let x = Kind::Exhaustive;
    let s = |prop, name, kind, quick, thorough, run: CheckFn, about| Suite { prop, name, kind, quick, thorough, miri: 0, run, about };
    const SMALL: &str = "every pair of intervals over 5 values for i32, String and Reverse<i64> (every relative position of four end points), every construction route; non-trivial: both non-empty";
    const RANDOM: &str = "pairs of intervals over random tables of 1 to 8 values of 17 types including extreme values; non-trivial: both non-empty and different";
    vec![
        s("C30", "interval/construct", r, 3_000_000, 60_000_000, c30_random, "every constructor on random values and flags of 17 types, valid and invalid, accessors and conversions compared; non-trivial: 2 or more distinct values in the table"),
        s("C30", "interval/construct-i8", x, 1, 1, c30_i8, "every pair of i8 values with every closedness; every case is non-trivial"),
        s("C31", "interval/membership", r, 4_000_000, 80_000_000, c31_random, "intervals over random tables of up to 12 values of 17 types, membership of every value of the table; non-trivial: non-empty interval and 3 or more values"),
        s("C31", "interval/membership-i8", x, 1, 1, c31_small, "every interval within -4..=4 against every i8 value; non-trivial: not empty"),
        s("C32", "interval/inclusion-small", x, 1, 1, c32_small, SMALL),
        s("C32", "interval/inclusion", r, 4_000_000, 80_000_000, c32_random, RANDOM),
        s("C32", "interval/inclusion-chains", r, 2_000_000, 40_000_000, c32_chain, "triples of intervals, transitivity; non-trivial: three different intervals contained in each other"),
        s("C33", "interval/intersection-small", x, 1, 1, c33_small, SMALL),
        s("C33", "interval/intersection", r, 3_000_000, 80_000_000, c33_random, RANDOM),
        s("C34", "interval/merge-small", x, 1, 1, c34_small, SMALL),
        s("C34", "interval/merge", r, 3_000_000, 80_000_000, c34_random, RANDOM),
        s("C35", "interval/span-small", x, 1, 1, c35_small, SMALL),
        s("C35", "interval/span", r, 3_000_000, 80_000_000, c35_random, RANDOM),
        s("C36", "interval/compare-small", x, 1, 1, c36_small, SMALL),
        s("C36", "interval/compare", r, 3_000_000, 80_000_000, c36_random, RANDOM),
        s("C37", "interval/arithmetic", r, 6_000_000, 100_000_000, c37_random, "four operations in both forms on intervals of 13 value types (overflowing, wrapping, saturating, modular, other operand type) against the operation applied to both bound values; non-trivial: two different bound values and no arithmetic panic"),
        s("C37", "interval/negation", r, 2_000_000, 30_000_000, c37_neg, "negation of intervals of 7 value types; non-trivial as for interval/arithmetic"),
        s("C37", "interval/arithmetic-small", x, 1, 1, c37_small, "every interval within -3..=3, every operand in -4..=4, every operation and form; non-trivial: not empty"),
        s("C38", "interval/bounds-order", r, 800_000, 40_000_000, c38_random, "all pairs out of 2 to 6 bounds of each kind over 17 value types, against positions on a line; sorting, min, max, hash; non-trivial: 2 or more distinct values"),
        s("C38", "interval/bounds-order-small", x, 1, 1, c38_small, "every pair of bounds over 5 values of three types; every case is non-trivial"),
        s("C39", "interval/bounds-cross", r, 4_000_000, 80_000_000, c39_random, "lower and upper bounds over 17 value types, all operators in both orders; every case is non-trivial"),
        s("C39", "interval/bounds-cross-small", x, 1, 1, c39_small, "every lower and upper bound over 5 values of three types; every case is non-trivial"),
        s("C40", "interval/faithful-small", x, 1, 1, c40_small, SMALL),
        s("C40", "interval/faithful", r, 3_000_000, 60_000_000, c40_random, RANDOM),
        s("C41", "interval/history", r, 3_000_000, 80_000_000, c41, "histories of up to 40 operations over a pool of 2 to 4 intervals of 5 value types, tuple model; every reached interval is rebuilt from its parts; non-trivial: 3 or more steps and a non-empty interval at the end"),
        s("C43", "interval/panicking-arithmetic", r, 4_000_000, 20_000_000, panics::c43_values, "+= -= *= /= on integers (overflow in the checked build, division by zero) and durations: after a panic the interval is what it was; non-trivial: it panicked on an interval of more than a value"),
        s("C43", "interval/panicking-code", r, 4_000_000, 20_000_000, panics::c43_code, "every operation on a bound type whose n-th comparison, clone or arithmetic operation panics: the interval stays valid, unchanged by arithmetic assignments, empty or with bounds of the operands after a comparison panics in an operation in place; non-trivial: it panicked on a non-empty interval"),
        s("C42", "interval/bound-arithmetic", r, 6_000_000, 100_000_000, c42, "four operations in both forms on both kinds of bounds of 8 value types; non-trivial: the value changes"),
    ]
}
