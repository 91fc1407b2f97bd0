//! Counter: C20..C24.

use super::keys::*;
use super::{Hinted, Kind, Suite, HINTS};
use crate::engine::*;
use crate::{require, same};
use advanced_collections::counter::Counter;
use std::collections::hash_map::RandomState;
use std::collections::{BTreeMap, HashMap};
use std::iter::FromIterator;

type Model = BTreeMap<u32, usize>;

fn mk<K: Key>(k: u32) -> K {
    K::make(k, 0)
}

fn dump<K: Key, S: Hs>(c: &Counter<K, S>) -> Model {
    let mut m = Model::new();
    for (k, v) in c.iter() {
        m.insert(k.num(), *v);
    }
    m
}

/// The counter holds exactly the entries of the model, whichever way it is asked.
fn matches<K: Key, S: Hs>(c: &Counter<K, S>, m: &Model, universe: u32, what: &str) -> Res {
    same!(c.len(), m.len(), "{}: len", what);
    same!(c.is_empty(), m.is_empty(), "{}: is_empty", what);
    same!(dump(c), *m, "{}: entries", what);
    for k in 0..universe.min(24) {
        let key = mk::<K>(k);
        same!(c.get(&key).copied(), m.get(&key.num()).copied(), "{}: get({:?})", what, key);
        same!(c.contains_key(&key), m.contains_key(&key.num()), "{}: contains_key({:?})", what, key);
        if let Some(&n) = m.get(&key.num()) {
            same!(c[&key], n, "{}: index {:?}", what, key);
        }
    }
    Ok(())
}

/// == and != where the hasher type allows comparing counters (a hash builder that is itself comparable).
trait CmpHs: Hs {
    fn cmp<K: Key>(_a: &Counter<K, Self>, _b: &Counter<K, Self>) -> Option<(bool, bool)> {
        None
    }
}
impl CmpHs for RandomState {}
macro_rules! cmp_hs {
    ($($t:ty),*) => { $(impl CmpHs for $t {
        fn cmp<K: Key>(a: &Counter<K, Self>, b: &Counter<K, Self>) -> Option<(bool, bool)> { Some((a == b, a != b)) }
    })* };
}
cmp_hs!(Sip, Fnv, Collide, Seeded);

fn eq<K: Key, S: CmpHs>(a: &Counter<K, S>, b: &Counter<K, S>) -> bool {
    S::cmp(a, b).map_or(true, |r| r == (true, false))
}

trait RefExtend: Key {
    fn extend_ref<S: Hs>(_d: &mut Counter<Self, S>, _v: Vec<&Self>, _kind: u64) -> bool {
        false
    }
}
macro_rules! ref_extend {
    ($($t:ty),*) => { $(impl RefExtend for $t {
        fn extend_ref<S: Hs>(d: &mut Counter<Self, S>, v: Vec<&Self>, kind: u64) -> bool { d.extend(Hinted { it: v.into_iter(), kind }); true }
    })* };
}
ref_extend!(i32, u8, u64, char, ());
impl RefExtend for String {}
impl RefExtend for (u8, String) {}
impl RefExtend for std::rc::Rc<i64> {}
impl RefExtend for Tagged {}

macro_rules! dispatch {
    ($src:expr, $f:ident $(, $arg:expr)*) => {
        match $src.us(12) {
            0 => $f::<i32, RandomState, Fnv>($src $(, $arg)*),
            1 => $f::<Tagged, Fnv, Collide>($src $(, $arg)*),
            2 => $f::<String, Sip, RandomState>($src $(, $arg)*),
            3 => $f::<u8, Collide, Sip>($src $(, $arg)*),
            4 => $f::<u64, Seeded, Fnv>($src $(, $arg)*),
            5 => $f::<char, Sip, Sip>($src $(, $arg)*),
            6 => $f::<(u8, String), RandomState, Collide>($src $(, $arg)*),
            7 => $f::<std::rc::Rc<i64>, Fnv, RandomState>($src $(, $arg)*),
            8 => $f::<Tagged, Seeded, Seeded>($src $(, $arg)*),
            9 => $f::<String, Collide, Fnv>($src $(, $arg)*),
            10 => $f::<(), RandomState, Fnv>($src $(, $arg)*),
            _ => $f::<i32, RandomState, RandomState>($src $(, $arg)*),
        }
    };
}

fn new_counter<K: Key, S: Hs>(src: &mut Src) -> Counter<K, S> {
    match src.draw(5) {
        0 => Counter::new(),
        1 => Counter::with_capacity(src.size(4, 300)),
        2 => Counter::with_hasher(S::default()),
        3 => Counter::with_capacity_and_hasher(src.size(4, 300), S::default()),
        _ => Default::default(),
    }
}

/// Keys: usually few with many repetitions.
fn keys_of(src: &mut Src, n: usize, uni: u32) -> Vec<u32> {
    let skew = src.chance(1, 3);
    (0..n).map(|_| if skew && src.bool() { 0 } else { src.draw(uni as u64) as u32 }).collect()
}

fn universe<K: Key>(src: &mut Src) -> u32 {
    let u = if src.chance(1, 8) { src.range(20, 200) } else { src.range(1, 9) };
    (u as u32).min(K::CARD)
}

fn add(m: &mut Model, ks: &[u32]) {
    for &k in ks {
        *m.entry(k).or_insert(0) += 1;
    }
}

mod extra;

// ---- C20 ------------------------------------------------------------------------------------------------

fn counting<K: RefExtend, S: CmpHs, S2: CmpHs>(src: &mut Src) -> Res {
    let uni = universe::<K>(src);
    let mut c: Counter<K, S> = new_counter(src);
    let mut m = Model::new();
    src.note(|| format!("keys {} hasher {} universe {}", K::NAME, S::NAME, uni));
    matches(&c, &m, uni, "new counter")?;
    let ops = src.size(8, 30);
    let mut tag = 0;
    for _ in 0..ops {
        let op = src.us(11);
        let n = if op == 0 { 1 } else { src.size(8, 60) };
        let ks = keys_of(src, n, uni);
        tag += 100;
        let kv: Vec<K> = ks.iter().enumerate().map(|(i, &k)| K::make(k, tag + i as u32)).collect();
        let how;
        let mut fresh = false;
        match op {
            0 => {
                how = "push";
                for k in kv {
                    c.push(k);
                }
            }
            1 => {
                how = "extend by reference";
                let refs = if src.bool() { palette(&ks, &kv) } else { kv.iter().collect() };
                if !K::extend_ref(&mut c, refs, src.draw(HINTS)) {
                    c.extend(kv);
                }
            }
            2 => {
                how = "extend";
                c.extend(kv);
            }
            3 => {
                how = "extend from a loose iterator";
                c.extend(Hinted { it: kv.into_iter(), kind: src.draw(HINTS) });
            }
            4 => {
                how = "new counter from owned elements";
                fresh = true;
                c = Counter::from_iter(kv);
            }
            5 => {
                how = "new counter from references";
                fresh = true;
                c = if src.bool() { Counter::from_iter(palette(&ks, &kv)) } else { Counter::from_iter(kv.iter()) };
            }
            6 => {
                how = "new counter from a loose iterator";
                fresh = true;
                c = if src.bool() { Counter::from_iter(Hinted { it: kv.into_iter(), kind: src.draw(HINTS) }) } else { Counter::from_iter(Hinted { it: kv.iter(), kind: src.draw(HINTS) }) };
            }
            7 => {
                how = "pushes one by one";
                for k in kv {
                    c.push(k);
                }
            }
            8 => {
                how = "collect";
                fresh = true;
                c = kv.into_iter().collect();
            }
            9 => {
                how = "continue on a clone, the original changed";
                let d = c.clone();
                c.extend(kv);
                c = d;
            }
            _ => {
                how = "extend by an interleaved chain";
                c.extend(kv.iter().rev().cloned().chain(kv.iter().cloned()));
                add(&mut m, &ks);
            }
        }
        src.note(|| format!("{} {:?}", how, ks));
        if fresh {
            m.clear();
        }
        if op != 9 {
            add(&mut m, &ks);
        }
        same!(c.len(), m.len(), "after {}: number of entries", how);
        if let Some(&k) = ks.first() {
            same!(c.get(&mk(k)), m.get(&k), "after {}: count of {}", how, k);
        }
    }
    matches(&c, &m, uni + 2, "final")?;
    let total: usize = m.values().sum();
    same!(c.values().sum::<usize>(), total, "total of all counts");
    src.label_if(m.values().any(|&v| v >= 10), "count of 10 or more");
    src.label_if(m.len() >= 20, "20 or more entries");
    src.nontrivial_if(m.len() >= 2 && total > m.len() + 1);
    Ok(())
}

fn c20_history(src: &mut Src) -> Res {
    dispatch!(src, counting)
}

fn counting_large<K: RefExtend, S: Hs>(src: &mut Src) -> Res {
    // many distinct elements and many repetitions
    let uni = match src.draw(4) {
        0 => src.range(1, 3),
        1 => src.range(100, 20_000),
        _ => src.size(200, 110_000).max(1),
    } as u64;
    let n = if src.chance(1, 6) { src.range(65_500, 140_000) } else { src.range(1000, if src.scale == 1 { 200_000 } else { 20_000 }) };
    let mut rng = Rng::new(src.draw(1 << 32));
    let mut c: Counter<K, S> = Counter::with_capacity(src.us(3) * 5000);
    let mut m: Vec<usize> = vec![0; uni as usize];
    let spread = src.us(3);
    src.note(|| format!("keys {} hasher {}: {} elements out of {}, spread {}", K::NAME, S::NAME, n, uni, ["uniform", "skewed", "each once, again and again"][spread]));
    let ks: Vec<u32> = (0..n as u64)
        .map(|i| {
            let a = rng.next() % uni;
            let b = rng.next() % uni;
            let k = match spread {
                0 => a,
                1 => a.min(b),
                _ => i % uni,
            } as u32;
            m[k as usize] += 1;
            k
        })
        .collect();
    let kv: Vec<K> = ks.iter().map(|&k| mk(k)).collect();
    let cut = match src.draw(3) {
        0 => 0,
        1 => n,
        _ => src.us(n + 1),
    };
    let how = src.us(6);
    src.note(|| format!("{} one by one or collected, the rest extended, way {}", cut, how));
    match how % 3 {
        0 => kv[..cut].iter().for_each(|k| c.push(k.clone())),
        1 => c = kv[..cut].iter().collect(),
        _ => c = kv[..cut].to_vec().into_iter().collect(),
    }
    let rest = palette(&ks[cut..], &kv[cut..]);
    if how >= 3 || !K::extend_ref(&mut c, rest, src.draw(HINTS)) {
        c.extend(kv[cut..].to_vec())
    }
    same!(c.len(), m.iter().filter(|&&x| x > 0).count(), "number of entries");
    for k in 0..uni as u32 {
        same!(c.get(&mk::<K>(k)).copied().unwrap_or(0), m[k as usize], "count of {}", k);
    }
    src.label_if(m.iter().any(|&x| x > 65_536), "a count above 65536");
    src.label_if(c.len() > 65_536, "more than 65536 entries");
    src.nontrivial = true;
    Ok(())
}

fn c20_large(src: &mut Src) -> Res {
    match src.us(4) {
        0 => counting_large::<u64, Fnv>(src),
        1 => counting_large::<i32, RandomState>(src),
        2 => counting_large::<String, Fnv>(src),
        _ => counting_large::<(u8, String), Sip>(src),
    }
}

fn c20_small(src: &mut Src) -> Res {
    // every string of up to 7 letters over 3, split into pushes and an extend
    let n = src.us(8);
    let ks: Vec<u32> = (0..n).map(|_| src.us(3) as u32).collect();
    let mut m = Model::new();
    add(&mut m, &ks);
    src.note(|| format!("{:?}", ks));
    let kv: Vec<char> = ks.iter().map(|&k| mk(k)).collect();
    for cut in 0..=n {
        let mut c: Counter<char, Fnv> = kv[..cut].iter().collect();
        c.extend(&kv[cut..]);
        matches(&c, &m, 4, "from_iter then extend by reference")?;
        let mut c: Counter<char, Fnv> = Counter::new();
        for &k in &kv[..cut] {
            c.push(k);
        }
        c.extend(kv[cut..].iter().copied());
        matches(&c, &m, 4, "pushes then extend")?;
    }
    src.nontrivial_if(m.len() >= 2 && n > m.len());
    Ok(())
}

// ---- C21, C22 -------------------------------------------------------------------------------------------

/// A count: small, zero (written through the map view), or up to max.
fn count(src: &mut Src, max: usize) -> usize {
    match src.draw(12) {
        0..=5 => 1 + src.us(4),
        6 => 0,
        7 | 8 => src.us(20),
        9 => max,
        10 => max - src.us(3),
        _ => src.int(0, max as i128) as usize,
    }
}

fn build<K: Key, S: CmpHs>(src: &mut Src, m: &Model) -> Counter<K, S> {
    match src.draw(4) {
        0 => {
            let mut h: HashMap<K, usize, S> = HashMap::default();
            for (&k, &v) in m {
                h.insert(mk(k), v);
            }
            Counter::from_hashmap(h)
        }
        1 => {
            let mut c: Counter<K, S> = new_counter(src);
            for (&k, &v) in m {
                c.insert(mk(k), v);
            }
            c
        }
        2 => {
            let mut c: Counter<K, S> = new_counter(src);
            for (&k, &v) in m.iter().rev() {
                if v <= 8 && v > 0 {
                    for _ in 0..v {
                        c.push(mk(k));
                    }
                } else {
                    *c.entry(mk(k)).or_insert(5) = v;
                }
            }
            c
        }
        _ => {
            // through another hasher
            let mut h: HashMap<K, usize, Sip> = HashMap::default();
            for (&k, &v) in m {
                h.insert(mk(k), v);
            }
            if src.bool() { Counter::from(&h) } else { Counter::from(h) }
        }
    }
}

fn entries(src: &mut Src, uni: u32, max: usize) -> Model {
    let n = src.size(5, 20);
    let mut m = Model::new();
    for _ in 0..n {
        let k = src.draw(uni as u64) as u32;
        let v = count(src, max);
        m.insert(k, v);
    }
    m
}

fn adding<K: Key, S: CmpHs, S2: CmpHs>(src: &mut Src) -> Res {
    let uni = (src.range(1, 10) as u32).min(K::CARD);
    // no sum may exceed the count type
    let lim = usize::MAX / 2;
    let (ma, mb) = (entries(src, uni, lim), entries(src, uni, lim));
    let a: Counter<K, S> = build(src, &ma);
    let b: Counter<K, S2> = build(src, &mb);
    src.note(|| format!("keys {} hashers {}/{}: {:?} + {:?}", K::NAME, S::NAME, S2::NAME, ma, mb));
    let mut want = ma.clone();
    for (&k, &v) in &mb {
        *want.entry(k).or_insert(0) += v;
    }
    let mut s1 = a.clone();
    s1 += b.clone();
    matches(&s1, &want, uni, "a += b")?;
    let mut s2 = a.clone();
    s2 += &b;
    matches(&s2, &want, uni, "a += &b")?;
    matches(&b, &mb, uni, "b after a += &b")?;
    let s3: Counter<K, S> = a.clone() + b.clone();
    matches(&s3, &want, uni, "a + b")?;
    let s4: Counter<K, S> = a.clone() + &b;
    matches(&s4, &want, uni, "a + &b")?;
    matches(&b, &mb, uni, "b after a + &b")?;
    matches(&a, &ma, uni, "a after its clones were added to")?;
    require!(eq(&s1, &s2) && eq(&s1, &s3) && eq(&s1, &s4), "the four forms of addition give different counters");
    // commutes
    let mut t: Counter<K, S2> = b.clone();
    t += &a;
    matches(&t, &want, uni, "b += &a")?;
    // the counter keeps counting
    s1.push(mk(0));
    *want.entry(mk::<K>(0).num()).or_insert(0) += 1;
    matches(&s1, &want, uni, "a += b, then push")?;
    let shared = ma.keys().filter(|k| mb.contains_key(k)).count();
    src.label_if(shared > 0 && shared < mb.len(), "shared and new entries");
    src.label_if(ma.values().chain(mb.values()).any(|&v| v == 0), "zero count");
    src.label_if(ma.values().chain(mb.values()).any(|&v| v > 1 << 40), "huge count");
    src.nontrivial_if(shared > 0 && ma.len() + mb.len() > 2);
    Ok(())
}

fn difference(ma: &Model, mb: &Model) -> Model {
    let mut want = Model::new();
    for (&k, &v) in ma {
        match mb.get(&k) {
            None => {
                want.insert(k, v);
            }
            Some(&w) => {
                if v > w {
                    want.insert(k, v - w);
                }
            }
        }
    }
    want
}

fn subtracting<K: Key, S: CmpHs, S2: CmpHs>(src: &mut Src) -> Res {
    let uni = (src.range(1, 10) as u32).min(K::CARD);
    let ma = entries(src, uni, usize::MAX);
    let mut mb = entries(src, uni, usize::MAX);
    // often close to the left-hand count
    for (&k, &v) in &ma {
        match src.draw(6) {
            0 => {
                mb.insert(k, v);
            }
            1 => {
                mb.insert(k, v.saturating_sub(1));
            }
            2 => {
                mb.insert(k, v.saturating_add(1));
            }
            _ => {}
        }
    }
    let a: Counter<K, S> = build(src, &ma);
    let b: Counter<K, S2> = build(src, &mb);
    src.note(|| format!("keys {} hashers {}/{}: {:?} - {:?}", K::NAME, S::NAME, S2::NAME, ma, mb));
    let mut want = difference(&ma, &mb);
    let mut s1 = a.clone();
    s1 -= b.clone();
    matches(&s1, &want, uni, "a -= b")?;
    let mut s2 = a.clone();
    s2 -= &b;
    matches(&s2, &want, uni, "a -= &b")?;
    matches(&b, &mb, uni, "b after a -= &b")?;
    let s3: Counter<K, S> = a.clone() - b.clone();
    matches(&s3, &want, uni, "a - b")?;
    let s4: Counter<K, S> = a.clone() - &b;
    matches(&s4, &want, uni, "a - &b")?;
    matches(&b, &mb, uni, "b after a - &b")?;
    matches(&a, &ma, uni, "a after its clones were subtracted from")?;
    require!(eq(&s1, &s2) && eq(&s1, &s3) && eq(&s1, &s4), "the four forms of subtraction give different counters");
    // a removed element starts from zero again
    if !want.get(&mk::<K>(0).num()).map_or(false, |&v| v == usize::MAX) {
        s1.push(mk(0));
        *want.entry(mk::<K>(0).num()).or_insert(0) += 1;
        matches(&s1, &want, uni, "a -= b, then push")?;
    }
    let removed = ma.keys().filter(|&k| !difference(&ma, &mb).contains_key(k)).count();
    let reduced = ma.iter().filter(|(k, &v)| difference(&ma, &mb).get(k).map_or(false, |&w| w < v)).count();
    src.label_if(removed > 0 && reduced > 0, "entries removed and reduced");
    src.label_if(ma.iter().any(|(k, v)| mb.get(k) == Some(v)), "equal counts subtracted");
    src.label_if(mb.keys().any(|k| !ma.contains_key(k)), "right-hand entry absent on the left");
    src.label_if(ma.values().chain(mb.values()).any(|&v| v == 0), "zero count");
    src.nontrivial_if(removed + reduced > 0 && ma.len() + mb.len() > 2);
    Ok(())
}

fn c21(src: &mut Src) -> Res {
    dispatch!(src, adding)
}
fn c22(src: &mut Src) -> Res {
    dispatch!(src, subtracting)
}

/// Every pair of counters over 3 elements with each count absent or 0..=3.
fn small_pair(src: &mut Src) -> (Model, Model) {
    let mut ma = Model::new();
    let mut mb = Model::new();
    for k in 0..3 {
        let x = src.us(25);
        if x / 5 > 0 {
            ma.insert(k, x / 5 - 1);
        }
        if x % 5 > 0 {
            mb.insert(k, x % 5 - 1);
        }
    }
    (ma, mb)
}
fn direct<S: Hs>(m: &Model) -> Counter<i32, S> {
    let mut c = Counter::default();
    for (&k, &v) in m {
        c.insert(mk(k), v);
    }
    c
}
fn c21_small(src: &mut Src) -> Res {
    let (ma, mb) = small_pair(src);
    src.note(|| format!("{:?} + {:?}", ma, mb));
    let (a, b) = (direct::<Fnv>(&ma), direct::<Sip>(&mb));
    let mut want = ma.clone();
    for (&k, &v) in &mb {
        *want.entry(k).or_insert(0) += v;
    }
    let mut s = a.clone();
    s += &b;
    same!(dump(&s), want, "a += &b");
    let mut s = a.clone();
    s += b.clone();
    same!(dump(&s), want, "a += b");
    same!(dump(&(a.clone() + &b)), want, "a + &b");
    same!(dump(&b), mb, "b after a + &b");
    same!(dump(&(a + b)), want, "a + b");
    src.nontrivial_if(ma.keys().any(|k| mb.contains_key(k)));
    Ok(())
}
fn c22_small(src: &mut Src) -> Res {
    let (ma, mb) = small_pair(src);
    src.note(|| format!("{:?} - {:?}", ma, mb));
    let (a, b) = (direct::<Fnv>(&ma), direct::<Sip>(&mb));
    let want = difference(&ma, &mb);
    let mut s = a.clone();
    s -= &b;
    same!(dump(&s), want, "a -= &b");
    let mut s = a.clone();
    s -= b.clone();
    same!(dump(&s), want, "a -= b");
    same!(dump(&(a.clone() - &b)), want, "a - &b");
    same!(dump(&b), mb, "b after a - &b");
    same!(dump(&(a - b)), want, "a - b");
    src.nontrivial_if(ma.keys().any(|k| mb.contains_key(k)));
    Ok(())
}

/// Histories of additions and subtractions on an accumulating counter.
fn arith_history<K: Key, S: CmpHs, S2: CmpHs>(src: &mut Src) -> Res {
    let uni = (src.range(1, 6) as u32).min(K::CARD);
    let mut m = Model::new();
    let mut c: Counter<K, S> = new_counter(src);
    let n = src.size(8, 40);
    let mut subs = 0;
    src.note(|| format!("keys {} hashers {}/{}", K::NAME, S::NAME, S2::NAME));
    for _ in 0..n {
        let mb = {
            let mut mb = Model::new();
            for _ in 0..src.us(4) {
                mb.insert(src.draw(uni as u64) as u32, count(src, 30));
            }
            mb
        };
        let b: Counter<K, S2> = build(src, &mb);
        let op = src.us(9);
        src.note(|| format!("op {} {:?}", op, mb));
        match op {
            0..=3 => {
                for (&k, &v) in &mb {
                    *m.entry(k).or_insert(0) += v;
                }
                match op {
                    0 => c += b,
                    1 => c += &b,
                    2 => c = c + b,
                    _ => c = c + &b,
                }
            }
            4..=7 => {
                let before = m.len();
                m = difference(&m, &mb);
                subs += (m.len() < before) as u32;
                match op {
                    4 => c -= b,
                    5 => c -= &b,
                    6 => c = c - b,
                    _ => c = c - &b,
                }
            }
            _ => {
                let k = mk::<K>(src.draw(uni as u64) as u32);
                *m.entry(k.num()).or_insert(0) += 1;
                c.push(k);
            }
        }
        same!(dump(&c), m, "entries after op {}", op);
    }
    matches(&c, &m, uni, "final")?;
    src.nontrivial_if(subs >= 1 && n >= 3);
    Ok(())
}
fn c2x_history(src: &mut Src) -> Res {
    dispatch!(src, arith_history)
}

/// One counter for long, one kind of operation far more frequent than the others; the same instance throughout (moved
/// by the operators that take it by value).
fn life<K: RefExtend, S: CmpHs, S2: CmpHs>(src: &mut Src, foci: &[usize]) -> Res {
    let uni = (src.range(1, 8) as u32).min(K::CARD);
    let mut m = Model::new();
    let mut c: Counter<K, S> = new_counter(src);
    let focus = *src.pick(foci);
    let often = *src.pick(&[1u64, 4, 100]);
    src.note(|| format!("keys {} hashers {}/{} universe {}, operation {} more often than the others", K::NAME, S::NAME, S2::NAME, uni, focus));
    let mut peak = 0;
    super::long_life(src, |src, i| {
        let op = if src.draw(often + 2) < often { focus } else { src.us(16) };
        let k = src.draw(uni as u64) as u32;
        let x = mk::<K>(k).num();
        let mut mb = Model::new();
        if matches!(op, 4..=7 | 14 | 15) {
            for _ in 0..src.us(4) {
                let v = src.us(12);
                mb.insert(mk::<K>(src.draw(uni as u64) as u32).num(), v);
            }
        }
        let ks: Vec<u32> = if (1..=3).contains(&op) { (0..src.us(5)).map(|_| mk::<K>(src.draw(uni as u64) as u32).num()).collect() } else { vec![] };
        let kv: Vec<K> = ks.iter().map(|&k| mk(k)).collect();
        src.note(|| format!("operation {} element {} {:?} {:?}", op, k, ks, mb));
        match op {
            0 => {
                c.push(mk(k));
                add(&mut m, &[x]);
            }
            1 => {
                c.extend(Hinted { it: kv.into_iter(), kind: src.draw(HINTS) });
                add(&mut m, &ks);
            }
            2 | 3 => {
                if op == 3 || !K::extend_ref(&mut c, kv.iter().collect(), src.draw(HINTS)) {
                    c.extend(kv)
                }
                add(&mut m, &ks);
            }
            4 | 5 | 14 => {
                let b: Counter<K, S2> = build(src, &mb);
                for (&k, &v) in &mb {
                    *m.entry(k).or_insert(0) += v;
                }
                match op {
                    4 => c += b,
                    5 => c += &b,
                    _ => {
                        let old = std::mem::replace(&mut c, Counter::default());
                        c = if src.bool() { old + &b } else { old + b };
                    }
                }
            }
            6 | 7 | 15 => {
                let b: Counter<K, S2> = build(src, &mb);
                m = difference(&m, &mb);
                match op {
                    6 => c -= b,
                    7 => c -= &b,
                    _ => {
                        let old = std::mem::replace(&mut c, Counter::default());
                        c = if src.bool() { old - &b } else { old - b };
                    }
                }
            }
            8 => {
                let l: Vec<(u32, usize)> = c.most_common().into_iter().map(|(k, v)| (k.num(), v)).collect();
                sorted_listing(&l, &m, "most_common")?;
            }
            9 => {
                let v = src.us(9);
                match src.us(6) {
                    0 => {
                        same!(c.insert(mk(k), v), m.insert(x, v), "insert");
                    }
                    1 => same!(c.remove(&mk(k)), m.remove(&x), "remove"),
                    2 => *c.entry(mk(k)).or_insert(3) += {
                        *m.entry(x).or_insert(3) += v;
                        v
                    },
                    3 => {
                        c.values_mut().for_each(|n| *n += v);
                        m.values_mut().for_each(|n| *n += v);
                    }
                    4 => match (c.get_mut(&mk(k)), m.get_mut(&x)) {
                        (Some(a), Some(b)) => {
                            *a = v;
                            *b = v;
                        }
                        (a, b) => same!(a, b, "get_mut"),
                    },
                    _ => {
                        c.clear();
                        m.clear();
                    }
                }
            }
            10 => {
                let mut d = c.clone();
                matches(&d, &m, uni, "a clone")?;
                d.push(mk(k));
                d.clear();
            }
            11 => {
                let b: Counter<K, S> = build(src, &m);
                require!(eq(&c, &b) && eq(&b, &c), "a counter differs from one with the same entries");
                let mut other = m.clone();
                if other.remove(&x).is_none() {
                    other.insert(x, 0);
                }
                let b: Counter<K, S> = build(src, &other);
                for r in [S::cmp(&c, &b), S::cmp(&b, &c)].iter().flatten() {
                    same!(*r, (false, true), "== and != of counters differing in entry {}", x);
                }
            }
            12 => c.reserve(src.us(20)),
            _ => {
                let got: Model = (&mut c).into_iter().map(|(k, v)| (k.num(), *v)).collect();
                same!(got, m, "mutable iteration");
                let got: Model = (&c).into_iter().map(|(k, v)| (k.num(), *v)).collect();
                same!(got, m, "shared iteration");
            }
        }
        peak = peak.max(m.len());
        same!(dump(&c), m, "entries after operation {}", op);
        if i % 16 == 0 {
            matches(&c, &m, uni, "in a long life")?;
        }
        Ok(())
    })?;
    matches(&c, &m, uni, "final")?;
    let l: Vec<(u32, usize)> = c.into_most_common().into_iter().map(|(k, v)| (k.num(), v)).collect();
    sorted_listing(&l, &m, "into_most_common")?;
    src.nontrivial_if(peak >= 2);
    Ok(())
}
fn c20_long(src: &mut Src) -> Res {
    dispatch!(src, life, &[0, 1, 2, 3])
}
fn c21_long(src: &mut Src) -> Res {
    dispatch!(src, life, &[4, 5, 14])
}
fn c22_long(src: &mut Src) -> Res {
    dispatch!(src, life, &[6, 7, 15])
}
fn c23_long(src: &mut Src) -> Res {
    dispatch!(src, life, &[8])
}
fn c24_long(src: &mut Src) -> Res {
    dispatch!(src, life, &[9, 10, 11, 13])
}

// ---- C23 ------------------------------------------------------------------------------------------------

fn sorted_listing(l: &[(u32, usize)], m: &Model, what: &str) -> Res {
    same!(l.len(), m.len(), "{}: number of entries", what);
    for w in l.windows(2) {
        require!(w[0].1 >= w[1].1, "{}: {:?} comes before {:?}", what, w[0], w[1]);
    }
    let mut back = Model::new();
    for &(k, v) in l {
        require!(back.insert(k, v).is_none(), "{}: element {} is listed twice", what, k);
    }
    same!(back, *m, "{}: entries", what);
    Ok(())
}

fn commonest<K: Key, S: CmpHs, S2: CmpHs>(src: &mut Src) -> Res {
    let uni = universe::<K>(src);
    let m = match src.draw(3) {
        0 => {
            let mut m = Model::new();
            let n = src.size(30, 150);
            let ks = keys_of(src, n, uni);
            add(&mut m, &ks);
            m
        }
        1 => entries(src, uni, usize::MAX),
        _ => {
            let n = src.size(12, uni as usize);
            let top = *src.pick(&[3usize, 300, 1 << 20, 1 << 33, usize::MAX]);
            let mut m = Model::new();
            for k in 0..n {
                m.insert(k as u32 % uni, count(src, top));
            }
            m
        }
    };
    let c: Counter<K, S> = build(src, &m);
    src.note(|| format!("keys {} hasher {}: {:?}", K::NAME, S::NAME, m));
    let l: Vec<(u32, usize)> = c.most_common().into_iter().map(|(k, v)| (k.num(), v)).collect();
    sorted_listing(&l, &m, "most_common")?;
    matches(&c, &m, uni, "counter after most_common")?;
    let l: Vec<(u32, usize)> = c.into_most_common().into_iter().map(|(k, v)| (k.num(), v)).collect();
    sorted_listing(&l, &m, "into_most_common")?;
    let mut vals: Vec<usize> = m.values().copied().collect();
    vals.sort();
    let dups = vals.windows(2).any(|w| w[0] == w[1]);
    vals.dedup();
    src.label_if(dups, "equal counts");
    src.label_if(vals.iter().any(|&v| v > 1 << 40), "huge count");
    src.label_if(vals.first() == Some(&0), "zero count");
    src.label_if(m.len() > 20, "more than 20 entries (sorting switches algorithm)");
    src.nontrivial_if(vals.len() >= 3);
    Ok(())
}
fn c23(src: &mut Src) -> Res {
    dispatch!(src, commonest)
}

// ---- C24 ------------------------------------------------------------------------------------------------

fn converting<K: Key, S: CmpHs, S2: CmpHs>(src: &mut Src) -> Res {
    let uni = (src.range(1, 12) as u32).min(K::CARD);
    let m = entries(src, uni, usize::MAX);
    src.note(|| format!("keys {} hashers {}/{}: {:?}", K::NAME, S::NAME, S2::NAME, m));
    let mut h: HashMap<K, usize, S2> = HashMap::default();
    for (&k, &v) in &m {
        h.insert(K::make(k, 3), v);
    }
    let same_hasher: Counter<K, S2> = Counter::from_hashmap(h.clone());
    matches(&same_hasher, &m, uni, "from_hashmap")?;
    let by_ref: Counter<K, S> = Counter::from(&h);
    matches(&by_ref, &m, uni, "from a hash map by reference")?;
    same!(h.len(), m.len(), "hash map after conversion by reference");
    require!(h.iter().all(|(k, v)| m.get(&k.num()) == Some(v)), "the hash map changed by a conversion by reference");
    let owned: Counter<K, S> = Counter::from(h.clone());
    matches(&owned, &m, uni, "from a hash map")?;
    let owned2: Counter<K, S2> = h.into();
    matches(&owned2, &m, uni, "into a counter of the same hasher")?;
    let mut c: Counter<K, S> = build(src, &m);
    matches(&c, &m, uni, "built")?;
    require!(eq(&c, &by_ref) && eq(&by_ref, &owned) && eq(&owned, &c), "counters with equal entries differ");
    require!(eq(&same_hasher, &owned2), "counters with equal entries differ");
    let copy = c.clone();
    matches(&copy, &m, uni, "clone")?;

    // iteration in three forms
    let lim = m.len() + 2;
    let mut seen = Model::new();
    for (k, v) in (&c).into_iter().take(lim) {
        require!(seen.insert(k.num(), *v).is_none(), "shared iteration repeats an element");
    }
    same!(seen, m, "shared iteration");
    let mut seen = Model::new();
    for (k, v) in copy.into_iter().take(lim) {
        require!(seen.insert(k.num(), v).is_none(), "consuming iteration repeats an element");
    }
    same!(seen, m, "consuming iteration");

    // writes
    let mut now = m.clone();
    let before = c.clone();
    let writes = src.us(5);
    for _ in 0..writes {
        let k = src.draw(uni as u64) as u32;
        let key = mk::<K>(k);
        let kn = key.num();
        let v = count(src, usize::MAX);
        let op = src.us(9);
        src.note(|| format!("write {} {} {}", op, kn, v));
        match op {
            0 => {
                same!(c.insert(key, v), now.insert(kn, v), "insert through the map view");
            }
            1 => {
                same!(c.remove(&key), now.remove(&kn), "remove through the map view");
            }
            2 => {
                if let Some(x) = c.get_mut(&key) {
                    *x = v;
                }
                if let Some(x) = now.get_mut(&kn) {
                    *x = v;
                }
            }
            3 => {
                *c.entry(key).or_insert(v) ^= 1;
                *now.entry(kn).or_insert(v) ^= 1;
            }
            4 => {
                let mut seen = 0;
                for (e, x) in (&mut c).into_iter().take(lim + 9) {
                    *x = (*x).wrapping_add(e.num() as usize);
                    seen += 1;
                }
                same!(seen, now.len(), "entries seen by mutable iteration");
                for (e, x) in now.iter_mut() {
                    *x = (*x).wrapping_add(*e as usize);
                }
            }
            5 => {
                c.retain(|e, x| e.num() % 2 == 0 || *x > v);
                now.retain(|e, x| *e % 2 == 0 || *x > v);
            }
            6 => {
                if now.get(&kn) != Some(&usize::MAX) {
                    c.push(key);
                    *now.entry(kn).or_insert(0) += 1;
                }
            }
            7 => {
                for x in c.values_mut() {
                    *x /= 2;
                }
                for x in now.values_mut() {
                    *x /= 2;
                }
            }
            _ => {
                let pairs: Vec<(u32, usize)> = c.drain().map(|(k, v)| (k.num(), v)).collect();
                same!(pairs.into_iter().collect::<Model>(), now, "drained through the map view");
                same!(c.len(), 0, "len after draining through the map view");
                now.clear();
            }
        }
        matches(&c, &now, uni, "after a write")?;
        let l: Vec<(u32, usize)> = c.most_common().into_iter().map(|(k, v)| (k.num(), v)).collect();
        sorted_listing(&l, &now, "most_common after a write")?;
    }
    matches(&before, &m, uni, "clone after writes to the original")?;
    if let Some(r) = S::cmp(&c, &before) {
        same!(r, (now == m, now != m), "== and != of counters {:?} and {:?}", now, m);
    }
    // one changed, added or removed entry makes counters unequal
    let mut other = c.clone();
    let k = src.draw(uni as u64) as u32;
    let kn = mk::<K>(k).num();
    match now.get(&kn) {
        Some(&v) => {
            if src.bool() {
                other.insert(mk(k), v ^ 1);
            } else {
                other.remove(&mk(k));
            }
        }
        None => {
            other.insert(mk(k), 0);
        }
    }
    for r in [S::cmp(&other, &c), S::cmp(&c, &other)].iter().flatten() {
        same!(*r, (false, true), "== and != of counters differing in entry {}", kn);
    }
    src.nontrivial_if(m.len() >= 2 && writes >= 1);
    Ok(())
}
fn c24(src: &mut Src) -> Res {
    dispatch!(src, converting)
}

// ---- C21..C24 on large counters -------------------------------------------------------------------------

fn entries_large(src: &mut Src, r: &mut Rng, uni: u32) -> Model {
    let n = match src.draw(8) {
        0..=3 => src.range(20, 400),
        4..=6 => src.range(400, 4000),
        _ => src.range(4000, 20_000),
    };
    let top = *src.pick(&[2u64, 5, 300, 1 << 20, 1 << 40]);
    (0..n).map(|_| ((r.next() % uni as u64) as u32, (1 + r.next() % top) as usize)).collect()
}

/// The differences are reported by entry: a whole listing of a large counter helps nobody.
fn matches_large<K: Key, S: Hs>(c: &Counter<K, S>, m: &Model, what: &str) -> Res {
    same!(c.len(), m.len(), "{}: number of entries", what);
    for (&k, &v) in m {
        same!(c.get(&mk::<K>(k)).copied(), Some(v), "{}: count of {}", what, k);
    }
    Ok(())
}

fn filled<K: Key, S: Hs>(m: &Model) -> Counter<K, S> {
    let mut c: Counter<K, S> = Counter::new();
    for (&k, &v) in m {
        c.insert(mk(k), v);
    }
    c
}

fn large_pair<K: Key, S: CmpHs, S2: CmpHs>(src: &mut Src, part: u32) -> Res {
    let mut r = Rng::new(src.draw(1 << 32));
    let uni = (src.size(3000, 40_000) as u32).max(30);
    let ma = entries_large(src, &mut r, uni);
    let mut mb = entries_large(src, &mut r, uni);
    for (&k, &v) in &ma {
        match r.next() % 8 {
            0 => {
                mb.insert(k, v);
            }
            1 => {
                mb.insert(k, v + 1);
            }
            2 if v > 1 => {
                mb.insert(k, v - 1);
            }
            _ => {}
        }
    }
    let a: Counter<K, S> = filled(&ma);
    let b: Counter<K, S2> = filled(&mb);
    src.note(|| format!("keys {} hashers {}/{}: {} and {} entries, seed-generated", K::NAME, S::NAME, S2::NAME, ma.len(), mb.len()));
    src.label_if(ma.len() > 4000, "more than 4000 entries");
    src.nontrivial = true;
    match part {
        21 => {
            let mut want = ma.clone();
            for (&k, &v) in &mb {
                *want.entry(k).or_insert(0) += v;
            }
            let mut s = a.clone();
            s += b.clone();
            matches_large(&s, &want, "a += b")?;
            let mut s = a.clone();
            s += &b;
            matches_large(&s, &want, "a += &b")?;
            matches_large(&(a.clone() + b.clone()), &want, "a + b")?;
            matches_large(&(a + &b), &want, "a + &b")?;
            matches_large(&b, &mb, "b after the additions")
        }
        22 => {
            let want = difference(&ma, &mb);
            let mut s = a.clone();
            s -= b.clone();
            matches_large(&s, &want, "a -= b")?;
            let mut s = a.clone();
            s -= &b;
            matches_large(&s, &want, "a -= &b")?;
            matches_large(&(a.clone() - b.clone()), &want, "a - b")?;
            matches_large(&(a - &b), &want, "a - &b")?;
            matches_large(&b, &mb, "b after the subtractions")
        }
        23 => {
            let check = |l: Vec<(u32, usize)>, what: &str| -> Res {
                same!(l.len(), ma.len(), "{}: length of the listing", what);
                for w in l.windows(2) {
                    require!(w[0].1 >= w[1].1, "{}: {:?} comes before {:?}", what, w[0], w[1]);
                }
                let back: Model = l.into_iter().collect();
                require!(back == ma, "{}: the listing does not hold the entries of the counter", what);
                Ok(())
            };
            check(a.most_common().into_iter().map(|(k, v)| (k.num(), v)).collect(), "most_common")?;
            check(a.into_most_common().into_iter().map(|(k, v)| (k.num(), v)).collect(), "into_most_common")
        }
        _ => {
            let h: HashMap<K, usize, S2> = ma.iter().map(|(&k, &v)| (mk(k), v)).collect();
            matches_large(&Counter::<K, S>::from(&h), &ma, "from a hash map by reference")?;
            matches_large(&Counter::<K, S>::from(h.clone()), &ma, "from a hash map")?;
            let c: Counter<K, S2> = Counter::from_hashmap(h);
            matches_large(&c, &ma, "from_hashmap")?;
            let mut back = Model::new();
            for (k, v) in &c {
                back.insert(k.num(), *v);
            }
            require!(back == ma, "shared iteration does not show the entries");
            let mut c = c.clone();
            for (k, v) in &mut c {
                *v += k.num() as usize;
            }
            let want: Model = ma.iter().map(|(&k, &v)| (k, v + k as usize)).collect();
            matches_large(&c, &want, "after mutable iteration")?;
            let got: Vec<(u32, usize)> = c.into_iter().map(|(k, v)| (k.num(), v)).collect();
            same!(got.len(), want.len(), "consuming iteration");
            require!(got.into_iter().collect::<Model>() == want, "consuming iteration does not yield the entries");
            Ok(())
        }
    }
}

macro_rules! large_entry {
    ($f:ident, $part:expr) => {
        fn $f(src: &mut Src) -> Res {
            match src.us(4) {
                0 => large_pair::<u64, Fnv, RandomState>(src, $part),
                1 => large_pair::<i32, RandomState, Fnv>(src, $part),
                2 => large_pair::<String, Sip, Seeded>(src, $part),
                _ => large_pair::<i32, Fnv, Fnv>(src, $part),
            }
        }
    };
}
large_entry!(c21_large, 21);
large_entry!(c22_large, 22);
large_entry!(c23_large, 23);
large_entry!(c24_large, 24);

pub fn suites() -> Vec<Suite> {
    let r = Kind::Random;
    let s = |prop, name, kind, quick, thorough, run, about| Suite { prop, name, kind, quick, thorough, miri: 0, run, about };
    vec![
        s("C20", "counter/counting", r, 2_400_000, 48_000_000, counting_entry as CheckFn, "histories of push, extend, from_iter and collect (owned, by reference, loose size hints) over 12 key type/hasher pairs against a map of occurrence counts; non-trivial: 2 or more elements and repeated ones"),
        s("C20", "counter/short-strings", Kind::Exhaustive, 1, 1, c20_small, "every string of up to 7 letters over 3, at every split into construction and extension; non-trivial: 2 or more letters, one repeated"),
        s("C20", "counter/large", r, 3_000, 60_000, c20_large, "1 to 140 thousand (thorough 200 thousand) elements over 1 to 110 thousand distinct ones, four key types, pushed, collected and extended; every case is non-trivial"),
        s("C20", "counter/long-life", r, 2_000, 40_000, c20_long, "long lives of one counter: up to 150 thousand operations out of 16 kinds, one kind far more frequent than the others (push, extend), entries compared after each; non-trivial: 2 or more entries at some point"),
        s("C21", "counter/add", r, 2_400_000, 48_000_000, c21, "pairs of counters (counts 0, small, up to half the count type) added in the four forms across hashers and types; non-trivial: some element is in both"),
        s("C21", "counter/add-small", Kind::Exhaustive, 1, 1, c21_small, "every pair of counters over 3 elements with counts absent or 0 to 3; non-trivial: some element is in both"),
        s("C21", "counter/add-histories", r, 720_000, 12_000_000, c2x_history, "histories of additions, subtractions and pushes on one counter in random forms; non-trivial: 3 or more operations and an entry removed by a subtraction"),
        s("C22", "counter/subtract", r, 2_400_000, 48_000_000, c22, "pairs of counters (counts up to the maximum, often equal or off by one) subtracted in the four forms; non-trivial: an entry is reduced or removed"),
        s("C22", "counter/subtract-small", Kind::Exhaustive, 1, 1, c22_small, "every pair of counters over 3 elements with counts absent or 0 to 3; non-trivial: some element is in both"),
        s("C22", "counter/subtract-histories", r, 720_000, 12_000_000, c2x_history, "histories as in counter/add-histories, with the same rule"),
        s("C23", "counter/most-common", r, 2_400_000, 48_000_000, c23, "counters with equal, zero, huge and many counts; the listing must be a permutation of the entries by non-increasing count; non-trivial: 3 or more different counts"),
        s("C24", "counter/conversions", r, 1_500_000, 30_000_000, c24, "conversions, iteration forms, writes through the map view and mutable iteration, equality, against a map model; non-trivial: 2 or more entries and at least one write"),
        s("C25", "counter/room", r, 600_000, 3_000_000, extra::c25, "counters with room for n elements (constructors, reserve) filled in five ways, with repetitions: no allocation; capacity 0: none at all; non-trivial: 4 or more entries"),
        s("C26", "counter/panics", r, 1_500_000, 8_000_000, extra::c26, "histories on instrumented elements in which hashing, comparison, cloning, destruction or iterator steps panic at a chosen point; each entry must have its old or its new count and later operations follow; non-trivial: a panic happened and the history went on"),
        s("C26", "counter/panics-long-life", r, 1_000, 20_000, extra::c26_long, "the same over long lives of one counter: up to 150 thousand operations; non-trivial as for counter/panics"),
        s("C27", "counter/hashers", r, 900_000, 4_000_000, extra::c27, "histories with a keyed hash builder, other than its default, which records its use: only the builder given is used and reported, by clones too; non-trivial: 2 or more kinds of operation and an entry at the end"),
        s("C27", "counter/hashers-long-life", r, 1_000, 20_000, extra::c27_long, "the same over long lives of one counter: up to 150 thousand operations; non-trivial as for counter/hashers"),
        s("C28", "counter/memory", r, 60_000, 150_000, extra::c28_memory, "many elements over few distinct ones, counted, added and subtracted in six ways: live heap bytes below a limit linear in the entries, all given back; non-trivial: 4 or more entries, 4 or more times"),
        s("C28", "counter/memory-long-life", r, 2_000, 40_000, extra::c28_long, "long lives of one counter over a small universe: live heap bytes below a limit linear in the universe after each of up to 150 thousand operations; non-trivial: 4 or more elements"),
        s("C28", "counter/work", r, 480, 2_000, extra::c28_work, "CPU time of each operation on 12 to 24 thousand entries compared with plain hash map operations (factor 150, listings of 120 to 180 thousand entries factor 60, best of three); every case is non-trivial"),
        s("C21", "counter/add-large", r, 2_400, 60_000, c21_large, "the four forms of addition on counters of 20 to 20 thousand entries with related counts; every case is non-trivial"),
        s("C21", "counter/add-long-life", r, 2_000, 40_000, c21_long, "long lives of one counter: up to 150 thousand operations out of 16 kinds, one kind far more frequent than the others (the forms of addition), entries compared after each; non-trivial: 2 or more entries at some point"),
        s("C22", "counter/subtract-large", r, 2_400, 60_000, c22_large, "the four forms of subtraction on counters of 20 to 20 thousand entries with related counts; every case is non-trivial"),
        s("C22", "counter/subtract-long-life", r, 2_000, 40_000, c22_long, "long lives of one counter: up to 150 thousand operations out of 16 kinds, one kind far more frequent than the others (the forms of subtraction), entries compared after each; non-trivial: 2 or more entries at some point"),
        s("C23", "counter/most-common-large", r, 2_400, 60_000, c23_large, "both listings of counters of 20 to 20 thousand entries with related counts; every case is non-trivial"),
        s("C23", "counter/most-common-long-life", r, 2_000, 40_000, c23_long, "long lives of one counter: up to 150 thousand operations out of 16 kinds, one kind far more frequent than the others (listings), entries compared after each; non-trivial: 2 or more entries at some point"),
        s("C24", "counter/conversions-large", r, 2_400, 60_000, c24_large, "conversions and iteration forms of counters of 20 to 20 thousand entries with related counts; every case is non-trivial"),
        s("C24", "counter/map-view-long-life", r, 2_000, 40_000, c24_long, "long lives of one counter: up to 150 thousand operations out of 16 kinds, one kind far more frequent than the others (writes through the map view, clones, comparisons, iteration), entries compared after each; non-trivial: 2 or more entries at some point"),
    ]
}

fn counting_entry(src: &mut Src) -> Res {
    c20_history(src)
}
