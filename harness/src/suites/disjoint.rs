//! Disjoint set: C10..C13.

use super::cost::thread_cpu_ns;
use super::keys::*;
use super::{Hinted, Kind, Suite, HINTS};
use crate::engine::*;
use crate::{require, same};
use advanced_collections::disjoint_set::DisjointSet;
use std::collections::hash_map::RandomState;
use std::collections::{BTreeMap, BTreeSet};
use std::iter::FromIterator;

type DS<K, S> = DisjointSet<K, S>;

/// Reference model: a label per element, unions relabel one class.
#[derive(Clone, Debug, Default)]
struct Model {
    /// element -> (class label, tag of the stored element)
    m: BTreeMap<u32, (u32, u32)>,
    next: u32,
}

impl Model {
    fn add(&mut self, k: u32, tag: u32) {
        let l = self.next;
        if !self.m.contains_key(&k) {
            self.m.insert(k, (l, tag));
            self.next += 1;
        }
    }
    fn union(&mut self, a: u32, ta: u32, b: u32, tb: u32) {
        self.add(a, ta);
        self.add(b, tb);
        let (la, lb) = (self.m[&a].0, self.m[&b].0);
        if la != lb {
            for v in self.m.values_mut() {
                if v.0 == lb {
                    v.0 = la;
                }
            }
        }
    }
    fn same(&self, a: u32, b: u32) -> bool {
        match (self.m.get(&a), self.m.get(&b)) {
            (Some(x), Some(y)) => x.0 == y.0,
            _ => false,
        }
    }
    fn classes(&self) -> BTreeSet<Vec<u32>> {
        let mut by: BTreeMap<u32, Vec<u32>> = BTreeMap::new();
        for (k, v) in &self.m {
            by.entry(v.0).or_default().push(*k);
        }
        by.into_iter().map(|(_, v)| v).collect()
    }
    fn largest(&self) -> usize {
        self.classes().iter().map(|c| c.len()).max().unwrap_or(0)
    }
}

fn mk<K: Key>(k: u32) -> K {
    K::make(k, 0)
}

fn members<K: Key, S: Hs>(d: &DS<K, S>, m: &Model, universe: u32, what: &str) -> Res {
    same!(d.len(), m.m.len(), "{}: len", what);
    same!(d.is_empty(), m.m.is_empty(), "{}: is_empty", what);
    for k in 0..universe {
        same!(d.contains(&mk::<K>(k)), m.m.contains_key(&k), "{}: contains({})", what, k);
    }
    Ok(())
}

/// All pairs, in an order chosen by the case (queries compress paths, so their order matters to the structure).
fn all_pairs<K: Key, S: Hs>(d: &mut DS<K, S>, m: &Model, universe: u32, order: u64, what: &str) -> Res {
    for i in 0..universe {
        for j in 0..universe {
            let (a, b) = match order {
                0 => (i, j),
                1 => (universe - 1 - i, universe - 1 - j),
                2 => (j, i),
                _ => (i, universe - 1 - j),
            };
            same!(d.in_union(&mk::<K>(a), &mk::<K>(b)), m.same(a, b), "{}: in_union({}, {})", what, a, b);
        }
    }
    Ok(())
}

/// Iterates completely and compares the groups with the classes of the model.
fn groups<K: Key, S: Hs>(d: &mut DS<K, S>, m: &Model, what: &str) -> Res {
    let limit = m.m.len() + 2;
    let mut got: Vec<Vec<u32>> = Vec::new();
    let mut tags: Vec<(u32, Option<u32>)> = Vec::new();
    for (n, set) in (&mut *d).into_iter().enumerate() {
        require!(n < limit, "{}: more groups than elements", what);
        let mut g: Vec<u32> = Vec::new();
        for e in set {
            g.push(e.num());
            tags.push((e.num(), e.tag()));
            require!(g.len() < limit, "{}: more elements in a group than were added", what);
        }
        require!(!g.is_empty(), "{}: iteration yields an empty group", what);
        g.sort();
        got.push(g);
    }
    got.sort();
    let want: Vec<Vec<u32>> = m.classes().into_iter().collect();
    same!(got, want, "{}: groups", what);
    for (k, t) in tags {
        if let Some(t) = t {
            same!(t, m.m[&k].1, "{}: stored instance of element {}", what, k);
        }
    }
    same!(d.len(), m.m.len(), "{}: len after iteration", what);
    Ok(())
}

trait RefExtend: Key {
    /// extend by reference where the key type allows it (Copy)
    fn extend_ref<S: Hs>(_d: &mut DS<Self, S>, _v: Vec<&Self>, _kind: u64) -> bool {
        false
    }
}
macro_rules! ref_extend {
    ($($t:ty),*) => { $(impl RefExtend for $t {
        fn extend_ref<S: Hs>(d: &mut DS<Self, S>, v: Vec<&Self>, kind: u64) -> bool { d.extend(Hinted { it: v.into_iter(), kind }); true }
    })* };
}
ref_extend!(i32, u8, u64, char, ());
impl RefExtend for String {}
impl RefExtend for (u8, String) {}
impl RefExtend for std::rc::Rc<i64> {}
impl RefExtend for Tagged {}

struct W {
    union: u32,
    query: u32,
    single: u32,
    bulk: u32,
    clear: u32,
    iter: u32,
    clone: u32,
    tournament: u32,
    reserve: u32,
}

fn history<K: RefExtend, S: Hs>(src: &mut Src, w: &W, deep: bool) -> Res {
    history_of::<K, S>(src, w, deep, false)
}

/// A long life keeps the same set: it is never replaced by a clone or by one built afresh.
fn history_of<K: RefExtend, S: Hs>(src: &mut Src, w: &W, deep: bool, long: bool) -> Res {
    let big = src.chance(1, if src.scale == 1 { 6 } else { 12 });
    let uni = (if big { src.range(16, 48) as u32 } else { src.range(1, 9) as u32 }).min(K::CARD);
    let keys = |src: &mut Src| src.draw(uni as u64) as u32;
    let mut m = Model::default();
    let mut d: DS<K, S> = match src.draw(5) {
        0 => DS::new(),
        1 => DS::with_capacity(src.size(4, 300)),
        2 => DS::with_hasher(S::default()),
        3 => DS::with_capacity_and_hasher(src.size(4, 300), S::default()),
        _ => Default::default(),
    };
    src.note(|| format!("keys {} hasher {} universe {}", K::NAME, S::NAME, uni));
    let ops = if long { 0 } else if big { src.range(10, 90) } else { src.size(14, 60) };
    let mut tag = 1u32;
    let mut peak = 0;
    let (mut t_hit, mut f_hit, mut cleared, mut depth_ops) = (false, false, false, 0);
    let weights = [w.union, w.query, w.single, w.bulk, w.clear, w.iter, w.clone, w.tournament, w.reserve];
    super::repeat(src, long, ops, |src| {
        tag = (tag + 1) % 40_000_000;
        match src.weighted(&weights) {
            0 => {
                let (a, b) = (keys(src), keys(src));
                src.note(|| format!("union({}, {})", a, b));
                // of two equal new elements either may be stored
                let tb = if a == b { tag } else { tag + 1000 };
                d.union(K::make(a, tag), K::make(b, tb));
                m.union(a, tag, b, tb);
                depth_ops += 1;
            }
            1 => {
                // also of an element outside the universe
                let a = src.draw(uni as u64 + 1) as u32 % K::CARD;
                let b = src.draw(uni as u64 + 1) as u32 % K::CARD;
                let r = d.in_union(&mk::<K>(a), &mk::<K>(b));
                src.note(|| format!("in_union({}, {}) = {}", a, b, r));
                same!(r, m.same(a, b), "in_union({}, {})", a, b);
                if r { t_hit = a != b || t_hit } else { f_hit = true }
            }
            2 => {
                let a = keys(src);
                src.note(|| format!("make_set({})", a));
                d.make_set(K::make(a, tag));
                m.add(a, tag);
            }
            3 => {
                let n = src.us(6);
                let v: Vec<u32> = (0..n).map(|_| keys(src)).collect();
                let kv: Vec<K> = v.iter().enumerate().map(|(i, &k)| K::make(k, tag * 10 + i as u32)).collect();
                let how = src.us(if long { 3 } else { 4 });
                src.note(|| format!("bulk {} {:?}", how, v));
                match how {
                    0 => d.extend(kv),
                    1 => {
                        let refs = if src.bool() { palette(&v, &kv) } else { kv.iter().collect() };
                        if !K::extend_ref(&mut d, refs, src.draw(HINTS)) {
                            d.extend(kv)
                        }
                    }
                    2 => d.extend(Hinted { it: kv.into_iter(), kind: src.draw(HINTS) }),
                    _ => {
                        // a new set built from an iterator replaces this one
                        let kind = src.draw(HINTS);
                        d = if src.bool() { DS::from_iter(Hinted { it: palette(&v, &kv).into_iter(), kind }) } else { DS::from_iter(Hinted { it: kv.into_iter(), kind }) };
                        m = Model { m: BTreeMap::new(), next: m.next };
                    }
                }
                for (i, &k) in v.iter().enumerate() {
                    m.add(k, tag * 10 + i as u32);
                }
                tag += 10;
            }
            4 => {
                src.note(|| "clear".into());
                d.clear();
                cleared |= m.largest() > 1;
                m.m.clear();
                members(&d, &m, uni.min(12), "after clear")?;
            }
            5 => {
                let part = src.us(3);
                src.note(|| format!("iterate {}", if part == 0 { "fully" } else { "partly" }));
                if part == 0 {
                    groups(&mut d, &m, "iteration")?;
                } else {
                    let mut seen = 0;
                    for set in (&mut d).into_iter().take(part - 1) {
                        seen += set.take(1).count();
                    }
                    let _ = seen;
                }
            }
            6 if long => {
                src.note(|| "look at a clone".into());
                let mut c = d.clone();
                members(&c, &m, uni, "a clone")?;
                let (a, b) = (keys(src), keys(src));
                same!(c.in_union(&mk::<K>(a), &mk::<K>(b)), m.same(a, b), "in_union({}, {}) of a clone", a, b);
                if src.bool() {
                    groups(&mut c, &m, "iteration of a clone")?;
                }
            }
            6 => {
                src.note(|| "continue on a clone, after writing to the original".into());
                let c = d.clone();
                d.union(K::make(0, 0), K::make(uni - 1, 0));
                d.clear();
                d = c;
            }
            7 => {
                // merge blocks pairwise through random members: makes trees of every rank
                let lo = keys(src);
                let n = (src.range(2, 16) as u32).min(uni);
                src.note(|| format!("tournament from {} over {}", lo, n));
                let mut step = 1;
                while step < n {
                    let mut i = 0;
                    while i + step < n {
                        let a = (lo + i + src.draw(step as u64) as u32) % uni;
                        let b = (lo + i + step + src.draw(step.min(n - i - step) as u64) as u32) % uni;
                        d.union(K::make(a, tag), K::make(b, tag));
                        m.union(a, tag, b, tag);
                        i += 2 * step;
                    }
                    step *= 2;
                }
                depth_ops += n;
            }
            _ => {
                let n = src.size(8, if long { 100 } else { 2000 });
                src.note(|| format!("reserve({})", n));
                d.reserve(n);
            }
        }
        same!(d.len(), m.m.len(), "len");
        same!(d.is_empty(), m.m.is_empty(), "is_empty");
        if deep {
            members(&d, &m, uni, "in history")?;
        }
        if long && src.draw(32) == 0 {
            peak = peak.max(m.largest());
            all_pairs(&mut d, &m, uni, src.draw(4), "in a long life")?;
        }
        Ok(())
    })?;
    // final answers: on clones (each pair on the untouched structure), then on the structure itself
    if uni <= 5 {
        for a in 0..uni {
            for b in 0..uni {
                let mut c = d.clone();
                same!(c.in_union(&mk::<K>(a), &mk::<K>(b)), m.same(a, b), "final in_union({}, {}) on a clone", a, b);
            }
        }
    }
    let order = src.draw(4);
    let iter_first = src.bool();
    if iter_first {
        groups(&mut d, &m, "final iteration")?;
        all_pairs(&mut d, &m, uni, order, "after iteration")?;
    } else {
        all_pairs(&mut d, &m, uni, order, "final")?;
        groups(&mut d, &m, "final iteration after queries")?;
    }
    members(&d, &m, uni, "final")?;
    let classes = m.classes();
    src.label_if(m.largest() >= 4, "class of 4 or more");
    src.label_if(classes.len() >= 2 && m.largest() >= 2, "several classes");
    src.label_if(cleared, "cleared after unions");
    src.label_if(big, "universe of 16 or more");
    src.label_if(S::NAME == "all-collide", "all keys collide");
    src.label_if(t_hit && f_hit, "queries answered both ways in the history");
    src.nontrivial_if(m.largest().max(peak) >= 3 && depth_ops >= 3);
    Ok(())
}

macro_rules! dispatch {
    ($src:expr, $f:ident, $($arg:expr),*) => {
        match $src.us(12) {
            0 => $f::<i32, RandomState>($src, $($arg),*),
            1 => $f::<Tagged, Fnv>($src, $($arg),*),
            2 => $f::<String, Sip>($src, $($arg),*),
            3 => $f::<u8, Collide>($src, $($arg),*),
            4 => $f::<u64, Fnv>($src, $($arg),*),
            5 => $f::<char, Sip>($src, $($arg),*),
            6 => $f::<(u8, String), RandomState>($src, $($arg),*),
            7 => $f::<std::rc::Rc<i64>, Fnv>($src, $($arg),*),
            8 => $f::<Tagged, RandomState>($src, $($arg),*),
            9 => $f::<Tagged, Collide>($src, $($arg),*),
            10 => $f::<(), RandomState>($src, $($arg),*),
            _ => $f::<i32, Fnv>($src, $($arg),*),
        }
    };
}

mod hasher;
mod panics;
mod room;

// ---- C10 ------------------------------------------------------------------------------------------------

fn c10_history(src: &mut Src) -> Res {
    let w = W { union: 14, query: 10, single: 3, bulk: 2, clear: 1, iter: 2, clone: 1, tournament: 3, reserve: 1 };
    dispatch!(src, history, &w, false)
}

fn c10_small(src: &mut Src) -> Res {
    // every sequence of five operations out of: 16 unions of 4 elements, clear, iterate
    let mut d: DS<u8, Fnv> = DS::new();
    let mut m = Model::default();
    let n = if src.scale == 1 { 5 } else { 4 };
    for _ in 0..n {
        let op = src.us(18) as u32;
        src.note(|| format!("{}", if op < 16 { format!("union({}, {})", op / 4, op % 4) } else if op == 16 { "clear".into() } else { "iterate".into() }));
        match op {
            0..=15 => {
                d.union(u8::make(op / 4, 0), u8::make(op % 4, 0));
                m.union(op / 4, 0, op % 4, 0);
            }
            16 => {
                d.clear();
                m.m.clear();
            }
            _ => groups(&mut d, &m, "iteration")?,
        }
    }
    for a in 0..5 {
        for b in 0..5 {
            let mut c = d.clone();
            same!(c.in_union(&mk(a), &mk(b)), m.same(a, b), "in_union({}, {})", a, b);
        }
    }
    all_pairs(&mut d, &m, 5, 0, "all pairs")?;
    members(&d, &m, 5, "members")?;
    src.nontrivial_if(m.largest() >= 2);
    Ok(())
}

/// Deep trees of eight elements: three rounds of pairings in every representative choice, then queries.
fn c10_deep(src: &mut Src) -> Res {
    let mut d: DS<i32, Fnv> = DS::new();
    let mut m = Model::default();
    let un = |d: &mut DS<i32, Fnv>, m: &mut Model, a: u32, b: u32, flip: bool| {
        let (a, b) = if flip { (b, a) } else { (a, b) };
        d.union(mk(a), mk(b));
        m.union(a, 0, b, 0);
    };
    // first round: argument order of each pair
    let f = src.us(16);
    for p in 0..4u32 {
        un(&mut d, &mut m, 2 * p, 2 * p + 1, f >> p & 1 == 1);
    }
    // second round: members and argument order
    for h in 0..2u32 {
        let c = src.us(8) as u32;
        un(&mut d, &mut m, 4 * h + (c & 1), 4 * h + 2 + (c >> 1 & 1), c >> 2 == 1);
    }
    let c = src.us(32) as u32;
    un(&mut d, &mut m, c & 3, 4 + (c >> 2 & 3), c >> 4 == 1);
    // then one more union of an arbitrary member with a new or old element, and a query before it
    let q = src.us(8) as u32;
    same!(d.in_union(&mk(q), &mk(7 - q)), m.same(q, 7 - q), "in_union({}, {})", q, 7 - q);
    let x = src.us(8) as u32;
    un(&mut d, &mut m, x, 8, q % 2 == 1);
    un(&mut d, &mut m, 9, 10, false);
    all_pairs(&mut d, &m, 12, (q % 4) as u64, "deep trees")?;
    groups(&mut d, &m, "deep trees")?;
    src.nontrivial = true;
    Ok(())
}

/// One operation far more frequent than the others, on a set that is never replaced.
fn long_life_of<K: RefExtend, S: Hs>(src: &mut Src, foci: &[usize]) -> Res {
    let mut w = [6u32, 4, 3, 2, 1, 1, 1, 1, 1];
    w[*src.pick(foci)] = *src.pick(&[4, 20, 600]);
    src.note(|| format!("weights of the operations {:?}", w));
    let w = W { union: w[0], query: w[1], single: w[2], bulk: w[3], clear: w[4], iter: w[5], clone: w[6], tournament: w[7], reserve: w[8] };
    history_of::<K, S>(src, &w, true, true)
}
fn c10_long(src: &mut Src) -> Res {
    dispatch!(src, long_life_of, &[0, 1, 4, 7])
}
fn c11_long(src: &mut Src) -> Res {
    dispatch!(src, long_life_of, &[5, 5, 4, 6])
}
fn c12_long(src: &mut Src) -> Res {
    dispatch!(src, long_life_of, &[2, 3, 4, 8, 6])
}

// ---- C11 ------------------------------------------------------------------------------------------------

fn c11_history(src: &mut Src) -> Res {
    let w = W { union: 12, query: 3, single: 5, bulk: 3, clear: 1, iter: 12, clone: 1, tournament: 3, reserve: 1 };
    dispatch!(src, history, &w, false)
}

fn one_partition<S: Hs>(ops: &[(u32, u32)]) -> BTreeSet<Vec<u32>> {
    let mut d: DS<i32, S> = DS::new();
    for &(a, b) in ops {
        if a == b {
            d.make_set(mk(a));
        } else {
            d.union(mk(a), mk(b));
        }
    }
    let lim = ops.len() * 2 + 2;
    let r = (&mut d).into_iter().take(lim).map(|s| {
        let mut v: Vec<u32> = s.take(lim).map(|e| e.num()).collect();
        v.sort();
        v
    }).collect();
    r
}

/// The same history under four hashers gives the same partition, and it is a partition.
fn c11_hashers(src: &mut Src) -> Res {
    let uni = src.range(1, 30) as u64;
    let n = src.size(20, 80);
    let ops: Vec<(u32, u32)> = (0..n).map(|_| (src.draw(uni) as u32, src.draw(uni) as u32)).collect();
    src.note(|| format!("unions (equal pair: make_set) {:?}", ops));
    let a = one_partition::<RandomState>(&ops);
    same!(one_partition::<Fnv>(&ops), a, "fnv against random hasher");
    same!(one_partition::<Sip>(&ops), a, "sip against random hasher");
    same!(one_partition::<Collide>(&ops), a, "colliding against random hasher");
    let total: usize = a.iter().map(|g| g.len()).sum();
    let all: BTreeSet<u32> = a.iter().flatten().copied().collect();
    let want: BTreeSet<u32> = ops.iter().flat_map(|p| vec![p.0, p.1]).collect();
    same!(all, want, "elements yielded");
    same!(total, want.len(), "number of elements yielded");
    src.nontrivial_if(a.len() >= 2 && a.iter().any(|g| g.len() >= 3));
    Ok(())
}

/// Large sets: groups against the model computed once (the relabelling model is too slow here, so the classes are
/// built from the construction: residue classes).
fn c11_large(src: &mut Src) -> Res {
    let n = match src.draw(24) {
        0 => src.range(6_000, 40_000),
        1 => src.range(65_000, 140_000),
        _ => src.range(200, if src.scale == 1 { 40_000 } else { 6_000 }),
    } as u32;
    let k = src.range(1, 40) as u32;
    let mut d: DS<u64, Fnv> = DS::with_capacity(src.us(3) * 100);
    src.note(|| format!("{} elements joined within their residue class mod {}", n, k));
    // visit the elements in an order scattered by a stride
    let stride = *src.pick(&[1u32, 7, 101, 1009, 99991]);
    let how = src.us(4);
    for i in 0..n {
        let x = ((i as u64 * stride as u64) % n as u64) as u32;
        d.make_set(mk(x));
        let (a, b) = match how {
            0 => (x, x % k),
            1 => (x % k, x),
            2 => (x, if x >= k { x - k } else { x }),
            _ => (if x + k < n { x + k } else { x }, x),
        };
        d.union(mk(a), mk(b));
    }
    for i in 0..n {
        d.make_set(mk(i));
    }
    // residues below k may not have been joined by strides that do not visit every element
    for i in 0..n {
        if i >= k {
            d.union(mk(i), mk(i - k));
        }
    }
    same!(d.len(), n as usize, "len");
    let mut count = 0usize;
    let mut seen = vec![false; n as usize];
    for g in &mut d {
        count += 1;
        let v: Vec<u32> = g.map(|e| e.num()).collect();
        require!(!v.is_empty(), "empty group");
        let r = v[0] % k;
        for &e in &v {
            require!(e < n, "element {} was never added", e);
            require!(e % k == r, "elements {} and {} are in one group", v[0], e);
            require!(!seen[e as usize], "element {} appears twice", e);
            seen[e as usize] = true;
        }
        let expect = (n - r + k - 1) / k;
        same!(v.len(), expect as usize, "size of the group of {}", v[0]);
    }
    same!(count, k.min(n) as usize, "number of groups");
    require!(seen.iter().all(|&b| b), "an added element is in no group");
    src.nontrivial = true;
    Ok(())
}

// ---- C12 ------------------------------------------------------------------------------------------------

fn c12_history(src: &mut Src) -> Res {
    let w = W { union: 4, query: 1, single: 10, bulk: 10, clear: 3, iter: 3, clone: 2, tournament: 1, reserve: 4 };
    dispatch!(src, history, &w, true)
}

fn building<K: RefExtend, S: Hs>(src: &mut Src) -> Res {
    let uni = (src.range(1, 12) as u32).min(K::CARD);
    let n = src.size(10, 60);
    let ks: Vec<u32> = (0..n).map(|_| src.draw(uni as u64) as u32).collect();
    let mut m = Model::default();
    for (i, &k) in ks.iter().enumerate() {
        m.add(k, i as u32);
    }
    src.note(|| format!("keys {} hasher {}: {:?}", K::NAME, S::NAME, ks));
    let kv: Vec<K> = ks.iter().enumerate().map(|(i, &k)| K::make(k, i as u32)).collect();
    let check = |d: &mut DS<K, S>, what: &str| -> Res {
        members(d, &m, uni, what)?;
        all_pairs(d, &m, uni, 0, what)?;
        groups(d, &m, what)
    };
    let mut one: DS<K, S> = DS::new();
    for k in &kv {
        one.make_set(k.clone());
    }
    check(&mut one, "repeated make_set")?;
    check(&mut DS::from_iter(kv.clone()), "from_iter of owned elements")?;
    check(&mut DS::from_iter(kv.iter()), "from_iter of references")?;
    let kind = src.draw(HINTS);
    check(&mut DS::from_iter(Hinted { it: kv.clone().into_iter(), kind }), "from_iter of owned elements with a loose size hint")?;
    check(&mut DS::from_iter(Hinted { it: kv.iter(), kind }), "from_iter of references with a loose size hint")?;
    let mut e: DS<K, S> = DS::with_capacity(src.us(20));
    e.extend(kv.clone());
    check(&mut e, "extend of owned elements")?;
    let mut e: DS<K, S> = DS::with_hasher(S::default());
    if K::extend_ref(&mut e, palette(&ks, &kv), src.draw(HINTS)) {
        check(&mut e, "extend of references")?;
    }
    check(&mut DS::from_iter(palette(&ks, &kv)), "from_iter of repeated references")?;
    // split: first part by from_iter, the rest by extend
    let cut = src.us(n + 1);
    let mut e: DS<K, S> = DS::from_iter(kv[..cut].iter());
    e.extend(kv[cut..].to_vec());
    check(&mut e, "from_iter then extend")?;
    // adding everything again changes nothing
    for (i, &k) in ks.iter().enumerate() {
        e.make_set(K::make(k, 7000 + i as u32));
        e.union(K::make(k, 7000), K::make(k, 8000));
    }
    check(&mut e, "adding present elements again")?;
    let mut u: DS<K, S> = DS::with_capacity_and_hasher(src.us(64), S::default());
    for k in &kv {
        u.union(k.clone(), k.clone());
    }
    check(&mut u, "union of each element with itself")?;
    // clear, then build again
    u.union(mk(0), mk(uni - 1));
    u.clear();
    same!((u.len(), u.is_empty()), (0, true), "after clear");
    for k in 0..uni {
        require!(!u.contains(&mk(k)), "{} is still contained after clear", k);
        require!(!u.in_union(&mk(k), &mk(k)), "{} is still in union after clear", k);
    }
    require!((&mut u).into_iter().next().is_none(), "iteration after clear yields a group");
    u.extend(kv.clone());
    check(&mut u, "built again after clear")?;
    src.nontrivial_if(m.m.len() >= 2 && m.m.len() < n);
    Ok(())
}

fn c12_building(src: &mut Src) -> Res {
    dispatch!(src, building,)
}

// ---- C13 ------------------------------------------------------------------------------------------------

const STACK: usize = 40 * 1024;

/// Union orders that would build deep trees if the structure did not balance.
fn order(src: &mut Src, n: u32, out: &mut Vec<(u32, u32)>) {
    let pat = src.us(10);
    let flip = src.bool();
    src.note(|| format!("{} elements, pattern {}, arguments {}", n, ["chain", "chain with the first", "star growing", "tournament by first members", "tournament by last members", "tournament by random members", "chain of pairs", "random", "chain of blocks", "chain of tournaments"][pat], if flip { "swapped" } else { "in order" }));
    let mut p = |a: u32, b: u32| out.push(if flip { (b, a) } else { (a, b) });
    match pat {
        0 => (1..n).for_each(|i| p(i, i - 1)),
        1 => (1..n).for_each(|i| p(0, i)),
        2 => (1..n).for_each(|i| p(i, i / 2)),
        3 | 4 | 5 => {
            let mut rng = Rng::new(src.draw(1 << 32));
            let mut step = 1;
            while step < n {
                let mut i = 0;
                while i + step < n {
                    let right = step.min(n - i - step);
                    let (a, b) = match pat {
                        3 => (i, i + step),
                        4 => (i + step - 1, i + step + right - 1),
                        _ => (i + (rng.next() % step as u64) as u32, i + step + (rng.next() % right as u64) as u32),
                    };
                    p(a, b);
                    i += 2 * step;
                }
                step *= 2;
            }
        }
        6 => {
            let mut i = 0;
            while i + 1 < n {
                p(i, i + 1);
                if i >= 2 {
                    p(i, i - 2);
                }
                i += 2;
            }
            if i < n {
                p(i, i - 2);
            }
        }
        7 => {
            let mut rng = Rng::new(src.draw(1 << 32));
            for _ in 0..n {
                p((rng.next() % n as u64) as u32, (rng.next() % n as u64) as u32);
            }
            (1..n).for_each(|i| p(i - 1, i));
        }
        9 => {
            // balanced trees of equal rank joined one after the other, through a first or last member
            let b = 2u32 << src.us(6);
            let last = src.bool();
            let inner = src.bool();
            let mut prev = None;
            let mut s = 0;
            while s < n {
                let e = (s + b).min(n);
                let mut step = 1;
                while step < e - s {
                    let mut i = s;
                    while i + step < e {
                        if inner { p(i + step, i) } else { p(i, i + step) }
                        i += 2 * step;
                    }
                    step *= 2;
                }
                let rep = if last { e - 1 } else { s };
                if let Some(q) = prev {
                    p(rep, q);
                }
                prev = Some(rep);
                s = e;
            }
        }
        _ => {
            let b = src.range(2, 64) as u32;
            for i in 1..n {
                if i % b != 0 {
                    p(i, i - 1);
                }
            }
            let mut i = b;
            while i < n {
                p(i, i - b);
                i += b;
            }
        }
    }
}

fn on_small_stack<F: FnOnce() -> Res + Send>(f: F) -> Res {
    std::thread::scope(|s| {
        let h = std::thread::Builder::new().stack_size(STACK).spawn_scoped(s, move || guarded(f));
        match h {
            Ok(h) => match h.join() {
                Ok(Ok(r)) => r,
                Ok(Err(m)) => Err(format!("unexpected panic: {}", m)),
                Err(_) => Err("thread died".into()),
            },
            Err(e) => panic!("cannot start a thread: {}", e),
        }
    })
}

fn c13_stack(src: &mut Src) -> Res {
    let big = if src.scale == 1 { 400_000 } else { 60_000 };
    // something else happens between the unions: rarely in large sets, again and again in small ones
    let also = src.us(6);
    let (n, every) = match also {
        1 | 2 => {
            let n = src.range(1_000, 3_000);
            let most = if src.bool() { 2 } else { n };
            (n as u32, src.range(1, most))
        }
        _ => (src.range(big / 6, big) as u32, src.range(1, 50)),
    };
    src.note(|| format!("{} elements, every {} unions: {}", n, every, ["nothing", "go on with a clone", "iterate", "add elements again", "reserve", "query"][also]));
    let mut ops = Vec::new();
    order(src, n, &mut ops);
    // which end is looked at first, and through which operation
    let probe = src.us(4);
    let probes: Vec<u32> = (0..6).map(|_| src.draw(n as u64) as u32).collect();
    src.note(|| format!("first look: {}", ["in_union(0, n-1)", "in_union(n-1, 0)", "iteration", "union of random members"][probe]));
    src.nontrivial = true;
    on_small_stack(move || {
        let mut d: DS<i32, Fnv> = DS::with_capacity(n as usize);
        for (i, &(a, b)) in ops.iter().enumerate() {
            d.union(a as i32, b as i32);
            if i % every == 0 {
                match also {
                    1 => d = d.clone(),
                    2 => require!((&mut d).into_iter().count() > 0, "no groups after a union"),
                    3 => [a as i32, b as i32].iter().for_each(|&x| d.make_set(x)),
                    4 => d.reserve(1 + i % 3),
                    5 => require!(d.in_union(&(b as i32), &(a as i32)), "{} and {} are not in union", b, a),
                    _ => (),
                }
            }
        }
        let (f, l) = (0i32, n as i32 - 1);
        match probe {
            0 => require!(d.in_union(&f, &l), "0 and {} are not in union", l),
            1 => require!(d.in_union(&l, &f), "{} and 0 are not in union", l),
            2 => same!((&mut d).into_iter().count(), 1, "number of groups"),
            _ => {
                for w in probes.windows(2) {
                    d.union(w[0] as i32, w[1] as i32);
                }
            }
        }
        for &p in &probes {
            require!(d.in_union(&(p as i32), &f), "{} and 0 are not in union", p);
        }
        let mut total = 0usize;
        let mut sets = 0;
        for s in &mut d {
            sets += 1;
            total += s.count();
        }
        same!((sets, total), (1, n as usize), "groups and elements");
        for i in 0..n as i32 {
            require!(d.in_union(&i, &l), "{} and {} are not in union", i, l);
        }
        Ok(())
    })
}

/// Unions that join nothing must not unbalance the trees: small blocks see more and more of them and are then joined
/// with the tree of the blocks before.
fn c13_again(src: &mut Src) -> Res {
    let d = src.range(2_900, 4_000) as usize;
    let pair = src.us(3) > 0;
    let kind = src.us(5);
    let flip = src.bool();
    let growth = src.us(3);
    let start = src.us(4) * 20;
    let probe = src.us(3);
    src.note(|| format!("{} blocks of {}, joined in turn, {}; before that unions of {} again, {} times", d, if pair { 2 } else { 1 },
        if flip { "old with new" } else { "new with old" },
        ["one element with itself", "the pair in order", "the pair swapped", "the pair in both orders", "both elements with themselves"][kind],
        ["as many as blocks so far", "a random number of", "as many as blocks left"][growth]));
    let mut rng = Rng::new(src.draw(1 << 32));
    src.nontrivial = true;
    on_small_stack(move || {
        let mut s: DS<i32, Fnv> = DS::new();
        for i in 0..d {
            let x = 2 * i as i32;
            let y = if pair { x + 1 } else { x };
            let n = start + match growth { 0 => i + 2, 1 => (rng.next() % (2 * i as u64 + 2)) as usize, _ => d - i };
            s.union(x, y);
            for k in 0..n {
                match kind {
                    0 => s.union(x, x),
                    1 => s.union(x, y),
                    2 => s.union(y, x),
                    3 => if k % 2 == 0 { s.union(x, y) } else { s.union(y, x) },
                    _ => if k % 2 == 0 { s.union(x, x) } else { s.union(y, y) },
                }
            }
            if i > 0 {
                if flip { s.union(x - 2, x) } else { s.union(x, x - 2) }
            }
        }
        let last = 2 * d as i32 - 2;
        match probe {
            0 => require!(s.in_union(&0, &last), "0 and {} are not in union", last),
            1 => require!(s.in_union(&last, &0), "{} and 0 are not in union", last),
            _ => same!((&mut s).into_iter().count(), 1, "number of groups"),
        }
        for i in 0..d as i32 {
            require!(s.in_union(&(2 * i), &last), "{} and {} are not in union", 2 * i, last);
        }
        same!(s.len(), if pair { 2 * d } else { d }, "len");
        Ok(())
    })
}

/// Bytes of stack that `f` uses at most, in a thread whose stack was filled with a pattern. `f` gets to call whatever
/// it likes; at most 512 KiB are noticed.
fn stack_use<F: FnOnce() -> Res + Send>(f: F) -> Result<usize, String> {
    const PAINT: usize = 512 * 1024;
    const MARK: u64 = 0x5AC3_9D17_E842_B60F;
    #[inline(never)]
    fn paint(top: usize) {
        let mut at = top - PAINT;
        // (stays clear of this function's own frame)
        while at < top - 1024 {
            unsafe { std::ptr::write_volatile(at as *mut u64, MARK) };
            at += 8;
        }
    }
    #[inline(never)]
    fn deepest(top: usize) -> usize {
        let mut at = top - PAINT;
        while at < top - 1024 && unsafe { std::ptr::read_volatile(at as *const u64) } == MARK {
            at += 8;
        }
        top - at
    }
    std::thread::scope(|s| {
        let h = std::thread::Builder::new().stack_size(2 * PAINT).spawn_scoped(s, move || {
            let here = 0u64;
            let top = &here as *const u64 as usize & !15;
            paint(top);
            let r = guarded(f);
            let used = deepest(top);
            match r {
                Ok(Ok(())) => Ok(used),
                Ok(Err(m)) => Err(m),
                Err(m) => Err(format!("unexpected panic: {}", m)),
            }
        });
        match h {
            Ok(h) => h.join().unwrap_or_else(|_| Err("thread died".into())),
            Err(e) => panic!("cannot start a thread: {}", e),
        }
    })
}

/// Joins and then looks at every element, from one end, without compressing anything before it is looked at.
fn joined_and_asked(n: u32, ops: &[(u32, u32)], down: bool, iterate: bool) -> Res {
    let mut d: DS<i32, Fnv> = DS::with_capacity(n as usize);
    for &(a, b) in ops {
        d.union(a as i32, b as i32);
    }
    same!(d.len(), n as usize, "len");
    if iterate {
        same!((&mut d).into_iter().map(|g| g.count()).max(), Some(n as usize), "elements of the only group");
    }
    for i in 0..n as i32 {
        let x = if down { n as i32 - 1 - i } else { i };
        require!(d.in_union(&x, &0), "{} and 0 are not in union", x);
    }
    Ok(())
}

/// Blocks that grow by a law and see unions that join nothing, joined one after the other. Whatever rule keeps the
/// trees shallow, a mistake in what it counts shows in some such order.
fn c13_shallow(src: &mut Src) -> Res {
    let n = if src.scale == 1 { src.range(40_000, 120_000) } else { src.range(30_000, 60_000) } as u32;
    let law = src.us(5);
    let first = 1 + src.us(4) as u32;
    let step = 1 + src.us(3) as u32;
    let again = src.us(4);
    let shape = src.us(4);
    let rep = src.us(3);
    let flip = src.bool();
    let inner = src.bool();
    let down = src.us(4) == 0;
    let iterate = src.us(4) == 0;
    src.note(|| format!("{} elements in blocks of {} that {}, each a {}, {} unions again, joined {} by {} members, then asked {}", n, first,
        ["grow by 1 to 3", "stay that size", "shrink", "double now and then", "are of random sizes"][law],
        ["star", "star of swapped arguments", "chain", "tournament"][shape], ["no", "as many", "twice as many", "a few"][again],
        if flip { "old with new" } else { "new with old" }, ["first", "last", "middle"][rep], if down { "downwards" } else { "upwards" }));
    let mut rng = Rng::new(src.draw(1 << 32));
    let mut ops: Vec<(u32, u32)> = Vec::new();
    let mut s = 0;
    let mut old = None;
    let mut k = 0u32;
    let most = (2.0 * n as f64 / step as f64).sqrt() as u32;
    while s < n {
        let size = match law {
            0 => first + step * k,
            1 => first,
            2 => first + step * most.saturating_sub(k),
            3 => first << (k / 8).min(12),
            _ => 1 + (rng.next() % (2 * (first + step * k) as u64)) as u32,
        };
        let e = s + size.min(n - s).max(1);
        let from = ops.len();
        match shape {
            0 => (s + 1..e).for_each(|x| ops.push((s, x))),
            1 => (s + 1..e).for_each(|x| ops.push((x, s))),
            2 => (s + 1..e).for_each(|x| ops.push(if inner { (x - 1, x) } else { (x, x - 1) })),
            _ => {
                let mut w = 1;
                while w < e - s {
                    let mut i = s;
                    while i + w < e {
                        ops.push(if inner { (i + w, i) } else { (i, i + w) });
                        i += 2 * w;
                    }
                    w *= 2;
                }
            }
        }
        let made = ops.len() - from;
        let more = match again { 0 => 0, 1 => made, 2 => 2 * made, _ => 3 };
        for j in 0..more {
            let pair = if made == 0 { (s, s) } else { ops[from + j % made] };
            ops.push(if inner { (pair.1, pair.0) } else { pair });
        }
        let r = match rep { 0 => s, 1 => e - 1, _ => s + (e - s) / 2 };
        if let Some(o) = old {
            ops.push(if flip { (o, r) } else { (r, o) });
        }
        old = Some(r);
        s = e;
        k += 1;
    }
    src.nontrivial = true;
    // what a tree of one level and the deepest legitimate ones take
    let star: Vec<(u32, u32)> = (1..n).map(|x| (0, x)).collect();
    let mut firsts = Vec::new();
    let mut lasts = Vec::new();
    let mut w = 1;
    while w < n {
        let mut i = 0;
        while i + w < n {
            firsts.push((i, i + w));
            lasts.push((i + w - 1, (i + 2 * w).min(n) - 1));
            i += 2 * w;
        }
        w *= 2;
    }
    let base = stack_use(|| joined_and_asked(n, &star, down, iterate))?;
    let mut deep = 0;
    for t in [&firsts, &lasts] {
        deep = deep.max(stack_use(|| joined_and_asked(n, t, down, iterate))?);
    }
    let used = stack_use(|| joined_and_asked(n, &ops, down, iterate))?;
    let limit = base + 3 * deep.saturating_sub(base) + 1024;
    require!(used <= limit, "{} bytes of stack used; {} for a star, {} for tournaments of as many elements", used, base, deep);
    Ok(())
}

/// The CPU time of n operations stays within a wide multiple of the time of n plain hash map insertions and
/// lookups. Near-linear work is within a factor of about 5 of it, quadratic work beyond a factor of 1000.
fn c13_work(src: &mut Src) -> Res {
    const FACTOR: u64 = 150;
    let n = if src.scale == 1 { src.range(100_000, 300_000) as u32 } else { src.range(60_000, 120_000) as u32 };
    let mut ops = Vec::new();
    order(src, n, &mut ops);
    let query = src.us(3);
    src.note(|| format!("then look at {}", ["each element against the last", "each element against the first", "the first pair again and again"][query]));
    src.nontrivial = true;
    let run = |limit: u64| -> Result<u64, String> {
        let mut d: DS<i32, Fnv> = DS::with_capacity(n as usize);
        let t = thread_cpu_ns();
        let mut k = 0u32;
        let mut over = || {
            k += 1;
            k % 256 == 0 && thread_cpu_ns() - t > limit
        };
        for &(a, b) in &ops {
            d.union(a as i32, b as i32);
            if over() {
                return Ok(thread_cpu_ns() - t);
            }
        }
        for i in 0..n as i32 {
            let (a, b) = match query {
                0 => (i, n as i32 - 1),
                1 => (0, i),
                _ => (0, 1),
            };
            require_work(d.in_union(&a, &b), a, b)?;
            if over() {
                return Ok(thread_cpu_ns() - t);
            }
        }
        Ok(thread_cpu_ns() - t)
    };
    let base = {
        let t = thread_cpu_ns();
        let mut m: std::collections::HashMap<i32, usize, Fnv> = Default::default();
        for i in 0..n as i32 {
            m.insert(i, i as usize);
        }
        let mut s = 0usize;
        for i in 0..n as i32 {
            s = s.wrapping_add(m[&i]).wrapping_add(m[&(n as i32 - 1 - i)]);
        }
        std::hint::black_box(s);
        // at least 2 ms, so that a coarse clock cannot make the limit small
        (thread_cpu_ns() - t).max(2_000_000)
    };
    let limit = base * FACTOR;
    let mut best = u64::MAX;
    for _ in 0..3 {
        best = best.min(run(limit)?);
        if best <= limit {
            return Ok(());
        }
    }
    Err(format!("{} unions and {} queries took more than {} times the time of as many hash map operations", ops.len(), n, FACTOR))
}

fn require_work(c: bool, a: i32, b: i32) -> Result<(), String> {
    if c { Ok(()) } else { Err(format!("{} and {} are not in union", a, b)) }
}

// ---- large sets (C10, C12) ------------------------------------------------------------------------------

/// Small-to-large relabelling model for large universes.
struct Big {
    label: Vec<u32>,
    class: Vec<Vec<u32>>,
    present: Vec<bool>,
    count: usize,
}

impl Big {
    fn new(n: u32) -> Big {
        Big { label: (0..n).collect(), class: (0..n).map(|i| vec![i]).collect(), present: vec![false; n as usize], count: 0 }
    }
    fn add(&mut self, k: u32) {
        if !self.present[k as usize] {
            self.present[k as usize] = true;
            self.count += 1;
        }
    }
    /// the tag for an instance passed to the set now: the element itself the first time, something else later
    fn tag(&self, k: u32) -> u32 {
        if self.present[k as usize] { k + 1_000_000 } else { k }
    }
    fn union(&mut self, a: u32, b: u32) {
        self.add(a);
        self.add(b);
        let (mut x, mut y) = (self.label[a as usize], self.label[b as usize]);
        if x == y {
            return;
        }
        if self.class[x as usize].len() < self.class[y as usize].len() {
            std::mem::swap(&mut x, &mut y);
        }
        let moved = std::mem::take(&mut self.class[y as usize]);
        for &e in &moved {
            self.label[e as usize] = x;
        }
        self.class[x as usize].extend(moved);
    }
    fn same(&self, a: u32, b: u32) -> bool {
        self.present[a as usize] && self.present[b as usize] && self.label[a as usize] == self.label[b as usize]
    }
}

fn large<K: RefExtend, S: Hs>(src: &mut Src, unions: bool) -> Res {
    let n = match src.draw(12) {
        0..=6 => src.range(50, 1500) as u32,
        7..=9 => src.range(1500, 9000) as u32,
        10 => src.range(9000, 50_000) as u32,
        _ => src.range(65_000, 70_000) as u32,
    };
    let mut r = Rng::new(src.draw(1 << 32));
    src.note(|| format!("keys {} hasher {}", K::NAME, S::NAME));
    let mut m = Big::new(n + 2);
    let mut d: DS<K, S> = if src.bool() { DS::new() } else { DS::with_capacity(src.us(n as usize + 1)) };
    // some of the elements are there from the start, in one of several ways
    let first = if unions { [0, n / 2, n][src.us(3)] } else { [n / 2, n - 1, n][src.us(3)] };
    let how = src.us(7);
    src.note(|| format!("{} of {} elements added first, way {}", first, n, how));
    let keys = |lo: u32, hi: u32| -> Vec<K> { (lo..hi).map(|k| K::make(k, k)).collect() };
    match how {
        0 => keys(0, first).into_iter().for_each(|k| d.make_set(k)),
        1 => d.extend(keys(0, first)),
        2 => d = DS::from_iter(keys(0, first).iter()),
        3 => d = DS::from_iter(keys(0, first)),
        4 | 5 => {
            // by reference where the type allows it, perhaps in two parts
            let cut = if how == 4 { 0 } else { src.us(first as usize + 1) as u32 };
            for (lo, hi) in [(0, cut), (cut, first)] {
                let v = keys(lo, hi);
                if !K::extend_ref(&mut d, v.iter().collect(), src.draw(HINTS)) {
                    d.extend(v);
                }
            }
        }
        _ => {
            d.extend(keys(first / 2, first));
            d.extend(keys(0, first));
        }
    }
    (0..first).for_each(|k| m.add(k));
    same!((d.len(), d.is_empty()), (m.count, m.count == 0), "len and is_empty after adding elements");
    let mut ops = Vec::new();
    if unions {
        order(src, n, &mut ops);
        // leave several classes: skip every so many, or stop early
        match src.us(4) {
            0 => {}
            1 => {
                let k = src.range(2, 200);
                let mut i = 0;
                ops.retain(|_| {
                    i += 1;
                    i % k != 0
                });
                src.note(|| format!("without every {}th union", k));
            }
            _ => {
                let k = src.us(ops.len() + 1);
                ops.truncate(k);
                src.note(|| format!("only the first {} unions", k));
            }
        }
    } else {
        // a few unions and many repeated additions
        for _ in 0..src.us(40) {
            ops.push(((r.next() % n as u64) as u32, (r.next() % n as u64) as u32));
        }
        for _ in 0..n / 4 {
            let k = (r.next() % n as u64) as u32;
            d.make_set(K::make(k, m.tag(k)));
            m.add(k);
        }
        same!(d.len(), m.count, "len after adding some elements again");
    }
    let ask = src.range(1, 40);
    let mut both = [false; 2];
    for (i, &(a, b)) in ops.iter().enumerate() {
        d.union(K::make(a, m.tag(a)), K::make(b, m.tag(b)));
        m.union(a, b);
        if i % ask == 0 {
            let (x, y) = ((r.next() % (n as u64 + 2)) as u32, (r.next() % n as u64) as u32);
            same!(d.in_union(&mk::<K>(x), &mk::<K>(y)), m.same(x, y), "in_union({}, {}) after {} unions", x, y, i + 1);
            both[m.same(x, y) as usize] = true;
        }
    }
    same!(d.len(), m.count, "len");
    // the final answers: each element against its class, another class and a random element
    let order = src.us(3);
    let again = if src.chance(1, 4) {
        src.note(|| "clone".into());
        Some(d.clone())
    } else {
        None
    };
    for mut d in again.into_iter().chain(Some(d)) {
        for i in 0..n + 2 {
            let x = match order {
                0 => i,
                1 => n + 1 - i,
                _ => ((i as u64 * 7919) % (n as u64 + 2)) as u32,
            };
            same!(d.contains(&mk::<K>(x)), m.present[x as usize], "contains({})", x);
            let y = (r.next() % (n as u64 + 2)) as u32;
            let c = &m.class[m.label[x as usize] as usize];
            let z = c[(r.next() % c.len() as u64) as usize];
            for &y in &[y, z] {
                same!(d.in_union(&mk::<K>(x), &mk::<K>(y)), m.same(x, y), "in_union({}, {}) at the end", x, y);
                both[m.same(x, y) as usize] |= x != y;
            }
        }
        let (mut sets, mut total) = (0, 0);
        for g in &mut d {
            sets += 1;
            let mut label = None;
            for e in g {
                total += 1;
                require!(total <= m.count, "iteration yields more than {} elements", m.count);
                let l = m.label[e.num() as usize];
                same!(*label.get_or_insert(l), l, "class of element {} in its group", e.num());
                if let Some(t) = e.tag() {
                    require!(t == e.num(), "element {} was replaced by a later equal one", e.num());
                }
            }
        }
        let classes = m.class.iter().enumerate().filter(|(_, c)| c.first().map_or(false, |&k| m.present[k as usize])).count();
        same!((sets, total), (classes, m.count), "groups and elements");
        d.clear();
        same!((d.len(), d.contains(&mk::<K>(0)), d.in_union(&mk::<K>(n - 1), &mk::<K>(n - 1))), (0, false, false), "after clear");
        same!((&mut d).into_iter().count(), 0, "groups after clear");
        // and the cleared set starts again, with some of the old elements
        let again = src.range(1, 60) as u32;
        let step = src.range(1, (n / again).max(1) as usize) as u32;
        let of = |i: u32| i * step % n;
        let mut m = Big::new(n + 2);
        for i in 0..again {
            let (x, y) = (of(i), if src.bool() { of(i / 2) } else { of(i) });
            if x == y {
                d.make_set(mk::<K>(x));
                m.add(x);
            } else {
                d.union(mk::<K>(x), mk::<K>(y));
                m.union(x, y);
            }
        }
        same!(d.len(), m.count, "len after clear and {} more operations", again);
        for i in 0..again + 2 {
            let (x, y) = (i * step % (n + 2), of(src.us(again as usize) as u32));
            same!(d.contains(&mk::<K>(x)), m.present[x as usize], "contains({}) after clear", x);
            same!(d.in_union(&mk::<K>(x), &mk::<K>(y)), m.same(x, y), "in_union({}, {}) after clear", x, y);
        }
        let mut total = 0;
        for g in &mut d {
            let v: Vec<u32> = g.map(|e| e.num()).collect();
            require!(!v.is_empty(), "empty group after clear");
            total += v.len();
            for &e in &v {
                require!(m.same(e, v[0]), "elements {} and {} in one group after clear", e, v[0]);
            }
            same!(v.len(), m.class[m.label[v[0] as usize] as usize].len(), "size of the group of {} after clear", v[0]);
        }
        same!(total, m.count, "elements in groups after clear");
    }
    src.label_if(n > 65_536, "more than 65536 elements");
    src.label_if(both[0] && both[1], "queries answered both ways");
    src.nontrivial_if(m.count > 20);
    Ok(())
}

macro_rules! dispatch_large {
    ($src:expr, $u:expr) => {
        match $src.us(5) {
            0 => large::<i32, Fnv>($src, $u),
            1 => large::<u64, RandomState>($src, $u),
            2 => large::<String, Sip>($src, $u),
            3 => large::<Tagged, Fnv>($src, $u),
            _ => large::<(u8, String), Fnv>($src, $u),
        }
    };
}
fn c10_large(src: &mut Src) -> Res {
    dispatch_large!(src, true)
}
fn c12_large(src: &mut Src) -> Res {
    dispatch_large!(src, false)
}

pub fn suites() -> Vec<Suite> {
    let r = Kind::Random;
    let s = |prop, name, kind, quick, thorough, run, about| Suite { prop, name, kind, quick, thorough, miri: 0, run, about };
    vec![
        s("C10", "sets/history", r, 300_000, 8_000_000, c10_history as CheckFn, "random histories of unions, queries, additions, clears, clones and iterations over 12 key type/hasher pairs against a relabelling model; non-trivial: at least 3 unions and a final class of 3 or more elements"),
        s("C10", "sets/short-histories", Kind::Exhaustive, 1, 1, c10_small, "every history of 4 (thorough: 5) operations out of 16 unions of 4 elements, clear and iterate, all pairs of 5 elements asked on clones and in place; non-trivial: some class has 2 or more elements"),
        s("C10", "sets/deep-trees", Kind::Exhaustive, 1, 1, c10_deep, "every tournament of 8 elements in every choice of members and argument orders, followed by a query and a union, all pairs asked; every case is non-trivial"),
        s("C10", "sets/large", r, 1_600, 80_000, c10_large, "50 to 70 thousand elements joined in adversarial orders (chains, stars, tournaments, blocks), cut short, with queries in between; every element asked against a class mate and a random element, then iteration; non-trivial: more than 20 elements"),
        s("C10", "sets/long-life", r, 2_000, 40_000, c10_long, "long lives of one set that is never replaced: up to 150 thousand operations, one kind far more frequent than the others (unions, queries, clear, tournaments); non-trivial as for sets/history"),
        s("C11", "sets/partition-history", r, 800_000, 8_000_000, c11_history, "random histories with frequent full and partial iteration, groups compared with the model classes; non-trivial as for sets/history"),
        s("C11", "sets/partition-hashers", r, 240_000, 3_000_000, c11_hashers, "the same history run under four hashers gives the same partition, covering exactly the added elements once; non-trivial: 2 or more groups, one of 3 or more"),
        s("C11", "sets/partition-large", r, 2_400, 20_000, c11_large, "thousands of elements joined by residue class in scattered orders, groups checked element by element; every case is non-trivial"),
        s("C11", "sets/partition-long-life", r, 2_000, 40_000, c11_long, "long lives of one set that is never replaced: up to 150 thousand operations, one kind far more frequent than the others (iteration, clear, clones); non-trivial as for sets/history"),
        s("C12", "sets/membership-history", r, 600_000, 4_000_000, c12_history, "random histories heavy in additions, duplicates, bulk building, clear and reserve, membership of every element compared after each operation; non-trivial as for sets/history"),
        s("C12", "sets/building", r, 600_000, 3_000_000, c12_building, "the same elements added in nine ways (make_set, from_iter and extend, owned and by reference, with loose size hints, split, self-union, after clear) give the same set; non-trivial: 2 or more distinct elements with duplicates"),
        s("C12", "sets/membership-large", r, 2_400, 80_000, c12_large, "50 to 70 thousand elements added in seven ways with repetitions; membership, length, stored instance and singletons of each; non-trivial: more than 20 elements"),
        s("C12", "sets/membership-long-life", r, 2_000, 40_000, c12_long, "long lives of one set that is never replaced: up to 150 thousand operations, one kind far more frequent than the others (single and bulk additions, clear, reserve, clones); non-trivial as for sets/history"),
        s("C13", "sets/small-stack", r, 2_400, 20_000, c13_stack, "adversarial union orders (chains, stars, tournaments by first, last or random members, both argument orders) of 10 to 60 thousand elements (or 1 to 3 thousand with clones or iteration between the unions), then queries, unions and iteration in a thread with a stack of 40 KiB; every case is non-trivial"),
        s("C11", "sets/iterator-protocol", r, 600_000, 6_000_000, panics::c11_protocol, "the iterator over groups driven by next, nth, count, last and for_each, groups from both ends, size hints and the end of the iteration checked against the model; non-trivial: 2 or more groups, one of 2 or more"),
        s("C17", "sets/room", r, 600_000, 3_000_000, room::c17_room, "sets with reserved room (constructors, reserve after elements and unions) filled in four ways: no allocation; then repeated elements and queries: no allocation; non-trivial: 4 or more elements added"),
        s("C17", "sets/memory", r, 60_000, 300_000, room::c17_memory, "rounds of unions, queries, iteration, clear and refill, repeated extends: live heap bytes below a linear limit, all given back; non-trivial: 8 or more elements and 2 or more rounds"),
        s("C17", "sets/memory-long-life", r, 2_000, 40_000, room::c17_long, "long lives of one set that is never replaced: up to 150 thousand operations, one kind far more frequent than the others: live heap bytes below a limit linear in the number of elements; non-trivial: 4 or more elements"),
        s("C18", "sets/panics", r, 600_000, 8_000_000, panics::c18, "histories on instrumented elements in which hashing, comparison, cloning, destruction or iterator steps panic at a chosen point; the visible state must lie between before and after and later operations follow it; non-trivial: a panic happened and the history went on"),
        s("C18", "sets/panics-long-life", r, 1_000, 20_000, panics::c18_long, "the same over long lives of one set: up to 150 thousand operations; non-trivial as for sets/panics"),
        s("C18", "sets/panic-in-clear", Kind::Exhaustive, 1, 1, panics::c18_clear, "two unions of 3 elements, clear with the n-th destructor panicking, two unions: every choice; non-trivial: the clear panicked"),
        s("C19", "sets/hashers", r, 600_000, 6_000_000, hasher::c19, "histories with a keyed hash builder, other than its default, which records its use: only the builder given hashes, in clones and after clear too; non-trivial: 3 or more kinds of operation and 2 or more elements at the end"),
        s("C19", "sets/hashers-long-life", r, 2_000, 40_000, hasher::c19_long, "the same over long lives of one set: up to 150 thousand operations; non-trivial as for sets/hashers"),
        s("C13", "sets/redundant-unions", r, 64, 800, c13_again, "2900 to 4000 blocks of one or two elements see up to as many unions that join nothing (the same pair in either order, an element with itself) as there are blocks and are joined one after the other, then queries and iteration in a thread with a stack of 40 KiB; every case is non-trivial"),
        s("C13", "sets/shallow", r, 320, 6_000, c13_shallow, "30 to 60 thousand elements in blocks (stars, chains, tournaments; growing, constant, shrinking, random sizes; with unions that join nothing repeated) joined one after the other, then every element queried; the stack used, measured on a painted stack, may exceed that of a star by three times what a tournament of as many elements takes and 1 KiB; every case is non-trivial"),
        s("C13", "sets/work", r, 240, 2_000, c13_work, "CPU time of the same orders and of as many queries compared with plain hash map operations (factor 150, best of three); every case is non-trivial"),
    ]
}
