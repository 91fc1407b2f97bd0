//! C25: reserved capacity of a counter. C26: panics in the code of the elements. C27: the hash builder in use.
//! C28: work and memory.

use super::*;
use crate::alloc::{allocations, live_bytes};
use crate::suites::cost::{within, Watch};
use crate::suites::elem::*;
use std::hash::BuildHasher;

// ---- C25 ------------------------------------------------------------------------------------------------

fn room<K: RefExtend, S: Hs>(src: &mut Src) -> Res {
    if cfg!(miri) {
        return Ok(());
    }
    let big = if src.chance(1, 10) { 6000 } else { 400 };
    let n = src.size(12, big).min(K::CARD as usize);
    // repeated elements take no room
    let times = src.range(1, 3);
    let mut ks: Vec<u32> = Vec::new();
    for _ in 0..times {
        ks.extend(0..n as u32);
    }
    let kv: Vec<K> = ks.iter().map(|&k| mk(k)).collect();
    let other: Counter<K, S> = kv.iter().take(n).collect();
    drop(S::default());
    let start = allocations();
    let way = src.us(4);
    let mut c: Counter<K, S> = match way {
        0 | 1 => Counter::with_capacity(n),
        2 => Counter::with_capacity_and_hasher(n, S::default()),
        _ => {
            let mut c = Counter::with_hasher(S::default());
            c.reserve(n);
            c
        }
    };
    if n == 0 {
        same!(allocations() - start, 0, "allocations of a counter of capacity 0");
        same!(c.capacity(), 0, "capacity of a counter of capacity 0");
    }
    require!(c.capacity() >= n, "capacity {} of a counter made for {}", c.capacity(), n);
    let fill = src.us(5);
    src.note(|| format!("keys {} hasher {}: room for {} (way {}), filled {} times, way {}", K::NAME, S::NAME, n, way, times, fill));
    let before = allocations();
    let mut want = times;
    match fill {
        0 => {
            for k in kv {
                c.push(k);
            }
        }
        1 => {
            // in parts no larger than the room left
            let mut it = kv.into_iter();
            let first: usize = src.us(n + 1);
            for k in it.by_ref().take(first) {
                c.push(k);
            }
            c.extend(Hinted { it: it.by_ref().take(n - first), kind: 0 });
            for k in it {
                c.push(k);
            }
        }
        2 => c.extend(Hinted { it: kv.into_iter(), kind: 1 }),
        3 => {
            c += other;
            want = 1;
        }
        _ => {
            // adding needs no room for entries that are there
            for k in kv {
                c.push(k);
            }
            c += other;
            want += 1;
        }
    }
    same!(allocations() - before, 0, "allocations made by filling a counter with room for {} elements", n);
    same!(c.len(), n, "number of entries");
    require!(c.values().all(|&v| v == want), "a count differs from {}", want);
    src.nontrivial_if(n >= 4);
    Ok(())
}

pub fn c25(src: &mut Src) -> Res {
    match src.us(6) {
        0 => room::<i32, Fnv>(src),
        1 => room::<u64, RandomState>(src),
        2 => room::<String, Sip>(src),
        3 => room::<Tagged, Fnv>(src),
        4 => room::<u8, Seeded>(src),
        _ => room::<i32, RandomState>(src),
    }
}

// ---- C26 ------------------------------------------------------------------------------------------------

fn seen<S: BuildHasher>(c: &Counter<Tr, S>) -> Model {
    c.iter().map(|(k, v)| (k.key(), *v)).collect()
}

fn built<S: Hs>(m: &Model) -> Counter<Tr, S> {
    let mut c = Counter::default();
    for (&k, &v) in m {
        c.insert(Tr::new(k), v);
    }
    c
}

struct Steps<I>(I);
impl<I: Iterator> Iterator for Steps<I> {
    type Item = I::Item;
    fn next(&mut self) -> Option<I::Item> {
        tick(F_ITER);
        self.0.next()
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        self.0.size_hint()
    }
}

fn panicking<S: Hs, S2: Hs>(src: &mut Src, long: bool) -> Res {
    ledger_reset();
    let uni = src.range(1, 9) as u32;
    let mut m = Model::new();
    let mut c: Counter<Tr, S> = if src.bool() { Counter::new() } else { Counter::with_capacity(src.us(10)) };
    src.note(|| format!("hashers {}/{} universe {}", S::NAME, S2::NAME, uni));
    let ops = if long { 0 } else { src.range(1, if src.scale == 1 { 24 } else { 14 }) };
    let (focus, fuses) = if long { (src.us(14), *src.pick(&[2u64, 8, 40])) } else { (11, 2) };
    let (mut fired, mut after, mut effect, mut removed) = (0, 0, false, false);
    super::super::repeat(src, long, ops, |src| {
        let op = if focus < 11 && src.bool() { focus } else { src.us(11) };
        let list: Vec<u32> = if op < 4 { (0..src.us(6)).map(|_| src.draw(uni as u64) as u32).collect() } else { vec![] };
        let rhs: Model = if (4..8).contains(&op) { (0..src.us(6)).map(|_| (src.draw(uni as u64) as u32, src.us(4))).collect() } else { Model::new() };
        let fuse = if src.chance(1, fuses) { Some((src.us(5), src.us(7) as i64)) } else { None };
        src.note(|| format!("{}{}", match op {
            0 => format!("push each of {:?}", list),
            1 | 2 => format!("extend {:?}", list),
            3 => format!("build from {:?}", list),
            4 => format!("+= {:?}", rhs),
            5 => format!("+= &{:?}", rhs),
            6 => format!("-= {:?}", rhs),
            7 => format!("-= &{:?}", rhs),
            8 => "clone".to_string(),
            9 => "most_common".to_string(),
            _ => "look up".to_string(),
        }, fuse.map_or(String::new(), |(k, n)| format!(", {} number {} panics", ["clone", "drop", "comparison", "iterator step", "hashing"][k], n))));
        let kl: Vec<Tr> = list.iter().map(|&k| Tr::new(k)).collect();
        let probe: Vec<Tr> = (0..uni).map(Tr::new).collect();
        let b: Counter<Tr, S2> = built(&rhs);
        if let Some((k, n)) = fuse {
            arm(k, n);
        }
        let r: Result<Option<Counter<Tr, S>>, String> = guarded(|| {
            match op {
                0 => kl.into_iter().for_each(|k| c.push(k)),
                1 => c.extend(Steps(kl.into_iter())),
                2 => c.extend(Hinted { it: Steps(kl.into_iter()), kind: 1 }),
                3 => return Some(Steps(kl.iter()).collect()),
                4 => c += b,
                5 => c += &b,
                6 => c -= b,
                7 => c -= &b,
                8 => return Some(c.clone()),
                9 => {
                    c.most_common();
                }
                _ => {
                    for k in &probe {
                        c.get(k);
                    }
                }
            }
            None
        });
        disarm();
        match r {
            Ok(made) => {
                let before = m.clone();
                match op {
                    0..=2 => add(&mut m, &list),
                    3 if !long => {
                        m.clear();
                        add(&mut m, &list);
                    }
                    4 | 5 => {
                        for (&k, &v) in &rhs {
                            *m.entry(k).or_insert(0) += v;
                        }
                    }
                    6 | 7 => m = difference(&m, &rhs),
                    _ => {}
                }
                removed |= before.keys().any(|k| !m.contains_key(k));
                match made {
                    Some(n) if !long => c = n,
                    Some(n) if op == 8 => same!(seen(&n), m, "entries of a clone"),
                    _ => {}
                }
                after += (fired > 0) as u32;
            }
            Err(msg) => {
                require!(msg.starts_with(INJECTED), "unexpected panic: {}", msg);
                fired += 1;
                let s = seen(&c);
                // the standard hash map loses entries when hashing panics while it clears up after removals
                let lossy = removed && fuse.map_or(false, |f| f.0 == F_HASH);
                let fits = |from: &Model, to: &Model| -> bool {
                    let all: std::collections::BTreeSet<u32> = from.keys().chain(to.keys()).chain(s.keys()).copied().collect();
                    all.iter().all(|k| s.get(k) == from.get(k) || s.get(k) == to.get(k) || (lossy && !s.contains_key(k)))
                };
                let ok = match op {
                    0..=2 => (0..=list.len()).any(|j| {
                        let mut t = m.clone();
                        add(&mut t, &list[..j]);
                        fits(&t, &t)
                    }),
                    4 | 5 => {
                        let mut t = m.clone();
                        for (&k, &v) in &rhs {
                            *t.entry(k).or_insert(0) += v;
                        }
                        fits(&m, &t)
                    }
                    6 | 7 => fits(&m, &difference(&m, &rhs)),
                    _ => fits(&m, &m),
                };
                require!(ok, "entries {:?} after a panic, they were {:?}: some entry has neither its old nor its new count", s, m);
                effect |= s != m;
                removed |= m.keys().any(|k| !s.contains_key(k));
                m = s;
            }
        }
        same!(seen(&c), m, "entries");
        same!(c.len(), m.len(), "number of entries");
        for k in &probe {
            same!(c.get(k).copied(), m.get(&k.key()).copied(), "count of {}", k.key());
        }
        if let Some(e) = ledger_error() {
            return Err(e);
        }
        Ok(())
    })?;
    drop(c);
    if let Some(e) = ledger_error() {
        return Err(e);
    }
    if fired == 0 {
        same!(ledger_live(), 0, "elements left after everything was dropped without a panic");
    }
    src.label_if(effect, "an operation took effect in part");
    src.label_if(after > 0, "the history went on after a panic");
    src.nontrivial_if(fired > 0 && after > 0);
    Ok(())
}

pub fn c26(src: &mut Src) -> Res {
    some(src, false)
}
pub fn c26_long(src: &mut Src) -> Res {
    some(src, true)
}
fn some(src: &mut Src, long: bool) -> Res {
    match src.us(3) {
        0 => panicking::<Fnv, Sip>(src, long),
        1 => panicking::<Collide, Fnv>(src, long),
        _ => panicking::<RandomState, Collide>(src, long),
    }
}

// ---- C27 ------------------------------------------------------------------------------------------------

fn hashers<K: RefExtend>(src: &mut Src, long: bool) -> Res {
    let uni = (src.range(1, 10) as u32).min(K::CARD);
    let key = 1 + src.draw(3);
    let m0 = entries(src, uni, 40);
    let way = src.us(4);
    src.note(|| format!("keys {}: builder {}, way {}, entries {:?}", K::NAME, key, way, m0));
    let mut m = m0.clone();
    let own = Own { key };
    let mut c: Counter<K, Own> = only(key, "construction", || match way {
        0 => Counter::with_hasher(own),
        1 => Counter::with_capacity_and_hasher(src.us(30), own),
        2 => {
            let mut h: HashMap<K, usize, Own> = HashMap::with_hasher(own);
            h.extend(m0.iter().map(|(&k, &v)| (mk::<K>(k), v)));
            Counter::from_hashmap(h)
        }
        _ => {
            let mut h: HashMap<K, usize, Own> = HashMap::with_hasher(own);
            h.extend(m0.iter().map(|(&k, &v)| (mk::<K>(k), v)));
            Counter::from_hashmap(h).clone()
        }
    })?;
    if way < 2 {
        m.clear();
    }
    let mut kinds = 0u32;
    let n = if long { 0 } else { src.size(6, 20) };
    let focus = if long { src.us(13) } else { 11 };
    super::super::repeat(src, long, n, |src| {
        let op = if focus < 11 && src.bool() { focus } else { src.us(11) };
        let mb = entries(src, uni, 40);
        let ks: Vec<u32> = mb.keys().copied().collect();
        let other = 10 + src.draw(2);
        src.note(|| format!("operation {} with {:?}", op, mb));
        kinds |= 1 << op;
        let mut b: Counter<K, Own> = Counter::with_hasher(Own { key: other });
        for (&k, &v) in &mb {
            b.insert(mk(k), v);
        }
        let kv: Vec<K> = ks.iter().map(|&k| mk(k)).collect();
        // an operand may be asked for its own entries
        let allowed = if op < 3 { vec![key] } else { vec![key, other] };
        let mut old = std::mem::replace(&mut c, Counter::with_hasher(Own { key }));
        c = only_of(&allowed, "an operation", move || {
            match op {
                0 => kv.into_iter().for_each(|k| old.push(k)),
                1 => old.extend(kv),
                2 => {
                    if !extend_ref(&mut old, &kv) {
                        old.extend(kv)
                    }
                }
                3 => old += b,
                4 => old += &b,
                5 => old -= b,
                6 => old -= &b,
                7 => old = old + b,
                8 => old = old + &b,
                9 => old = old - b,
                _ => old = old - &b,
            }
            old
        })?;
        match op {
            0..=2 => add(&mut m, &ks),
            3 | 4 | 7 | 8 => {
                for (&k, &v) in &mb {
                    *m.entry(k).or_insert(0) += v;
                }
            }
            _ => m = difference(&m, &mb),
        }
        same!(c.hasher().key, key, "the builder of the counter after operation {}", op);
        let got: Model = c.iter().map(|(k, v)| (k.num(), *v)).collect();
        same!(got, m, "entries after operation {}", op);
        Ok(())
    })?;
    let d = c.clone();
    same!(d.hasher().key, key, "the builder of a clone");
    for k in 0..uni {
        let x = mk::<K>(k);
        let n = m.get(&x.num()).copied();
        same!(only(key, "a look-up", || c.get(&x).copied())?, n, "count of {}", k);
        same!(only(key, "a look-up in a clone", || d.get(&x).copied())?, n, "count of {} in a clone", k);
    }
    src.nontrivial_if(kinds.count_ones() >= 2 && m.len() >= 1);
    Ok(())
}

fn extend_ref<K: RefExtend>(_c: &mut Counter<K, Own>, _v: &[K]) -> bool {
    false
}

pub fn c27(src: &mut Src) -> Res {
    keyed(src, false)
}
pub fn c27_long(src: &mut Src) -> Res {
    keyed(src, true)
}
fn keyed(src: &mut Src, long: bool) -> Res {
    match src.us(5) {
        0 => hashers::<i32>(src, long),
        1 => hashers::<String>(src, long),
        2 => hashers::<Tagged>(src, long),
        3 => hashers::<u8>(src, long),
        _ => hashers::<(u8, String)>(src, long),
    }
}

// ---- C28 ------------------------------------------------------------------------------------------------

/// Well above what a hash table of k entries without heap of their own needs at its emptiest.
fn ceiling<K>(k: usize) -> i64 {
    (k.max(8) * (std::mem::size_of::<K>() + 16) * 8 + 2048) as i64
}

fn memory<K: RefExtend, S: Hs>(src: &mut Src) -> Res {
    if cfg!(miri) {
        return Ok(());
    }
    let k = src.size(20, 2000).min(K::CARD as usize).max(1);
    let per = src.range(1, 60).min(200_000 / k);
    let n = k * per;
    let way = src.us(6);
    src.note(|| format!("keys {} hasher {}: {} elements, {} distinct, way {}", K::NAME, S::NAME, n, k, way));
    let mut r = Rng::new(src.draw(1 << 32));
    drop(S::default());
    let start = live_bytes();
    let stream = |r: &mut Rng| {
        let seed = r.next();
        (0..n as u64).map(move |i| mk::<K>(((i.wrapping_mul(7919).wrapping_add(seed)) % k as u64) as u32))
    };
    let mut c: Counter<K, S> = Counter::new();
    match way {
        0 => stream(&mut r).for_each(|x| c.push(x)),
        1 => c.extend(Hinted { it: stream(&mut r), kind: 1 }),
        2 => c = Hinted { it: stream(&mut r), kind: 1 }.collect(),
        3 | 4 => {
            // the same entries added and taken away again and again
            for _ in 0..per {
                let b: Counter<K, S> = (0..k as u32).map(|x| mk::<K>(x)).collect();
                if way == 3 {
                    c += &b;
                } else {
                    c += b.clone();
                    c -= &b;
                    c += b;
                }
            }
        }
        _ => {
            for _ in 0..per {
                let b: Counter<K, S> = (0..k as u32).map(|x| mk::<K>(x)).collect();
                c = c + &b;
            }
        }
    }
    let held = live_bytes() - start;
    require!(held <= ceiling::<K>(k), "{} bytes are held for {} entries after {} elements", held, c.len(), n);
    let now = live_bytes();
    let list = c.most_common();
    same!(list.len(), c.len(), "length of the listing");
    let extra = live_bytes() - now;
    require!(extra <= ceiling::<K>(k), "a listing of {} entries holds {} bytes", k, extra);
    drop(list);
    same!(live_bytes(), now, "bytes after dropping a listing");
    drop(c);
    same!(live_bytes(), start, "bytes after dropping the counter");
    src.nontrivial_if(k >= 4 && per >= 4);
    Ok(())
}

/// One counter over a small universe, for long: what it holds stays below the limit for that universe.
fn lasting<K: RefExtend, S: Hs>(src: &mut Src) -> Res {
    if cfg!(miri) {
        return Ok(());
    }
    let n = src.size(12, 100).min(K::CARD as usize).max(1);
    let focus = src.us(8);
    src.note(|| format!("keys {} hasher {}: {} elements, operation {} more often than the others", K::NAME, S::NAME, n, focus));
    drop(S::default());
    let bare = src.bool();
    let before = live_bytes();
    let mut c: Counter<K, S> = if bare { Counter::new() } else { Counter::with_capacity(n) };
    let mut bytes = live_bytes() - before;
    super::super::repeat(src, true, 0, |src| {
        let op = if src.bool() { focus } else { src.us(8) };
        let (a, k) = (src.us(n), src.us(6));
        src.note(|| format!("operation {} {} {}", op, a, k));
        let ks: Vec<K> = (a..a + k).map(|i| mk::<K>((i % n) as u32)).collect();
        let room = 2 * k;
        // (only what changes during the operation itself counts)
        let before = live_bytes();
        let b: Counter<K, S> = if op < 4 { ks.iter().cloned().collect() } else { Counter::new() };
        match op {
            0 => c += b,
            1 => {
                c += &b;
                drop(b);
            }
            2 => c -= b,
            3 => {
                c -= &b;
                drop(b);
            }
            4 => c.push(mk(a as u32)),
            5 => c.extend(ks.iter().cloned()),
            6 => drop(c.most_common()),
            _ => {
                c.reserve(room);
                if a == 0 {
                    c.clear();
                }
            }
        }
        bytes += live_bytes() - before;
        require!(bytes <= ceiling::<K>(n + 12), "{} bytes are held for {} of at most {} elements", bytes, c.len(), n);
        Ok(())
    })?;
    let before = live_bytes();
    drop(c);
    same!(before - live_bytes(), bytes, "bytes given back by dropping the counter");
    src.nontrivial_if(n >= 4);
    Ok(())
}

pub fn c28_memory(src: &mut Src) -> Res {
    match src.us(4) {
        0 => memory::<i32, Fnv>(src),
        1 => memory::<u64, RandomState>(src),
        2 => memory::<Tagged, Fnv>(src),
        _ => memory::<char, Sip>(src),
    }
}

pub fn c28_work(src: &mut Src) -> Res {
    let op = src.us(10);
    // (quadratic work in a listing can be a mere move of memory per entry)
    let k = if op == 9 { src.range(120_000, 180_000) } else { src.range(12_000, 24_000) } as i32;
    let spread = src.us(3);
    src.note(|| format!("{} entries, operation {}, order {}", k, op, spread));
    src.nontrivial = true;
    let keys: Vec<i32> = (0..k).map(|i| match spread {
        0 => i,
        1 => k - i,
        _ => i.wrapping_mul(7919) % k,
    }).collect();
    let filled = |v: usize| -> Counter<i32, Fnv> {
        let mut c = Counter::new();
        for &i in &keys {
            c.insert(i, v + (i % 3) as usize);
        }
        c
    };
    let base = || {
        let mut m: HashMap<i32, usize, Fnv> = Default::default();
        for &i in &keys {
            *m.entry(i).or_insert(0) += 1;
        }
        let mut s = 0usize;
        for &i in &keys {
            s = s.wrapping_add(m[&i]);
        }
        std::hint::black_box(s);
    };
    let run = |w: &mut Watch| {
        match op {
            0 => {
                let mut c: Counter<i32, Fnv> = Counter::new();
                for &i in &keys {
                    c.push(i);
                    if w.over() {
                        return;
                    }
                }
            }
            1 => {
                let mut c: Counter<i32, Fnv> = Counter::new();
                c.extend(keys.iter().cloned().filter(|_| true));
                c.extend(&keys);
            }
            2 => {
                let c: Counter<i32, Fnv> = keys.iter().filter(|_| true).collect();
                std::hint::black_box(c.len());
            }
            3 => {
                let mut c = filled(1);
                c += filled(2);
            }
            4 => {
                let mut c = filled(1);
                c += &filled(2);
            }
            5 => {
                let mut c = filled(3);
                c -= filled(2);
            }
            6 => {
                let mut c = filled(3);
                c -= &filled(1);
            }
            7 => {
                let c = filled(2) + &filled(1);
                let c = c - &filled(3);
                std::hint::black_box(c.len());
            }
            8 => {
                let c = filled(2) + filled(1);
                let c = c - filled(4);
                std::hint::black_box(c.len());
            }
            _ => {
                let c = filled(1);
                std::hint::black_box(c.most_common().len());
                std::hint::black_box(c.into_most_common().len());
            }
        };
    };
    within(if op == 9 { 60 } else { 150 }, 2_000_000, base, run, &format!("operation {} on {} entries", op, k))
}
pub fn c28_long(src: &mut Src) -> Res {
    match src.us(4) {
        0 => lasting::<i32, Fnv>(src),
        1 => lasting::<u64, RandomState>(src),
        2 => lasting::<Tagged, Fnv>(src),
        _ => lasting::<char, Sip>(src),
    }
}
