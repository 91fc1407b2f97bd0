//! C17: reserved room and memory of a disjoint set.

use super::*;
use crate::alloc::{allocations, live_bytes};

/// Bytes a set of up to n elements without heap of their own may hold: an entry of a hash table at its emptiest just
/// after growing is below 4 slots of (element, number, control byte), the forest needs at most twice its length. The
/// limit is several times that.
fn ceiling<K>(n: usize) -> i64 {
    (n.max(8) * (std::mem::size_of::<K>() + 32) * 8 + 2048) as i64
}

fn room<K: RefExtend, S: Hs>(src: &mut Src) -> Res {
    if cfg!(miri) {
        return Ok(());
    }
    let big = if src.chance(1, 10) { 6000 } else { 400 };
    // everything that allocates in the elements themselves is made beforehand
    let old = src.size(6, big).min(K::CARD as usize / 2);
    let n = src.size(12, big).min(K::CARD as usize - old);
    let olds: Vec<K> = (0..old as u32).map(|k| K::make(k, 0)).collect();
    let news: Vec<K> = (old as u32..(old + n) as u32).map(|k| K::make(k, 0)).collect();
    let again: Vec<K> = news.clone();
    let probes: Vec<K> = news.clone();
    drop(S::default());
    let start = allocations();
    let (mut d, how): (DS<K, S>, &str) = match src.us(6) {
        0 if old == 0 => (DS::with_capacity(n), "with_capacity"),
        1 if old == 0 => (DS::with_capacity_and_hasher(n, S::default()), "with_capacity_and_hasher"),
        2 => {
            let mut d = DS::with_capacity(src.us(old + 1));
            d.extend(olds);
            d.reserve(n);
            (d, "with_capacity, elements, reserve")
        }
        3 => {
            let mut d = DS::from_iter(olds);
            d.reserve(n);
            (d, "from_iter, reserve")
        }
        4 => {
            let mut d = DS::with_hasher(S::default());
            for k in olds {
                d.make_set(k);
            }
            for w in 1..old {
                if w % 3 != 0 {
                    d.union(K::make(w as u32, 0), K::make(w as u32 - 1, 0));
                }
            }
            d.reserve(n);
            (d, "elements, unions, reserve")
        }
        _ => {
            let mut d = DS::with_capacity(old + n);
            for k in olds {
                d.make_set(k);
            }
            (d, "with_capacity, some elements")
        }
    };
    src.note(|| format!("keys {} hasher {}: {} elements, room for {} more ({})", K::NAME, S::NAME, old, n, how));
    if old + n == 0 && how.starts_with("with_capacity") {
        same!(allocations() - start, 0, "allocations of a set of capacity 0");
    }
    // filling the room
    let way = src.us(4);
    let kind = if src.bool() { 0 } else { 1 };
    let before = allocations();
    let mut it = news.into_iter();
    match way {
        0 => it.for_each(|k| d.make_set(k)),
        1 => d.extend(Hinted { it, kind }),
        2 => {
            let mut last = None;
            while let Some(k) = it.next() {
                match it.next() {
                    Some(l) => d.union(k, l),
                    None => last = Some(k),
                }
            }
            if let Some(k) = last {
                d.make_set(k);
            }
        }
        _ => {
            let mid = n / 2;
            for k in it.by_ref().take(mid) {
                d.make_set(k);
            }
            d.extend(it);
        }
    }
    same!(allocations() - before, 0, "allocations made by adding {} elements to a set with room for them (way {})", n, way);
    same!(d.len(), old + n, "len");
    // whatever is done with elements that are there takes no memory
    let before = allocations();
    let bytes = live_bytes();
    for (i, k) in again.into_iter().enumerate() {
        if i % 2 == 0 {
            d.make_set(k);
        } else {
            let j = (i * 7 + 3) % n;
            d.in_union(&k, &probes[j]);
            d.contains(&k);
        }
    }
    same!(allocations() - before, 0, "allocations made by adding elements again and by queries");
    require!(live_bytes() <= bytes, "adding elements again takes memory");
    if way != 0 {
        src.label("filled by extend or union");
    }
    src.nontrivial_if(n >= 4);
    Ok(())
}

fn memory<K: RefExtend, S: Hs>(src: &mut Src) -> Res {
    if cfg!(miri) {
        return Ok(());
    }
    let n = src.size(30, 3000).min(K::CARD as usize).max(1);
    let rounds = src.range(1, 12);
    let mut r = Rng::new(src.draw(1 << 32));
    let way = src.us(4);
    src.note(|| format!("keys {} hasher {}: {} elements, {} rounds of {}", K::NAME, S::NAME, n, rounds, ["unions", "unions, queries and iteration", "clear and refill", "extend by the same elements"][way]));
    drop(S::default());
    let start = live_bytes();
    let mut d: DS<K, S> = DS::new();
    let check = |d: &DS<K, S>, r: usize| -> Res {
        let held = live_bytes() - start;
        require!(held <= ceiling::<K>(n), "{} bytes are held for {} elements after round {}", held, d.len(), r);
        Ok(())
    };
    for round in 0..rounds {
        match way {
            0 | 1 => {
                for _ in 0..2 * n {
                    let (a, b) = (r.next() % n as u64, r.next() % n as u64);
                    d.union(mk(a as u32), mk(b as u32));
                }
                if way == 1 {
                    for i in 0..n as u32 {
                        d.in_union(&mk(i), &mk(0));
                    }
                    check(&d, round)?;
                    (&mut d).into_iter().count();
                }
            }
            2 => {
                d.clear();
                for i in 0..n as u32 {
                    d.union(mk(i), mk((r.next() % n as u64) as u32));
                }
            }
            _ => {
                // in pieces: what extend reserves is part of the bound
                for c in (0..n as u32).collect::<Vec<_>>().chunks((n / 3).max(1)) {
                    d.extend(c.iter().map(|&k| mk::<K>(k)));
                }
            }
        }
        check(&d, round)?;
    }
    // a clone holds no more, and everything is given back
    let before = live_bytes();
    let c = d.clone();
    require!(live_bytes() - before <= ceiling::<K>(n), "{} bytes are held by a clone of {} elements", live_bytes() - before, n);
    drop(c);
    same!(live_bytes(), before, "bytes after dropping a clone");
    drop(d);
    same!(live_bytes(), start, "bytes after dropping the set");
    src.nontrivial_if(n >= 8 && rounds >= 2);
    Ok(())
}

/// One set over a small universe, for long: what it holds stays below the limit for that universe.
fn lasting<K: RefExtend, S: Hs>(src: &mut Src) -> Res {
    if cfg!(miri) {
        return Ok(());
    }
    let n = src.size(12, 100).min(K::CARD as usize).max(1);
    let focus = src.us(8);
    src.note(|| format!("keys {} hasher {}: {} elements, operation {} more often than the others", K::NAME, S::NAME, n, focus));
    drop(S::default());
    let bare = src.bool();
    let before = live_bytes();
    let mut d: DS<K, S> = if bare { DS::new() } else { DS::with_capacity(n) };
    let mut bytes = live_bytes() - before;
    super::super::repeat(src, true, 0, |src| {
        let op = if src.bool() { focus } else { src.us(8) };
        let k = src.us(6);
        let (a, b) = (src.us(n) as u32, src.us(n) as u32);
        src.note(|| format!("operation {} {} {} {}", op, a, b, k));
        // (only what changes during the operation itself counts)
        let before = live_bytes();
        match op {
            0 => d.union(mk(a), mk(b)),
            1 => d.make_set(mk(a)),
            2 => d.extend((0..k).map(|i| mk::<K>((a + i as u32) % n as u32))),
            3 => {
                d.in_union(&mk(a), &mk(b));
            }
            4 => d.clear(),
            5 => {
                (&mut d).into_iter().take(k).count();
            }
            6 => drop(d.clone()),
            _ => d.reserve(k),
        }
        bytes += live_bytes() - before;
        // (what extend and reserve ask room for is part of the bound)
        require!(bytes <= ceiling::<K>(n + 6), "{} bytes are held for {} of at most {} elements", bytes, d.len(), n);
        Ok(())
    })?;
    let before = live_bytes();
    drop(d);
    same!(before - live_bytes(), bytes, "bytes given back by dropping the set");
    src.nontrivial_if(n >= 4);
    Ok(())
}

macro_rules! heapless {
    ($src:expr, $f:ident) => {
        match $src.us(6) {
            0 => $f::<i32, Fnv>($src),
            1 => $f::<u64, RandomState>($src),
            2 => $f::<char, Sip>($src),
            3 => $f::<Tagged, Fnv>($src),
            4 => $f::<u8, Fnv>($src),
            _ => $f::<i32, RandomState>($src),
        }
    };
}

pub fn c17_room(src: &mut Src) -> Res {
    heapless!(src, room)
}
pub fn c17_memory(src: &mut Src) -> Res {
    heapless!(src, memory)
}
pub fn c17_long(src: &mut Src) -> Res {
    heapless!(src, lasting)
}
