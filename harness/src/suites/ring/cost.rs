//! C15: storage held by a circular buffer. C16: constant-time operations.

use super::*;
use crate::alloc::live_bytes;
use crate::suites::cost::{within, Watch};

/// The heap a buffer of heap-free elements may hold: capacity + 1 slots, and one slot and a little for rounding.
pub fn room<E>(cap: usize) -> i64 {
    ((cap + 2) * std::mem::size_of::<E>() + 64) as i64
}

pub fn held<E: Elem>(b: &CB<E>, bytes: i64, what: &str) -> Res {
    let cap = b.capacity();
    require!(bytes <= room::<E>(cap), "{}: {} bytes are held for a capacity of {} elements of {} bytes", what, bytes, cap, std::mem::size_of::<E>());
    Ok(())
}

fn storage_of<E: Elem>(src: &mut Src) -> Res {
    if cfg!(miri) {
        return Ok(());
    }
    let big = if src.chance(1, 12) { 5000 } else { 300 };
    let n = src.size(12, big);
    let spare = src.size(8, big);
    let how = src.us(10);
    src.note(|| format!("CircularBuffer<{}> built from {} elements, way {} ({} spare)", E::NAME, n, how, spare));
    let elems = |n: usize| -> Vec<E> { (0..n as u32).map(E::make).collect() };
    let kind = src.draw(HINTS);
    let source = elems(n);
    let base = live_bytes();
    let mut b: CB<E> = match how {
        0 => CircularBuffer::new(n),
        1 => CircularBuffer::with_capacity(n),
        2 => {
            let mut v = Vec::with_capacity(n + spare);
            v.extend((0..n as u32).map(E::make));
            CircularBuffer::from(v)
        }
        3 => (0..n as u32).map(E::make).collect(),
        4 => Hinted { it: (0..n as u32).map(E::make), kind }.collect(),
        5 => (0..(n + spare) as u32).filter(|k| *k < n as u32).map(E::make).collect(),
        6 => source.iter().collect(),
        7 => Hinted { it: source.iter(), kind }.collect(),
        8 => {
            let mut v = elems(n + spare);
            v.truncate(n);
            v.into_iter().collect()
        }
        _ => {
            let mut b: CB<E> = CircularBuffer::with_capacity(n + spare);
            b.extend((0..n as u32).map(E::make));
            b.resize(n);
            b
        }
    };
    held(&b, live_bytes() - base, "after building")?;
    same!(b.capacity(), n, "capacity after building");
    let mut changed = (2..=8).contains(&how) && spare > 0;
    for _ in 0..src.us(8) {
        let before = live_bytes();
        let cap = b.capacity();
        match src.us(9) {
            0 | 1 => {
                let c = match src.us(4) {
                    0 => cap / 2,
                    1 => src.size(6, 60),
                    2 => b.len(),
                    _ => src.size(12, big),
                };
                src.note(|| format!("resize({})", c));
                let before = live_bytes();
                b.resize(c);
                changed = true;
                same!(b.capacity(), c, "capacity after resize({})", c);
                // the old storage is gone: what is left grew by no more than the new storage
                let grown = live_bytes() - before;
                let old = (cap * std::mem::size_of::<E>()) as i64;
                require!(grown <= room::<E>(c) - old, "resize from {} to {}: {} bytes more than before", cap, c, grown);
            }
            2 => {
                src.note(|| "continue on a clone".into());
                let before = live_bytes();
                let c = b.clone();
                held(&c, live_bytes() - before, "a clone")?;
                let now = live_bytes();
                b = c;
                require!(live_bytes() < now || now == before, "replacing a buffer by its clone released nothing");
                changed = true;
            }
            3 => {
                let k = src.size(10, big);
                src.note(|| format!("extend by {}", k));
                let before = live_bytes();
                b.extend((0..k as u32).map(E::make));
                same!(live_bytes(), before, "bytes after extend");
            }
            4 => {
                let k = src.us(b.len() + 1);
                src.note(|| format!("drain {}", k));
                let before = live_bytes();
                b.drain().take(k).for_each(drop);
                same!(live_bytes(), before, "bytes after drain");
            }
            5 => {
                src.note(|| "clear".into());
                let before = live_bytes();
                b.clear();
                same!(live_bytes(), before, "bytes after clear");
            }
            6 => {
                let k = src.us(20);
                src.note(|| format!("{} pushes at the front, then linearize", k));
                let before = live_bytes();
                for i in 0..k {
                    b.push_front(E::make(i as u32));
                }
                b.linearize();
                same!(live_bytes(), before, "bytes after push_front and linearize");
            }
            7 => {
                let c = src.size(8, 200);
                src.note(|| format!("append a buffer of capacity {}", c));
                let mut o: CB<E> = CircularBuffer::with_capacity(c);
                o.extend((0..c as u32).map(E::make));
                let before = live_bytes();
                b.append(&mut o);
                same!(live_bytes(), before, "bytes after append");
                drop(o);
            }
            _ => {
                let k = src.us(30);
                src.note(|| format!("{} times pop_front and push_back", k));
                let before = live_bytes();
                for i in 0..k {
                    b.pop_front();
                    b.push_back(E::make(i as u32));
                }
                same!(live_bytes(), before, "bytes after pops and pushes");
            }
        }
        let _ = before;
    }
    let way = src.us(3);
    src.note(|| format!("at the end: {}", ["dropped", "consumed halfway", "consumed"][way]));
    let cap = b.capacity();
    let len = b.len();
    let before = live_bytes();
    match way {
        0 => drop(b),
        1 => b.into_iter().take(len / 2).for_each(drop),
        _ => b.into_iter().for_each(drop),
    }
    let freed = before - live_bytes();
    require!(freed <= room::<E>(cap), "at the end {} bytes are released by a buffer of capacity {} of elements of {} bytes", freed, cap, std::mem::size_of::<E>());
    require!(freed >= (cap * std::mem::size_of::<E>()) as i64, "at the end only {} bytes are released by a buffer of capacity {} of elements of {} bytes", freed, cap, std::mem::size_of::<E>());
    src.nontrivial_if(changed);
    Ok(())
}

pub fn storage(src: &mut Src) -> Res {
    match src.us(7) {
        0 => storage_of::<i64>(src),
        1 => storage_of::<u8>(src),
        2 => storage_of::<()>(src),
        3 => storage_of::<[u64; 9]>(src),
        4 => storage_of::<char>(src),
        5 => storage_of::<Wide>(src),
        _ => storage_of::<NonZeroU32>(src),
    }
}

const OPS: [&str; 13] = ["push_back when full", "push_front when full", "pop_front and push_back", "pop_back and push_front", "index", "index_mut", "first and last", "len, is_empty, is_full and capacity", "push_back and push_front in turn", "pop_back and push_back", "pop_front and push_front", "first_mut and last_mut", "a mix of all"];

fn run(b: &mut CB<u64>, op: usize, n: usize, w: &mut Watch) {
    let mut x = 1usize;
    let mut acc = 0u64;
    for i in 0..n {
        x = x.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
        match if op == 12 { i % 12 } else { op } {
            0 => b.push_back(x as u64),
            1 => b.push_front(x as u64),
            2 => {
                acc ^= b.pop_front().unwrap_or(0);
                b.push_back(i as u64)
            }
            3 => {
                acc ^= b.pop_back().unwrap_or(0);
                b.push_front(i as u64)
            }
            4 => acc ^= b[(x >> 20) % b.len()],
            5 => {
                let l = b.len();
                b[(x >> 20) % l] = i as u64
            }
            6 => acc ^= *b.first().unwrap() ^ *b.last().unwrap(),
            7 => acc ^= (b.len() + b.capacity()) as u64 ^ (b.is_full() as u64) ^ (b.is_empty() as u64),
            8 => {
                if i % 2 == 0 {
                    b.push_back(i as u64)
                } else {
                    b.push_front(i as u64)
                }
            }
            9 => {
                acc ^= b.pop_back().unwrap_or(0);
                b.push_back(i as u64)
            }
            10 => {
                acc ^= b.pop_front().unwrap_or(0);
                b.push_front(i as u64)
            }
            _ => {
                *b.first_mut().unwrap() = i as u64;
                *b.last_mut().unwrap() = i as u64;
            }
        }
        if w.over() {
            break;
        }
    }
    std::hint::black_box(acc);
}

pub fn constant(src: &mut Src) -> Res {
    let n = 1 << 17;
    let cap = src.range(260_000, 1_000_000);
    let op = src.us(OPS.len());
    // also with an end of the content just at the seam of the storage
    let rot = match src.us(4) {
        0 => src.us(4),
        1 => src.us(cap),
        2 => cap - src.us(200),
        _ => cap + 2 - src.us(4),
    };
    let missing = if src.bool() { src.us(4) } else { 0 };
    src.note(|| format!("{} times {} at capacity {}, rotation {}", n, OPS[op], cap, rot));
    src.nontrivial = true;
    src.note(|| format!("{} elements less than the capacity", missing));
    let make = |cap: usize, rot: usize, missing: usize| -> CB<u64> {
        let mut b: CB<u64> = (0..cap as u64).collect();
        for i in 0..rot {
            b.push_back(i as u64);
        }
        for i in 0..missing {
            if i % 2 == 0 {
                b.pop_back();
            } else {
                b.pop_front();
            }
        }
        b
    };
    let mut small = make(8, 2, missing);
    let mut large = make(cap, rot, missing);
    within(100, 1_000_000, || run(&mut small, op, n, &mut Watch::new(u64::MAX)), |w| run(&mut large, op, n, w), &format!("{} at capacity {}", OPS[op], cap))
}
