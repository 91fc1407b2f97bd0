//! Long lives of one buffer: hundreds to tens of thousands of operations on the same instance, with one kind of
//! operation far more frequent than the others. (Ordinary histories are short and often replace the buffer.)

use super::*;
use crate::alloc::live_bytes;
use crate::suites::long_life;

// 0..=21 are the operations of `step`
const CLONE: usize = 22;
const COMPARE: usize = 23;
const VIEWS: usize = 24;
const DRAIN: usize = 25;
const OPS: usize = 26;

const BASE: [u32; OPS] = [8, 6, 6, 6, 2, 2, 2, 2, 2, 2, 2, 2, 2, 2, 2, 2, 2, 0, 2, 0, 0, 2, 1, 1, 1, 1];

fn weights(src: &mut Src, foci: &[usize]) -> [u32; OPS] {
    let mut w = BASE;
    if src.bool() {
        let bits = src.draw(1 << OPS as u64);
        for i in 4..OPS {
            if bits >> i & 1 == 1 {
                w[i] = 0;
            }
        }
    }
    let focus = *src.pick(foci);
    w[focus] = *src.pick(&[10u32, 60, 3000]);
    src.note(|| format!("operation {} more often than the others", focus));
    w
}

fn life<E: Elem>(src: &mut Src, foci: &[usize], count: fn() -> Option<i64>) -> Res {
    let cap = src.size(4, 10);
    let w = weights(src, foci);
    src.note(|| format!("CircularBuffer<{}>::new({})", E::NAME, cap));
    let mut b: CB<E> = if src.bool() { CircularBuffer::new(cap) } else { CircularBuffer::with_capacity(cap) };
    let mut m = Model { q: VecDeque::new(), cap };
    let mut h = Hist { next: 0, wrapped: false, evicted: false, refilled: false, was_emptied: false };
    let (mut o, om) = layout::<E>(3, 1, 2, 1, 0);
    let total: u32 = w.iter().sum();
    let own: u32 = w[..CLONE].iter().sum();
    let paired = src.bool();
    src.label_if(paired, "an end operation before each");
    let r = long_life(src, |src, i| {
        if paired {
            step(src, &mut b, &mut m, &mut h, &[3, 1, 3, 1], 12)?;
        }
        if src.draw(total as u64) < own as u64 {
            step(src, &mut b, &mut m, &mut h, &w[..CLONE], 12)?;
        } else {
            match CLONE + src.weighted(&w[CLONE..]) {
                CLONE => {
                    src.note(|| "clone".into());
                    if src.bool() {
                        content(&b.clone(), &m, "a clone")?;
                    } else {
                        o.clone_from(&b);
                        content(&o, &m, "a buffer after clone_from")?;
                        o = layout::<E>(3, 1, 2, 1, 0).0;
                    }
                }
                COMPARE => {
                    src.note(|| "compare".into());
                    let v: Vec<E> = m.q.iter().map(|&k| E::make(k)).collect();
                    require!(b == v[..] && !(b != v[..]), "a buffer does not equal its own elements");
                    same!(b == o, m.vec() == om.vec(), "== with another buffer");
                    same!(o != b, m.vec() != om.vec(), "!= with another buffer");
                }
                VIEWS => {
                    src.note(|| "all views".into());
                    read_views(&b, &m, "views")?;
                }
                _ => {
                    src.note(|| "drain all".into());
                    let want = m.vec();
                    same!(b.drain().map(|e| e.key()).collect::<Vec<u32>>(), want, "drain");
                    m.q.clear();
                }
            }
        }
        content(&b, &m, "after the operation")?;
        if let Some(n) = count() {
            same!(n, (m.q.len() + om.q.len()) as i64, "live elements after the operation");
        }
        if i % 64 == 0 {
            read_views(&b, &m, "after the operation")?;
        }
        Ok(())
    });
    r?;
    src.label_if(h.wrapped, "wrapped");
    src.label_if(h.evicted, "evicted");
    src.nontrivial_if(h.wrapped && (h.evicted || h.refilled));
    if m.cap > 0 {
        aftermath(&mut b, &mut m, "at the end of a long life")?;
    }
    Ok(())
}

fn uncounted() -> Option<i64> {
    None
}
fn counted() -> Option<i64> {
    Some(ledger_live())
}

fn any(src: &mut Src, foci: &[usize]) -> Res {
    match src.draw(4) {
        0 | 1 => life::<i64>(src, foci, uncounted),
        2 => life::<u8>(src, foci, uncounted),
        _ => life::<String>(src, foci, uncounted),
    }
}

pub fn c01(src: &mut Src) -> Res {
    any(src, &[0, 1, 2, 3, 4, 5, 6, 7])
}
pub fn c02(src: &mut Src) -> Res {
    any(src, &[18, 21, VIEWS])
}
pub fn c03(src: &mut Src) -> Res {
    any(src, &[8, 9, 10, 11, 12, 13, DRAIN])
}
pub fn c04(src: &mut Src) -> Res {
    any(src, &[14, 15, 16])
}
pub fn c05(src: &mut Src) -> Res {
    ledger_reset();
    let all: Vec<usize> = (0..OPS).filter(|&i| BASE[i] > 0).collect();
    life::<Tr>(src, &all, counted)?;
    same!(ledger_live(), 0, "live elements after everything is gone");
    match ledger_error() {
        Some(e) => Err(e),
        None => Ok(()),
    }
}
pub fn c08(src: &mut Src) -> Res {
    any(src, &[CLONE, COMPARE])
}

/// Bytes held by one buffer that is resized again and again.
fn storage_of<E: Elem>(src: &mut Src) -> Res {
    if cfg!(miri) {
        return Ok(());
    }
    let cap = src.size(8, 60);
    let top = *src.pick(&[8usize, 40, 200]);
    let often = *src.pick(&[1u64, 6, 60]);
    src.note(|| format!("CircularBuffer<{}>::new({})", E::NAME, cap));
    let before = live_bytes();
    let mut b: CB<E> = CircularBuffer::new(cap);
    let mut bytes = live_bytes() - before;
    cost::held(&b, bytes, "new buffer")?;
    long_life(src, |src, _| {
        let (c, k) = (src.size(8, top), src.us(6));
        let op = if src.draw(often + 4) < often { 9 } else { src.us(5) };
        src.note(|| format!("operation {} resize {} count {}", op, c, k));
        // (only what changes during the operation itself counts)
        let before = live_bytes();
        match op {
            9 => b.resize(c),
            0 => b.clear(),
            1 => b.extend((0..k as u32).map(E::make)),
            2 => b.drain().take(k).for_each(drop),
            3 => drop(b.clone()),
            _ => {
                for i in 0..k {
                    b.push_front(E::make(i as u32));
                }
                b.linearize();
            }
        }
        bytes += live_bytes() - before;
        cost::held(&b, bytes, "after the operation")
    })?;
    let cap = b.capacity();
    let before = live_bytes();
    drop(b);
    let released = before - live_bytes();
    require!(released <= cost::room::<E>(cap), "{} bytes were held at the end for a capacity of {} elements", released, cap);
    src.nontrivial_if(true);
    Ok(())
}

pub fn c15(src: &mut Src) -> Res {
    match src.draw(3) {
        0 => storage_of::<i64>(src),
        1 => storage_of::<u8>(src),
        _ => storage_of::<char>(src),
    }
}

/// Several panics in the life of one buffer, with ordinary operations between them.
pub fn c09(src: &mut Src) -> Res {
    ledger_reset();
    let mut fired = 0;
    {
        let cap = src.size(4, 10);
        let mut b: CB<Tr> = CircularBuffer::new(cap);
        let mut m = Model { q: VecDeque::new(), cap };
        let mut h = Hist { next: 0, wrapped: false, evicted: false, refilled: false, was_emptied: false };
        let w = weights(src, &[0, 2, 8, 13, 16]);
        let rare = *src.pick(&[2u64, 6, 30]);
        let favourite = src.us(12);
        long_life(src, |src, _| {
            if src.draw(rare) > 0 {
                step(src, &mut b, &mut m, &mut h, &w[..CLONE], 12)?;
                content(&b, &m, "after the operation")?;
            } else {
                let op = if src.bool() { favourite } else { src.us(12) };
                let (n, k) = (src.us(m.cap + 3), src.us(m.q.len().max(3) + 2));
                src.note(|| format!("operation {} with argument {}, a panic at call {}", op, n, k));
                h.next += 20;
                let first = h.next;
                h.next += n as u32;
                let v: Vec<Tr> = (0..n as u32).map(|i| Tr::new(first + i)).collect();
                let before = m.clone();
                arm(if op == 0 { F_ITER } else if op <= 2 { F_CLONE } else { F_DROP }, k as i64);
                let r = guarded(|| match op {
                    0 => b.extend(FaultyIter { next: first - 1, left: n }),
                    1 => b.extend(v.iter()),
                    2 => drop(b.clone()),
                    3 => b.clear(),
                    4 => b.resize(n),
                    5 => b.push_back(Tr::new(first)),
                    6 => b.push_front(Tr::new(first)),
                    7 => drop(b.drain().nth(n)),
                    8 => b.extend(v),
                    9 => drop(b.pop_front()),
                    10 => drop(b.pop_back()),
                    _ => b.iter_mut().for_each(|e| *e = Tr::new(first)),
                });
                disarm();
                if r.is_err() {
                    fired += 1;
                    if op <= 1 {
                        kept(&b, &before, first, n.min(k))?;
                    }
                    if op == 2 {
                        same!(visible(&b)?.q, m.q, "original after a failed clone");
                    }
                }
                m = visible(&b)?;
            }
            match ledger_error() {
                Some(e) => Err(e),
                None => Ok(()),
            }
        })?;
        let mut m = visible(&b)?;
        if m.cap > 0 {
            aftermath(&mut b, &mut m, "at the end")?;
        }
    }
    src.label_if(fired > 1, "several panics");
    src.nontrivial_if(fired > 1);
    match ledger_error() {
        Some(e) => Err(e),
        None => Ok(()),
    }
}
