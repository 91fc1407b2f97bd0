//! Circular buffer: C01..C09.

use super::elem::*;
use super::{Hinted, Kind, Suite, HINTS};
use crate::alloc::allocations;
use crate::engine::*;
use crate::{require, same};
use advanced_collections::circular_buffer::CircularBuffer;
use std::cmp::Ordering;
use std::collections::VecDeque;
use std::num::NonZeroU32;
use std::rc::Rc;

mod cost;
mod iters;
mod large;
mod long;

type CB<E> = CircularBuffer<E>;

/// Reference model: a double-ended queue with a capacity.
#[derive(Clone, Debug)]
pub struct Model {
    pub q: VecDeque<u32>,
    pub cap: usize,
}

impl Model {
    fn push_back(&mut self, k: u32) -> bool {
        if self.cap == 0 {
            return true;
        }
        let evict = self.q.len() == self.cap;
        if evict {
            self.q.pop_front();
        }
        self.q.push_back(k);
        evict
    }
    fn push_front(&mut self, k: u32) -> bool {
        if self.cap == 0 {
            return true;
        }
        let evict = self.q.len() == self.cap;
        if evict {
            self.q.pop_back();
        }
        self.q.push_front(k);
        evict
    }
    fn resize(&mut self, c: usize) {
        while self.q.len() > c {
            self.q.pop_front();
        }
        self.cap = c;
    }
    fn vec(&self) -> Vec<u32> {
        self.q.iter().copied().collect()
    }
}

/// Collects at most `max` keys of an iterator (a broken iterator may never end).
fn keys<'a, E: Elem + 'a, I: Iterator<Item = &'a E>>(it: I, max: usize) -> Vec<u32> {
    it.take(max).map(|e| e.key()).collect()
}

fn sizes<E: Elem>(b: &CB<E>, m: &Model, what: &str) -> Res {
    same!(b.len(), m.q.len(), "{}: len", what);
    same!(b.capacity(), m.cap, "{}: capacity", what);
    same!(b.is_empty(), m.q.is_empty(), "{}: is_empty", what);
    same!(b.is_full(), m.q.len() == m.cap, "{}: is_full", what);
    Ok(())
}

fn content<E: Elem>(b: &CB<E>, m: &Model, what: &str) -> Res {
    sizes(b, m, what)?;
    let want = m.vec();
    same!(keys(b.iter(), want.len() + 2), want, "{}: content", what);
    Ok(())
}

/// Every read-only view shows the model sequence.
fn read_views<E: Elem>(b: &CB<E>, m: &Model, what: &str) -> Res {
    content(b, m, what)?;
    let want = m.vec();
    let n = want.len();
    let rev: Vec<u32> = want.iter().rev().copied().collect();
    same!(keys(b.iter().rev(), n + 2), rev, "{}: iter().rev()", what);
    same!(keys(b.into_iter(), n + 2), want, "{}: iteration by reference", what);
    {
        // both ends alternately, and nth/last/count
        let mut it = b.iter();
        let mut got = Vec::new();
        let mut exp = Vec::new();
        let mut d: VecDeque<u32> = m.q.clone();
        for i in 0..n + 2 {
            if i % 2 == 0 {
                got.push(it.next().map(|e| e.key()));
                exp.push(d.pop_front());
            } else {
                got.push(it.next_back().map(|e| e.key()));
                exp.push(d.pop_back());
            }
        }
        same!(got, exp, "{}: iter() from both ends", what);
        same!(b.iter().count(), n, "{}: iter().count()", what);
        same!(b.iter().last().map(|e| e.key()), want.last().copied(), "{}: iter().last()", what);
        for i in 0..n + 1 {
            same!(b.iter().nth(i).map(|e| e.key()), want.get(i).copied(), "{}: iter().nth({})", what, i);
        }
        let (lo, hi) = b.iter().size_hint();
        require!(lo <= n && hi.map_or(true, |h| h >= n), "{}: size_hint ({}, {:?}) excludes {}", what, lo, hi, n);
    }
    for i in 0..n {
        same!(b[i].key(), want[i], "{}: index {}", what, i);
    }
    same!(b.first().map(|e| e.key()), want.first().copied(), "{}: first", what);
    same!(b.last().map(|e| e.key()), want.last().copied(), "{}: last", what);
    let (s1, s2) = b.slices();
    let mut cat = keys(s1.iter(), n + 2);
    cat.extend(keys(s2.iter(), n + 2));
    same!(cat, want, "{}: slices", what);
    // elements are where the other views say they are
    if std::mem::size_of::<E>() > 0 {
        for (i, e) in b.iter().enumerate().take(n) {
            require!(std::ptr::eq(e, &b[i]), "{}: iter and index {} refer to different elements", what, i);
        }
        for (i, e) in s1.iter().chain(s2.iter()).enumerate().take(n) {
            require!(std::ptr::eq(e, &b[i]), "{}: slices and index {} refer to different elements", what, i);
        }
        if n > 0 {
            require!(std::ptr::eq(b.first().unwrap(), &b[0]), "{}: first is not element 0", what);
            require!(std::ptr::eq(b.last().unwrap(), &b[n - 1]), "{}: last is not element {}", what, n - 1);
        }
    }
    Ok(())
}

fn idx_panics<E: Elem>(b: &CB<E>, i: usize) -> bool {
    guarded(|| b[i].key()).is_err()
}

fn oob_candidates(n: usize, cap: usize) -> [usize; 6] {
    [n, n + 1, cap, cap + 1, usize::MAX, usize::MAX - n]
}

/// Builds a buffer with the given capacity, rotation and content by pushing and popping.
/// route 0 rotates forwards (push_back/pop_front), route 1 backwards (push_front/pop_back).
fn layout<E: Elem>(cap: usize, rot: usize, len: usize, base: u32, route: u64) -> (CB<E>, Model) {
    let mut b: CB<E> = CircularBuffer::with_capacity(cap);
    let mut m = Model { q: VecDeque::new(), cap };
    if cap > 0 {
        for _ in 0..rot {
            if route == 0 {
                b.push_back(E::make(9));
                b.pop_front();
            } else {
                b.push_front(E::make(9));
                b.pop_back();
            }
        }
        for i in 0..len {
            let k = base + i as u32;
            if route == 0 {
                b.push_back(E::make(k));
                m.push_back(E::norm(k));
            } else {
                // same content, written from the back
                let k = base + (len - 1 - i) as u32;
                b.push_front(E::make(k));
                m.push_front(E::norm(k));
            }
        }
    }
    (b, m)
}

struct Shape {
    cap: usize,
    rot: usize,
    len: usize,
}

fn shapes(max: usize) -> Vec<Shape> {
    let mut v = Vec::new();
    for cap in 0..=max {
        for rot in 0..=cap {
            for len in 0..=cap {
                v.push(Shape { cap, rot, len });
            }
        }
    }
    v
}

fn pick_shape(src: &mut Src, max: usize) -> Shape {
    let all = shapes(max);
    let i = src.us(all.len());
    let s = &all[i];
    Shape { cap: s.cap, rot: s.rot, len: s.len }
}

/// Random layout, now and then a large one.
fn random_shape(src: &mut Src, small: usize, max: usize) -> Shape {
    let cap = src.size(small, max);
    let rot = match src.draw(4) {
        0 => 0,
        1 => cap,
        _ => src.us(cap + 1),
    };
    let len = match src.draw(5) {
        0 => cap,
        1 => cap.saturating_sub(1),
        _ => src.us(cap + 1),
    };
    Shape { cap, rot, len }
}

fn hint<I: Iterator>(it: &I, left: usize, what: &str) -> Res {
    let (lo, hi) = it.size_hint();
    require!(lo <= left && hi.map_or(true, |h| h >= left), "{}: size_hint ({}, {:?}) excludes the {} elements left", what, lo, hi, left);
    Ok(())
}

/// Uses up an owning iterator (or a part of it) in one of the ways callers do.
fn finish<E: Elem, I: Iterator<Item = E>>(src: &mut Src, mut it: I, q: &mut VecDeque<u32>, way: usize, what: &str) -> Res {
    let n = q.len();
    match way {
        0 => {
            same!(it.count(), n, "{}: count", what);
            q.clear();
        }
        1 => {
            same!(it.last().map(|e| e.key()), q.back().copied(), "{}: last", what);
            q.clear();
        }
        2 => {
            let k = src.us(n + 2);
            same!(it.nth(k).map(|e| e.key()), q.get(k).copied(), "{}: nth({})", what, k);
            q.drain(..n.min(k + 1));
            hint(&it, q.len(), what)?;
            same!(it.next().map(|e| e.key()), q.pop_front(), "{}: next after nth({})", what, k);
        }
        3 => {
            let mut got = Vec::new();
            it.for_each(|e| {
                if got.len() < n + 2 {
                    got.push(e.key())
                }
            });
            same!(got, q.iter().copied().collect::<Vec<u32>>(), "{}: for_each", what);
            q.clear();
        }
        _ => {
            let k = src.us(n + 2);
            let got: Vec<u32> = it.by_ref().take(k).map(|e| e.key()).collect();
            same!(got, q.drain(..n.min(k)).collect::<Vec<u32>>(), "{}: take({})", what, k);
            hint(&it, q.len(), what)?;
        }
    }
    Ok(())
}

/// After an operation under test: run a little of everything to see that the buffer still works.
fn aftermath<E: Elem>(b: &mut CB<E>, m: &mut Model, what: &str) -> Res {
    content(b, m, what)?;
    let mut k = 5000;
    for _ in 0..2 {
        b.push_back(E::make(k));
        m.push_back(E::norm(k));
        k += 1;
        content(b, m, &format!("{} then push_back", what))?;
        b.push_front(E::make(k));
        m.push_front(E::norm(k));
        k += 1;
        content(b, m, &format!("{} then push_front", what))?;
    }
    same!(b.pop_front().map(|e| e.key()), m.q.pop_front(), "{} then pop_front", what);
    same!(b.pop_back().map(|e| e.key()), m.q.pop_back(), "{} then pop_back", what);
    content(b, m, &format!("{} then pops", what))?;
    for i in 0..m.cap.min(40) + 1 {
        b.push_back(E::make(k + i as u32));
        m.push_back(E::norm(k + i as u32));
    }
    content(b, m, &format!("{} then filling up", what))?;
    let mut guard = m.q.len() + 2;
    while let Some(w) = m.q.pop_front() {
        same!(b.pop_front().map(|e| e.key()), Some(w), "{} then draining by pop_front", what);
        guard -= 1;
        if guard == 0 {
            break;
        }
    }
    same!(b.pop_front().map(|e| e.key()), None, "{} then pop_front on empty", what);
    same!(b.pop_back().map(|e| e.key()), None, "{} then pop_back on empty", what);
    sizes(b, m, what)
}

// ---- C01 and the shared history runner ------------------------------------------------------------------

struct Hist {
    next: u32,
    wrapped: bool,
    evicted: bool,
    refilled: bool,
    was_emptied: bool,
}

/// One random operation on buffer and model; the result of the operation is compared.
fn step<E: Elem>(src: &mut Src, b: &mut CB<E>, m: &mut Model, h: &mut Hist, w: &[u32], maxcap: usize) -> Res {
    let op = src.weighted(w);
    let mut fresh = |h: &mut Hist| {
        h.next += 1;
        h.next
    };
    let before = m.q.len();
    match op {
        0 => {
            let k = fresh(h);
            src.note(|| format!("push_back({})", E::norm(k)));
            b.push_back(E::make(k));
            h.evicted |= m.push_back(E::norm(k));
        }
        1 => {
            src.note(|| "pop_front".into());
            let r = b.pop_front().map(|e| e.key());
            same!(r, m.q.pop_front(), "pop_front");
        }
        2 => {
            let k = fresh(h);
            src.note(|| format!("push_front({})", E::norm(k)));
            b.push_front(E::make(k));
            h.evicted |= m.push_front(E::norm(k));
        }
        3 => {
            src.note(|| "pop_back".into());
            let r = b.pop_back().map(|e| e.key());
            same!(r, m.q.pop_back(), "pop_back");
        }
        4 | 5 => {
            let n = src.us(m.cap + 3);
            src.note(|| format!("{} x {}", if op == 4 { "push_back" } else { "push_front" }, n));
            for _ in 0..n {
                let k = fresh(h);
                if op == 4 {
                    b.push_back(E::make(k));
                    h.evicted |= m.push_back(E::norm(k));
                } else {
                    b.push_front(E::make(k));
                    h.evicted |= m.push_front(E::norm(k));
                }
                sizes(b, m, "run of pushes")?;
            }
        }
        6 | 7 => {
            let n = src.us(m.q.len() + 2);
            src.note(|| format!("{} x {}", if op == 6 { "pop_front" } else { "pop_back" }, n));
            for _ in 0..n {
                if op == 6 {
                    same!(b.pop_front().map(|e| e.key()), m.q.pop_front(), "pop_front in a run");
                } else {
                    same!(b.pop_back().map(|e| e.key()), m.q.pop_back(), "pop_back in a run");
                }
                sizes(b, m, "run of pops")?;
            }
        }
        8 => {
            src.note(|| "clear".into());
            b.clear();
            m.q.clear();
        }
        9 | 10 => {
            let n = src.size(4, m.cap + 3);
            src.note(|| format!("extend({} elements, {})", n, if op == 9 { "owned" } else { "by reference" }));
            let mut ks: Vec<u32> = (0..n).map(|_| fresh(h)).collect();
            let v: Vec<E> = ks.iter().map(|&k| E::make(k)).collect();
            let kind = src.draw(HINTS);
            if op == 9 {
                b.extend(Hinted { it: v.into_iter(), kind });
            } else if n > 0 && src.chance(1, 4) {
                src.note(|| "the same reference again and again".into());
                b.extend(std::iter::repeat(&v[0]).take(n));
                ks = vec![ks[0]; n];
            } else {
                b.extend(Hinted { it: v.iter(), kind });
            }
            for k in ks {
                h.evicted |= m.push_back(E::norm(k));
            }
        }
        11 => {
            let s = random_shape(src, 4, 12);
            src.note(|| format!("append(capacity {} rotation {} length {})", s.cap, s.rot, s.len));
            let base = h.next + 1;
            h.next += s.len as u32 + 1;
            let (mut o, mut om) = layout::<E>(s.cap, s.rot, s.len, base, 0);
            b.append(&mut o);
            while let Some(k) = om.q.pop_front() {
                h.evicted |= m.push_back(k);
            }
            sizes(&o, &om, "appended buffer")?;
        }
        12 => {
            let n = src.us(m.q.len() + 2);
            src.note(|| format!("drain().take({})", n));
            let got: Vec<u32> = b.drain().take(n).map(|e| e.key()).collect();
            let want: Vec<u32> = (0..n).filter_map(|_| m.q.pop_front()).collect();
            same!(got, want, "drain().take({})", n);
        }
        13 => {
            let c = src.size(m.cap + 2, maxcap);
            src.note(|| format!("resize({})", c));
            b.resize(c);
            m.resize(c);
        }
        14 => {
            if !m.q.is_empty() {
                let i = src.us(m.q.len());
                let j = src.us(m.q.len());
                src.note(|| format!("swap({}, {})", i, j));
                b.swap(i, j);
                m.q.swap(i, j);
            }
        }
        15 => {
            src.note(|| "reverse".into());
            b.reverse();
            m.q = m.q.iter().rev().copied().collect();
        }
        16 => {
            src.note(|| "linearize".into());
            let s = keys(b.linearize().iter(), m.q.len() + 2);
            same!(s, m.vec(), "linearize");
        }
        17 => {
            src.note(|| "replace by clone".into());
            let c = b.clone();
            *b = c;
        }
        18 => {
            if !m.q.is_empty() {
                let i = src.us(m.q.len());
                let k = fresh(h);
                let how = src.us(4);
                src.note(|| format!("write element {} through view {}", i, how));
                let v = E::make(k);
                match how {
                    0 => b[i] = v,
                    1 => match b.iter_mut().nth(i) {
                        Some(e) => *e = v,
                        None => return Err(format!("iter_mut has no element {}", i)),
                    },
                    2 => {
                        let (x, y) = b.slices_mut();
                        let n = x.len();
                        if i < n {
                            x[i] = v
                        } else if i - n < y.len() {
                            y[i - n] = v
                        } else {
                            return Err(format!("slices_mut has no element {}", i));
                        }
                    }
                    _ => {
                        let n = m.q.len();
                        let e = b.iter_mut().rev().nth(n - 1 - i);
                        match e {
                            Some(e) => *e = v,
                            None => return Err(format!("iter_mut().rev() has no element {}", i)),
                        }
                    }
                }
                m.q[i] = E::norm(k);
            }
        }
        19 => {
            let how = src.us(5);
            src.note(|| format!("rebuild from own elements, way {}", how));
            let old = std::mem::replace(b, CircularBuffer::new(0));
            *b = match how {
                0 => Hinted { it: old.into_iter().collect::<Vec<E>>().into_iter(), kind: src.draw(HINTS) }.collect(),
                1 => old.iter().collect(),
                2 => Hinted { it: old.into_iter().collect::<Vec<E>>().iter(), kind: src.draw(HINTS) }.collect(),
                3 => old.into_iter().collect(),
                _ => CircularBuffer::from(old.into_iter().collect::<Vec<E>>()),
            };
            m.cap = m.q.len();
        }
        20 => {
            let n = src.us(m.q.len() + 1);
            src.note(|| format!("abandon into_iter after {} and start afresh", n));
            let cap = m.cap;
            let old = std::mem::replace(b, CircularBuffer::with_capacity(cap));
            let mut it = old.into_iter();
            for _ in 0..n {
                hint(&it, m.q.len(), "into_iter")?;
                same!(it.next().map(|e| e.key()), m.q.pop_front(), "into_iter");
            }
            hint(&it, m.q.len(), "into_iter")?;
            match src.us(6) {
                0 => drop(it),
                w => finish(src, it, &mut m.q, w - 1, "into_iter")?,
            }
            m.q.clear();
        }
        _ => {
            // first_mut / last_mut
            if !m.q.is_empty() {
                let k = fresh(h);
                let f = src.bool();
                src.note(|| format!("write {}", if f { "first_mut" } else { "last_mut" }));
                let r = if f { b.first_mut() } else { b.last_mut() };
                match r {
                    Some(e) => *e = E::make(k),
                    None => return Err("first_mut/last_mut is None on a non-empty buffer".into()),
                }
                let i = if f { 0 } else { m.q.len() - 1 };
                m.q[i] = E::norm(k);
            } else {
                require!(b.first_mut().is_none() && b.last_mut().is_none(), "first_mut/last_mut of an empty buffer");
            }
        }
    }
    if m.q.is_empty() && before > 0 {
        h.was_emptied = true;
    }
    if h.was_emptied && !m.q.is_empty() {
        h.refilled = true;
    }
    h.wrapped |= !b.slices().1.is_empty();
    Ok(())
}

const W_CORE: [u32; 22] = [20, 14, 14, 12, 6, 5, 4, 4, 1, 2, 2, 1, 2, 1, 1, 1, 1, 1, 1, 0, 0, 1];
const W_ALL: [u32; 22] = [10, 8, 8, 8, 4, 4, 3, 3, 2, 3, 3, 3, 3, 3, 3, 2, 3, 2, 3, 1, 1, 2];

fn history_of<E: Elem>(src: &mut Src, w: &[u32], each: fn(&CB<E>, &Model) -> Res) -> Res {
    let big = src.chance(1, 24);
    let cap = if src.scale == 2 { src.size(4, 8) } else if big { src.range(20, 700) } else { src.size(5, 16) };
    let maxcap = cap.max(12);
    let steps = if src.scale == 2 { src.range(1, 14) } else if big { src.range(5, 40) } else { src.size(24, 120) };
    src.note(|| format!("CircularBuffer<{}>::new({})", E::NAME, cap));
    let mut w = w.to_vec();
    // swarm testing: switch off a random part of the operations
    let mask = src.draw(3);
    if mask > 0 {
        let bits = src.draw(1 << 22);
        for i in 0..22 {
            if bits >> i & 1 == 1 && w.iter().filter(|&&x| x > 0).count() > 2 {
                w[i] = 0;
            }
        }
    }
    let mut b: CB<E> = if src.bool() { CircularBuffer::new(cap) } else { CircularBuffer::with_capacity(cap) };
    let mut m = Model { q: VecDeque::new(), cap };
    let mut h = Hist { next: 0, wrapped: false, evicted: false, refilled: false, was_emptied: false };
    sizes(&b, &m, "new buffer")?;
    for i in 0..steps {
        step(src, &mut b, &mut m, &mut h, &w, maxcap)?;
        if m.q.len() <= 40 || i % 4 == 0 {
            content(&b, &m, "after the operation")?;
        } else {
            sizes(&b, &m, "after the operation")?;
        }
        each(&b, &m)?;
    }
    src.label_if(h.wrapped, "wrapped");
    src.label_if(h.evicted, "evicted");
    src.label_if(h.refilled, "refilled after emptying");
    src.label_if(cap == 0, "capacity 0 at start");
    src.label_if(big, "large capacity");
    src.nontrivial_if(h.wrapped && (h.evicted || h.refilled));
    // take everything out, from alternating ends
    let mut flip = src.bool();
    let mut left = m.q.len() + 1;
    while left > 0 {
        if flip {
            same!(b.pop_front().map(|e| e.key()), m.q.pop_front(), "final pop_front");
        } else {
            same!(b.pop_back().map(|e| e.key()), m.q.pop_back(), "final pop_back");
        }
        flip = !flip;
        left -= 1;
        sizes(&b, &m, "final pops")?;
    }
    Ok(())
}

fn nop<E: Elem>(_: &CB<E>, _: &Model) -> Res {
    Ok(())
}

fn c01_history(src: &mut Src) -> Res {
    match src.draw(3) {
        0 => history_of::<i64>(src, &W_CORE, nop),
        1 => history_of::<i64>(src, &W_ALL, nop),
        _ => history_of::<String>(src, &W_ALL, nop),
    }
}

/// Every sequence of 7 end operations on capacities 0..=3 after every rotation.
fn c01_small(src: &mut Src) -> Res {
    let shape = pick_shape(src, 3);
    let (mut b, mut m) = layout::<i64>(shape.cap, shape.rot, shape.len, 1, 0);
    src.note(|| format!("capacity {} rotation {} length {}", shape.cap, shape.rot, shape.len));
    let mut ev = false;
    let mut k = 100;
    for _ in 0..6 {
        match src.draw(5) {
            0 => {
                b.push_back(k as i64 - 5);
                ev |= m.push_back(k);
                src.note(|| "push_back".into());
            }
            1 => {
                b.push_front(k as i64 - 5);
                ev |= m.push_front(k);
                src.note(|| "push_front".into());
            }
            2 => {
                src.note(|| "pop_back".into());
                same!(b.pop_back().map(|e| e.key()), m.q.pop_back(), "pop_back")
            }
            3 => {
                src.note(|| "pop_front".into());
                same!(b.pop_front().map(|e| e.key()), m.q.pop_front(), "pop_front")
            }
            _ => {
                src.note(|| "linearize".into());
                b.linearize();
            }
        }
        k += 1;
        content(&b, &m, "after the operation")?;
    }
    src.nontrivial_if(ev && shape.cap > 0);
    Ok(())
}

/// Long streams through buffers of all sizes: millions of positions pass the seam.
fn c01_stream(src: &mut Src) -> Res {
    let cap = match src.draw(4) {
        0 => src.us(20),
        1 => {
            // around powers of two
            let top = if src.chance(1, 40) { 17 } else { 13 };
            let p = 1usize << src.us(top);
            (p + src.us(3)).saturating_sub(1)
        }
        _ => src.us(3000),
    };
    let mut b: CB<i64> = CircularBuffer::new(cap);
    let mut m = Model { q: VecDeque::new(), cap };
    let steps = cap * 3 + 50;
    let (pb, pf, ob) = (src.range(1, 8), src.us(8), src.us(8));
    let of = src.us(8);
    src.note(|| format!("capacity {} streaming {} steps, weights push_back {} push_front {} pop_back {} pop_front {}", cap, steps, pb, pf, ob, of));
    let mut r = Rng::new(src.draw(0));
    let total = (pb + pf + ob + of) as u64;
    for i in 0..steps {
        let x = (r.next() % total) as usize;
        if x < pb {
            b.push_back(i as i64 - 5);
            m.push_back(i as u32);
        } else if x < pb + pf {
            b.push_front(i as i64 - 5);
            m.push_front(i as u32);
        } else if x < pb + pf + ob {
            same!(b.pop_back().map(|e| e.key()), m.q.pop_back(), "pop_back");
        } else {
            same!(b.pop_front().map(|e| e.key()), m.q.pop_front(), "pop_front");
        }
        sizes(&b, &m, "streaming")?;
        if i % 1024 == 0 {
            content(&b, &m, "streaming")?;
        }
    }
    src.nontrivial_if(cap > 0);
    content(&b, &m, "end of the stream")
}

// ---- C02 ------------------------------------------------------------------------------------------------

fn write_views<E: Elem>(src: &mut Src, b: &mut CB<E>, m: &mut Model) -> Res {
    let n = m.q.len();
    let mut k = 7000u32;
    macro_rules! put {
        ($what:expr, $i:expr, $slot:expr) => {{
            k += 1;
            match $slot {
                Some(e) => *e = E::make(k),
                None => return Err(format!("{} {}: no such element", $what, $i)),
            }
            m.q[$i] = E::norm(k);
            content(b, m, &format!("after a write through {} {}", $what, $i))?;
        }};
    }
    for i in 0..n {
        put!("index", i, Some(&mut b[i]));
        put!("iter_mut", i, b.iter_mut().nth(i));
        put!("iter_mut().rev()", i, b.iter_mut().rev().nth(n - 1 - i));
        put!("&mut iteration", i, (&mut *b).into_iter().nth(i));
        let (x, y) = b.slices_mut();
        let slot = if i < x.len() { x.get_mut(i) } else { let l = x.len(); y.get_mut(i - l) };
        put!("slices_mut", i, slot);
    }
    if n > 0 {
        put!("first_mut", 0, b.first_mut());
        put!("last_mut", n - 1, b.last_mut());
    } else {
        require!(b.first_mut().is_none() && b.last_mut().is_none() && b.first().is_none() && b.last().is_none(), "first/last of an empty buffer");
    }
    let got: Vec<u32> = b.iter_mut().take(n + 2).map(|e| e.key()).collect();
    same!(got, m.vec(), "iter_mut");
    {
        let (s, t) = b.slices_mut();
        let mut got = keys(s.iter(), n + 2);
        got.extend(keys(t.iter(), n + 2));
        same!(got, m.vec(), "slices_mut");
    }
    for i in oob_candidates(n, m.cap).iter().copied().filter(|&i| i >= n) {
        require!(idx_panics(b, i), "index {} of {} elements did not panic", i, n);
        require!(guarded(|| b[i] = E::make(1)).is_err(), "index_mut {} of {} elements did not panic", i, n);
        content(b, m, "after an out-of-range index")?;
    }
    // consuming views, chosen per case
    let how = src.us(4);
    src.note(|| format!("consume by view {}", how));
    match how {
        0 => {
            let mut it = std::mem::replace(b, CircularBuffer::new(0)).into_iter();
            let got: Vec<u32> = it.by_ref().take(n + 2).map(|e| e.key()).collect();
            same!(got, m.vec(), "into_iter");
            require!(it.next().is_none() && it.next().is_none(), "into_iter yields more after its end");
        }
        1 => {
            let got: Vec<u32> = {
                let mut d = b.drain();
                let g = d.by_ref().take(n + 2).map(|e| e.key()).collect();
                require!(d.next().is_none() && d.next().is_none(), "drain yields more after its end");
                g
            };
            same!(got, m.vec(), "drain");
            m.q.clear();
            content(b, m, "after a full drain")?;
        }
        2 => {
            let s = keys(b.linearize().iter(), n + 2);
            same!(s, m.vec(), "linearize");
            read_views(b, m, "after linearize")?;
        }
        _ => {
            for i in 0..n {
                let s = b.linearize();
                require!(s.len() == n, "linearize has length {} instead of {}", s.len(), n);
                s[i] = E::make(8000 + i as u32);
                m.q[i] = E::norm(8000 + i as u32);
            }
            content(b, m, "after writes through linearize")?;
        }
    }
    Ok(())
}

fn c02_of<E: Elem>(src: &mut Src, s: Shape) -> Res {
    let route = src.draw(2);
    src.note(|| format!("CircularBuffer<{}> capacity {} rotation {} length {} route {}", E::NAME, s.cap, s.rot, s.len, route));
    let (mut b, mut m) = layout::<E>(s.cap, s.rot, s.len, 1, route);
    read_views(&b, &m, "layout")?;
    src.label_if(!b.slices().1.is_empty(), "wrapped");
    src.label_if(s.len == s.cap, "full");
    src.label_if(s.len == 0, "empty");
    src.nontrivial_if(s.len > 0);
    write_views(src, &mut b, &mut m)
}

fn c02_layouts(src: &mut Src) -> Res {
    let s = pick_shape(src, 7);
    match src.draw(3) {
        0 => c02_of::<i64>(src, s),
        1 => c02_of::<String>(src, s),
        _ => c02_of::<[u64; 9]>(src, s),
    }
}

fn c02_random(src: &mut Src) -> Res {
    let s = random_shape(src, 20, 120);
    match src.draw(6) {
        0 => c02_of::<i64>(src, s),
        1 => c02_of::<u8>(src, s),
        2 => c02_of::<Box<u32>>(src, s),
        3 => c02_of::<char>(src, s),
        4 => c02_of::<()>(src, s),
        _ => c02_of::<Wide>(src, s),
    }
}

fn c02_history(src: &mut Src) -> Res {
    fn each<E: Elem>(b: &CB<E>, m: &Model) -> Res {
        if m.q.len() <= 24 {
            read_views(b, m, "history")?;
        }
        Ok(())
    }
    match src.draw(2) {
        0 => history_of::<i64>(src, &W_ALL, each),
        _ => history_of::<Box<u32>>(src, &W_ALL, each),
    }
}

// ---- C03 ------------------------------------------------------------------------------------------------

fn c03_of<E: Elem>(src: &mut Src, s: Shape, small: bool) -> Res {
    let route = if small { 0 } else { src.draw(2) };
    let (mut b, mut m) = layout::<E>(s.cap, s.rot, s.len, 1, route);
    src.note(|| format!("CircularBuffer<{}> capacity {} rotation {} length {}", E::NAME, s.cap, s.rot, s.len));
    src.label_if(!b.slices().1.is_empty(), "wrapped");
    let op = src.draw(9);
    let lim = if small { 7 } else { s.cap * 2 + 10 };
    match op {
        0 => {
            let c = src.us(lim + 1);
            src.note(|| format!("resize({})", c));
            src.nontrivial_if(s.len > 0 && c != s.cap);
            src.label_if(c < s.len, "resize cuts");
            src.label_if(c > s.cap, "resize grows");
            b.resize(c);
            m.resize(c);
            if src.bool() {
                // and back or further
                let c2 = if small { s.cap } else { src.us(lim + 1) };
                src.note(|| format!("resize({})", c2));
                content(&b, &m, "after resize")?;
                b.resize(c2);
                m.resize(c2);
            }
        }
        1 | 2 | 3 => {
            let n = src.us(lim + 1);
            src.note(|| format!("extend way {} with {}", op, n));
            src.nontrivial_if(n > 0);
            src.label_if(s.len + n > s.cap, "extend evicts");
            let v: Vec<E> = (0..n).map(|i| E::make(300 + i as u32)).collect();
            match op {
                1 => b.extend(v),
                2 => b.extend(Hinted { it: v.iter(), kind: src.draw(HINTS) }),
                _ => b.extend(Hinted { it: v.into_iter(), kind: src.draw(HINTS) }),
            }
            for i in 0..n {
                m.push_back(E::norm(300 + i as u32));
            }
        }
        4 => {
            let o = if small { pick_shape(src, 3) } else { random_shape(src, 10, 60) };
            let (mut ob, mut om) = layout::<E>(o.cap, o.rot, o.len, 600, src.draw(2));
            src.note(|| format!("append(capacity {} rotation {} length {})", o.cap, o.rot, o.len));
            src.nontrivial_if(o.len > 0);
            src.label_if(s.len + o.len > s.cap, "append evicts");
            b.append(&mut ob);
            while let Some(k) = om.q.pop_front() {
                m.push_back(k);
            }
            content(&ob, &om, "appended buffer")?;
            aftermath(&mut ob, &mut om, "appended buffer")?;
        }
        5 => {
            let n = src.us(s.len + 2);
            let close = src.us(8);
            src.note(|| format!("drain {} elements, end way {}", n, close));
            src.nontrivial_if(n > 0 && n < s.len);
            src.label_if(n < s.len, "partial drain");
            let mut d = b.drain();
            for _ in 0..n {
                hint(&d, m.q.len(), "drain")?;
                same!(d.next().map(|e| e.key()), m.q.pop_front(), "drain");
            }
            hint(&d, m.q.len(), "drain")?;
            match close {
                0 => drop(d),
                2..=6 => finish(src, d, &mut m.q, close - 2, "drain")?,
                _ => {
                    // skip the rest through the adapter used by callers
                    let rest = d.skip(1).next().map(|e| e.key());
                    m.q.pop_front();
                    same!(rest, m.q.pop_front(), "drain().skip(1)");
                }
            }
        }
        6 => {
            let n = src.us(lim + 1);
            let how = src.us(5);
            src.note(|| format!("build from {} elements, way {}", n, how));
            src.nontrivial_if(n > 0);
            let v: Vec<E> = (0..n).map(|i| E::make(400 + i as u32)).collect();
            b = match how {
                0 => CircularBuffer::from(v),
                1 => Hinted { it: v.into_iter(), kind: src.draw(HINTS) }.collect(),
                2 => v.iter().collect(),
                3 => Hinted { it: v.iter(), kind: src.draw(HINTS) }.collect(),
                _ => {
                    let mut w = Vec::with_capacity(n * 3 + 5);
                    w.extend(v);
                    CircularBuffer::from(w)
                }
            };
            m = Model { q: (0..n).map(|i| E::norm(400 + i as u32)).collect(), cap: n };
        }
        7 => {
            src.note(|| "clear".into());
            src.nontrivial_if(s.len > 0);
            b.clear();
            m.q.clear();
        }
        _ => {
            let c = src.us(lim + 1);
            src.note(|| format!("resize({}) then refill", c));
            src.nontrivial_if(c > 0);
            b.resize(c);
            m.resize(c);
            for i in 0..c + 1 {
                b.push_front(E::make(800 + i as u32));
                m.push_front(E::norm(800 + i as u32));
            }
        }
    }
    read_views(&b, &m, "after the bulk operation")?;
    aftermath(&mut b, &mut m, "after the bulk operation")
}

fn c03_small(src: &mut Src) -> Res {
    let s = pick_shape(src, 4);
    c03_of::<i64>(src, s, true)
}
fn c03_random(src: &mut Src) -> Res {
    let s = random_shape(src, 12, 200);
    match src.draw(5) {
        0 => c03_of::<i64>(src, s, false),
        1 => c03_of::<String>(src, s, false),
        2 => c03_of::<char>(src, s, false),
        3 => c03_of::<()>(src, s, false),
        _ => c03_of::<Box<u32>>(src, s, false),
    }
}

// ---- C04 ------------------------------------------------------------------------------------------------

fn c04_of<E: Elem>(src: &mut Src, s: Shape, rounds: usize) -> Res {
    let route = src.draw(2);
    let (mut b, mut m) = layout::<E>(s.cap, s.rot, s.len, 1, route);
    src.note(|| format!("CircularBuffer<{}> capacity {} rotation {} length {}", E::NAME, s.cap, s.rot, s.len));
    src.label_if(!b.slices().1.is_empty(), "wrapped");
    for _ in 0..rounds {
        let n = m.q.len();
        match src.draw(4) {
            0 => {
                src.note(|| "linearize".into());
                src.nontrivial_if(n > 1);
                let want = m.vec();
                let got = keys(b.linearize().iter(), n + 2);
                same!(got, want, "linearize");
                let (x, y) = b.slices();
                require!(y.is_empty() && x.len() == n, "content not contiguous after linearize: {} + {} elements", x.len(), y.len());
            }
            1 => {
                src.note(|| "reverse".into());
                src.nontrivial_if(n > 1);
                b.reverse();
                m.q = m.q.iter().rev().copied().collect();
            }
            2 => {
                let i = src.us(n + 3);
                let j = src.us(n + 3);
                src.note(|| format!("swap({}, {})", i, j));
                if i < n && j < n {
                    src.nontrivial_if(i != j);
                    b.swap(i, j);
                    m.q.swap(i, j);
                } else {
                    src.label("swap out of range");
                    require!(guarded(|| b.swap(i, j)).is_err(), "swap({}, {}) with {} elements did not panic", i, j, n);
                }
            }
            _ => {
                let c = [n, m.cap, m.cap + 1, usize::MAX, usize::MAX - 1];
                let j = *src.pick(&c);
                if j >= n {
                    let i = if n > 0 { src.us(n) } else { 0 };
                    let flip = src.bool();
                    src.note(|| format!("swap({}, {}) flipped {}", i, j, flip));
                    src.label("swap out of range");
                    let r = if flip { guarded(|| b.swap(j, i)) } else { guarded(|| b.swap(i, j)) };
                    require!(r.is_err(), "swap of {} and {} with {} elements did not panic", i, j, n);
                }
            }
        }
        read_views(&b, &m, "after rearranging")?;
    }
    aftermath(&mut b, &mut m, "after rearranging")
}

fn c04_small(src: &mut Src) -> Res {
    let s = pick_shape(src, 5);
    c04_of::<i64>(src, s, 1)
}
fn c04_random(src: &mut Src) -> Res {
    let s = random_shape(src, 12, 300);
    let rounds = src.range(1, 6);
    match src.draw(4) {
        0 => c04_of::<i64>(src, s, rounds),
        1 => c04_of::<String>(src, s, rounds),
        2 => c04_of::<[u64; 9]>(src, s, rounds),
        _ => c04_of::<u8>(src, s, rounds),
    }
}

// ---- C05 ------------------------------------------------------------------------------------------------

fn ownership<E: Elem>(src: &mut Src, count: fn() -> i64) -> Res {
    let cap = if src.scale == 2 { src.size(3, 6) } else { src.size(5, 40) };
    let steps = if src.scale == 2 { src.range(1, 12) } else { src.size(16, 70) };
    src.note(|| format!("CircularBuffer<{}>::new({})", E::NAME, cap));
    let heap0 = crate::alloc::live();
    {
        let mut b: CB<E> = CircularBuffer::new(cap);
        let mut m = Model { q: VecDeque::new(), cap };
        let mut h = Hist { next: 0, wrapped: false, evicted: false, refilled: false, was_emptied: false };
        let mut held: Vec<E> = Vec::new();
        let mut special = false;
        for _ in 0..steps {
            match src.draw(14) {
                0 => {
                    // keep what comes out
                    src.note(|| "keep pop_front".into());
                    held.extend(b.pop_front());
                    m.q.pop_front();
                }
                1 => {
                    src.note(|| "keep pop_back".into());
                    held.extend(b.pop_back());
                    m.q.pop_back();
                }
                2 => {
                    let n = src.us(m.q.len() + 2);
                    src.note(|| format!("keep drain().take({})", n));
                    held.extend(b.drain().take(n));
                    for _ in 0..n {
                        m.q.pop_front();
                    }
                    special = true;
                }
                3 => {
                    if let Some(e) = held.pop() {
                        src.note(|| "push back a kept element".into());
                        m.push_back(e.key());
                        b.push_back(e);
                    }
                }
                4 => {
                    src.note(|| "drop a clone".into());
                    let c = b.clone();
                    same!(count(), 2 * m.q.len() as i64 + held.len() as i64, "live elements while a clone exists");
                    drop(c);
                    special = true;
                }
                5 => {
                    let n = src.us(3);
                    src.note(|| format!("abandon a clone's into_iter after {}", n));
                    let mut it = b.clone().into_iter();
                    for _ in 0..n {
                        it.next();
                    }
                    drop(it);
                    special = true;
                }
                6 => {
                    src.note(|| "overwrite the buffer variable".into());
                    let c = src.size(5, 12);
                    b = CircularBuffer::new(c);
                    m = Model { q: VecDeque::new(), cap: c };
                }
                _ => step(src, &mut b, &mut m, &mut h, &W_ALL, cap.max(12))?,
            }
            same!(count(), m.q.len() as i64 + held.len() as i64, "live elements after the operation");
            if let Some(e) = ledger_error() {
                return Err(e);
            }
        }
        content(&b, &m, "end")?;
        src.label_if(h.wrapped, "wrapped");
        src.label_if(h.evicted, "evicted");
        src.label_if(special, "partial drain or clone");
        src.nontrivial_if(h.wrapped || h.evicted || special);
        match src.us(4) {
            0 => drop(b),
            1 => {
                let n = src.us(m.q.len() + 1);
                let mut it = b.into_iter();
                for _ in 0..n {
                    it.next();
                }
                drop(it);
            }
            2 => {
                drop(Box::new(b));
            }
            _ => {
                let v: Vec<E> = b.into_iter().collect();
                same!(v.len(), m.q.len(), "into_iter length");
                drop(v);
            }
        }
        drop(held);
    }
    same!(count(), 0, "live elements after everything is gone");
    if let Some(e) = ledger_error() {
        return Err(e);
    }
    let _ = heap0;
    Ok(())
}

fn c05_history(src: &mut Src) -> Res {
    ledger_reset();
    match src.draw(6) {
        0 | 1 | 2 => ownership::<Tr>(src, ledger_live),
        3 | 4 => ownership::<TrBox>(src, ledger_live),
        _ => ownership::<TrZ>(src, z_live),
    }
}

/// One operation from every small layout, checking the ledger, then dropping.
fn c05_small(src: &mut Src) -> Res {
    ledger_reset();
    let s = pick_shape(src, 4);
    let (mut b, mut m) = layout::<Tr>(s.cap, s.rot, s.len, 1, src.draw(2));
    src.note(|| format!("capacity {} rotation {} length {}", s.cap, s.rot, s.len));
    src.nontrivial_if(s.len > 0);
    let mut held: Vec<Tr> = Vec::new();
    match src.draw(12) {
        0 => {
            b.push_back(Tr::new(50));
            m.push_back(50);
        }
        1 => {
            b.push_front(Tr::new(50));
            m.push_front(50);
        }
        2 => {
            held.extend(b.pop_back());
            m.q.pop_back();
        }
        3 => {
            held.extend(b.pop_front());
            m.q.pop_front();
        }
        4 => {
            let c = src.us(7);
            src.note(|| format!("resize({})", c));
            b.resize(c);
            m.resize(c);
        }
        5 => {
            let n = src.us(s.len + 2);
            src.note(|| format!("drain {}", n));
            held.extend(b.drain().take(n));
            for _ in 0..n {
                m.q.pop_front();
            }
        }
        6 => {
            let n = src.us(s.len + 2);
            src.note(|| format!("into_iter {}", n));
            let mut it = std::mem::replace(&mut b, CircularBuffer::new(2)).into_iter();
            for _ in 0..n {
                held.extend(it.next());
            }
            m = Model { q: VecDeque::new(), cap: 2 };
        }
        7 => {
            b.clear();
            m.q.clear();
        }
        8 => {
            let o = pick_shape(src, 3);
            src.note(|| format!("append capacity {} rotation {} length {}", o.cap, o.rot, o.len));
            let (mut ob, mut om) = layout::<Tr>(o.cap, o.rot, o.len, 60, 0);
            b.append(&mut ob);
            while let Some(k) = om.q.pop_front() {
                m.push_back(k);
            }
        }
        9 => {
            b.linearize();
            b.reverse();
            m.q = m.q.iter().rev().copied().collect();
            if s.len > 1 {
                b.swap(0, s.len - 1);
                m.q.swap(0, s.len - 1);
            }
        }
        10 => {
            b = b.clone();
        }
        _ => {
            if s.len > 0 {
                let i = src.us(s.len);
                b[i] = Tr::new(51);
                m.q[i] = 51;
            }
        }
    }
    same!(ledger_live(), m.q.len() as i64 + held.len() as i64, "live elements after the operation");
    content(&b, &m, "after the operation")?;
    drop(b);
    same!(ledger_live(), held.len() as i64, "live elements after dropping the buffer");
    drop(held);
    same!(ledger_live(), 0, "live elements at the end");
    match ledger_error() {
        Some(e) => Err(e),
        None => Ok(()),
    }
}

// ---- C06 ------------------------------------------------------------------------------------------------

fn dispatch(src: &mut Src, w: &[u32]) -> Res {
    match src.draw(16) {
        0 => history_of::<char>(src, w, nop),
        1 => history_of::<&'static u32>(src, w, nop),
        2 => history_of::<Box<u32>>(src, w, nop),
        3 => history_of::<Rc<u32>>(src, w, nop),
        4 => history_of::<bool>(src, w, nop),
        5 => history_of::<()>(src, w, nop),
        6 => history_of::<Wide>(src, w, nop),
        7 => history_of::<[u64; 9]>(src, w, nop),
        8 => history_of::<NonZeroU32>(src, w, nop),
        9 => history_of::<Option<Box<u32>>>(src, w, nop),
        10 => history_of::<Fruit>(src, w, nop),
        11 => history_of::<Vec<u8>>(src, w, nop),
        12 => history_of::<String>(src, w, nop),
        13 => history_of::<Tr>(src, w, nop),
        14 => history_of::<TrBox>(src, w, nop),
        _ => history_of::<u8>(src, w, nop),
    }
}

fn c06_types(src: &mut Src) -> Res {
    ledger_reset();
    dispatch(src, &W_ALL)?;
    match ledger_error() {
        Some(e) => Err(e),
        None => Ok(()),
    }
}

fn c06_views_of<E: Elem>(src: &mut Src) -> Res {
    let s = pick_shape(src, if src.scale == 2 { 3 } else { 5 });
    let (mut b, mut m) = layout::<E>(s.cap, s.rot, s.len, 1, src.draw(2));
    src.note(|| format!("CircularBuffer<{}> capacity {} rotation {} length {}", E::NAME, s.cap, s.rot, s.len));
    src.nontrivial_if(s.len > 0);
    read_views(&b, &m, "layout")?;
    let c = b.clone();
    content(&c, &m, "clone")?;
    require!(c == b, "clone differs");
    write_views(src, &mut b, &mut m)?;
    Ok(())
}

fn c06_views(src: &mut Src) -> Res {
    ledger_reset();
    match src.draw(10) {
        0 => c06_views_of::<char>(src),
        1 => c06_views_of::<&'static u32>(src),
        2 => c06_views_of::<Box<u32>>(src),
        3 => c06_views_of::<()>(src),
        4 => c06_views_of::<Wide>(src),
        5 => c06_views_of::<String>(src),
        6 => c06_views_of::<Tr>(src),
        7 => c06_views_of::<TrBox>(src),
        8 => c06_views_of::<Fruit>(src),
        _ => c06_views_of::<NonZeroU32>(src),
    }?;
    match ledger_error() {
        Some(e) => Err(e),
        None => Ok(()),
    }
}

/// An iterator whose size hint is simply wrong: safe code may do that, and nothing may become unsound.
struct Liar<I> {
    it: I,
    lo: usize,
    hi: Option<usize>,
}
impl<I: Iterator> Iterator for Liar<I> {
    type Item = I::Item;
    fn next(&mut self) -> Option<I::Item> {
        self.it.next()
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        (self.lo, self.hi)
    }
}

/// Whether a type crosses threads, decided by which of two items of the same name the compiler picks.
macro_rules! crosses {
    ($bound:ident, $t:ty) => {{
        trait Otherwise {
            const YES: bool = false;
        }
        impl<T: ?Sized> Otherwise for T {}
        struct Ask<T: ?Sized>(std::marker::PhantomData<T>);
        #[allow(dead_code)]
        impl<T: ?Sized + $bound> Ask<T> {
            const YES: bool = true;
        }
        <Ask<$t>>::YES
    }};
}

/// A buffer or iterator of elements that must not cross threads does not cross threads either.
fn c06_threads(src: &mut Src) -> Res {
    use advanced_collections::circular_buffer::{Drain, IntoIter, Iter, IterMut};
    use std::cell::Cell;
    type Local = std::rc::Rc<i32>;
    type Shared = Cell<i32>;
    let table: &[(&str, bool)] = &[
        ("CircularBuffer<Rc>: Send", crosses!(Send, CircularBuffer<Local>)),
        ("CircularBuffer<Rc>: Sync", crosses!(Sync, CircularBuffer<Local>)),
        ("CircularBuffer<Cell>: Sync", crosses!(Sync, CircularBuffer<Shared>)),
        ("CircularBuffer<*mut i32>: Send", crosses!(Send, CircularBuffer<*mut i32>)),
        ("CircularBuffer<&Cell>: Send", crosses!(Send, CircularBuffer<&'static Shared>)),
        ("IntoIter<Rc>: Send", crosses!(Send, IntoIter<Local>)),
        ("IntoIter<Rc>: Sync", crosses!(Sync, IntoIter<Local>)),
        ("IntoIter<Cell>: Sync", crosses!(Sync, IntoIter<Shared>)),
        ("Drain<Rc>: Send", crosses!(Send, Drain<'static, Local>)),
        ("Drain<Rc>: Sync", crosses!(Sync, Drain<'static, Local>)),
        ("Drain<Cell>: Sync", crosses!(Sync, Drain<'static, Shared>)),
        ("Iter<Rc>: Send", crosses!(Send, Iter<'static, Local>)),
        ("Iter<Cell>: Send", crosses!(Send, Iter<'static, Shared>)),
        ("Iter<Cell>: Sync", crosses!(Sync, Iter<'static, Shared>)),
        ("IterMut<Rc>: Send", crosses!(Send, IterMut<'static, Local>)),
        ("IterMut<Cell>: Sync", crosses!(Sync, IterMut<'static, Shared>)),
    ];
    let (name, yes) = table[src.us(table.len())];
    src.note(|| name.into());
    src.nontrivial = true;
    require!(!yes, "{} holds, so safe code can race on an element", name);
    Ok(())
}

fn c06_liars(src: &mut Src) -> Res {
    ledger_reset();
    {
        let s = random_shape(src, 4, if src.scale == 2 { 5 } else { 20 });
        let (mut b, _) = layout::<Tr>(s.cap, s.rot, s.len, 1, src.draw(2));
        for round in 0..src.range(1, 3) {
            let n = src.us(s.cap + 5);
            let lo = src.us(n + 6);
            let hi = if src.bool() { None } else { Some(lo + src.us(n + 2)) };
            let how = src.draw(4);
            src.note(|| format!("capacity {} length {}: way {} with {} elements and size hint ({}, {:?})", b.capacity(), b.len(), how, n, lo, hi));
            src.nontrivial_if(lo > n || hi.map_or(false, |h| h < n));
            let v: Vec<Tr> = (0..n).map(|i| Tr::new(200 + 50 * round as u32 + i as u32)).collect();
            match how {
                0 => b.extend(Liar { it: v.into_iter(), lo, hi }),
                1 => b.extend(Liar { it: v.iter(), lo, hi }),
                2 => b = Liar { it: v.into_iter(), lo, hi }.collect(),
                _ => b = Liar { it: v.iter(), lo, hi }.collect(),
            }
            let mut m = visible(&b)?;
            aftermath(&mut b, &mut m, "after a wrong size hint")?;
        }
    }
    match ledger_error() {
        Some(e) => Err(e),
        None => Ok(()),
    }
}

// ---- C07 ------------------------------------------------------------------------------------------------

struct Count(u64, u64);
impl Iterator for Count {
    type Item = u64;
    fn next(&mut self) -> Option<u64> {
        if self.1 == 0 {
            None
        } else {
            self.1 -= 1;
            self.0 += 1;
            Some(self.0)
        }
    }
}

fn c07_history(src: &mut Src) -> Res {
    c07_of(src, false)
}
fn c07_long(src: &mut Src) -> Res {
    c07_of(src, true)
}
fn c07_of(src: &mut Src, long: bool) -> Res {
    let s = random_shape(src, 8, if long { 20 } else { 600 });
    let (mut b, _) = layout::<u64e>(s.cap, s.rot, s.len, 1, src.draw(2));
    let o = random_shape(src, 6, 60);
    src.note(|| format!("capacity {} rotation {} length {}; second buffer capacity {} length {}", s.cap, s.rot, s.len, o.cap, o.len));
    let steps = if long { 0 } else { src.size(16, 50) };
    let focus = if long { src.draw(20) } else { 20 };
    let mut sum = 0u64;
    let mut wrapped = false;
    let data: Vec<u64e> = (0..s.cap + 5).map(|i| u64e(i as u64)).collect();
    if long {
        src.note(|| format!("operation {} more often than the others", focus));
    }
    super::repeat(src, long, steps, |src| {
        let op = if focus < 20 && src.bool() { focus } else { src.draw(20) };
        let (x, y) = (src.us(b.len() + 1), src.us(b.len() + 1));
        let n = b.len();
        let (mut ob, _) = layout::<u64e>(o.cap, o.rot, o.len, 1, 0);
        let before = allocations();
        let name = match op {
            0 => {
                b.push_back(u64e(1));
                "push_back"
            }
            1 => {
                b.push_front(u64e(2));
                "push_front"
            }
            2 => {
                sum += b.pop_back().map_or(0, |e| e.0);
                "pop_back"
            }
            3 => {
                sum += b.pop_front().map_or(0, |e| e.0);
                "pop_front"
            }
            4 => {
                sum += b.iter().map(|e| e.0).sum::<u64>();
                "iter"
            }
            5 => {
                for e in b.iter_mut() {
                    e.0 += 1;
                }
                "iter_mut"
            }
            6 => {
                sum += b.linearize().len() as u64;
                "linearize"
            }
            7 => {
                b.reverse();
                "reverse"
            }
            8 => {
                if n > 0 {
                    b.swap(x.min(n - 1), y.min(n - 1));
                }
                "swap"
            }
            9 => {
                if n > 0 {
                    sum += b[x.min(n - 1)].0;
                    b[y.min(n - 1)] = u64e(4);
                }
                "index"
            }
            10 => {
                sum += b.drain().take(x).map(|e| e.0).sum::<u64>();
                "drain"
            }
            11 => {
                b.extend(Count(5, y as u64 + 2).map(u64e));
                "extend (owned)"
            }
            12 => {
                b.extend(data.iter());
                "extend (by reference)"
            }
            13 => {
                b.append(&mut ob);
                "append"
            }
            14 => {
                let (p, q) = b.slices();
                sum += (p.len() + q.len()) as u64;
                let (p, q) = b.slices_mut();
                sum += (p.len() + q.len()) as u64;
                "slices"
            }
            15 => {
                sum += (b == ob) as u64 + (b.partial_cmp(&ob) == Some(Ordering::Less)) as u64;
                "comparison"
            }
            16 => {
                sum += b.first().map_or(0, |e| e.0) + b.last().map_or(0, |e| e.0);
                if let Some(e) = b.first_mut() {
                    e.0 = 3
                }
                if let Some(e) = b.last_mut() {
                    e.0 = 3
                }
                "first/last"
            }
            17 => {
                sum += b.len() as u64 + b.capacity() as u64 + b.is_full() as u64 + b.is_empty() as u64;
                "len/capacity"
            }
            18 => {
                sum += (b == data[..]) as u64;
                "comparison with a slice"
            }
            _ => {
                b.clear();
                "clear"
            }
        };
        let d = allocations() - before;
        drop(ob);
        src.note(|| name.to_string());
        require!(d == 0, "{} allocated {} time(s) (capacity {}, {} elements before)", name, d, b.capacity(), n);
        wrapped |= !b.slices().1.is_empty();
        Ok(())
    })?;
    // consuming iteration
    let before = allocations();
    for e in b {
        sum = sum.wrapping_add(e.0);
    }
    require!(allocations() == before, "into_iter allocated");
    src.label_if(wrapped, "wrapped");
    src.nontrivial_if(wrapped && sum > 0);
    Ok(())
}

#[allow(non_camel_case_types)]
#[derive(Clone, PartialEq, PartialOrd, Eq, Ord, Debug)]
pub struct u64e(u64);
impl Elem for u64e {
    const NAME: &'static str = "u64";
    const CARD: u32 = 1 << 30;
    fn make(k: u32) -> Self {
        u64e(k as u64)
    }
    fn key(&self) -> u32 {
        self.0 as u32
    }
}

// ---- C08 ------------------------------------------------------------------------------------------------

/// A buffer with the given content at some capacity and rotation.
fn holding<T: Clone>(src: &mut Src, v: &[T], spare: usize) -> CB<T> {
    let cap = v.len() + spare;
    let rot = src.us(cap + 1);
    let mut b = CircularBuffer::new(cap);
    if cap > 0 && !v.is_empty() {
        for _ in 0..rot {
            b.push_back(v[0].clone());
            b.pop_front();
        }
        if src.bool() {
            for x in v.iter().rev() {
                b.push_front(x.clone());
            }
        } else {
            for x in v {
                b.push_back(x.clone());
            }
        }
    }
    b
}

fn cmp_all<T: PartialOrd + Clone + std::fmt::Debug>(a: &CB<T>, b: &CB<T>, va: &[T], vb: &[T]) -> Res {
    let eq = va == vb;
    same!(a == b, eq, "{:?} == {:?}", va, vb);
    same!(a != b, !eq, "{:?} != {:?}", va, vb);
    same!(*a == *vb, eq, "buffer {:?} == slice {:?}", va, vb);
    same!(*a != *vb, !eq, "buffer {:?} != slice {:?}", va, vb);
    same!(*a == vb, eq, "buffer {:?} == &slice {:?}", va, vb);
    same!(*a != vb, !eq, "buffer {:?} != &slice {:?}", va, vb);
    let p = va.partial_cmp(vb);
    same!(a.partial_cmp(b), p, "{:?} partial_cmp {:?}", va, vb);
    same!(a < b, p == Some(Ordering::Less), "{:?} < {:?}", va, vb);
    same!(a > b, p == Some(Ordering::Greater), "{:?} > {:?}", va, vb);
    same!(a <= b, matches!(p, Some(Ordering::Less) | Some(Ordering::Equal)), "{:?} <= {:?}", va, vb);
    same!(a >= b, matches!(p, Some(Ordering::Greater) | Some(Ordering::Equal)), "{:?} >= {:?}", va, vb);
    Ok(())
}

fn related(src: &mut Src, a: &[u8], card: u64) -> Vec<u8> {
    // a second sequence close to the first one
    let mut v = a.to_vec();
    match src.draw(6) {
        0 => {}
        1 => v.push(src.draw(card) as u8),
        2 => {
            v.pop();
        }
        3 => {
            if !v.is_empty() {
                let i = src.us(v.len());
                v[i] = src.draw(card) as u8;
            }
        }
        4 => {
            if v.len() > 1 {
                let i = src.us(v.len() - 1);
                v.swap(i, i + 1);
            }
        }
        _ => {
            let n = src.size(4, 20);
            v = (0..n).map(|_| src.draw(card) as u8).collect();
        }
    }
    v
}

fn c08_compare(src: &mut Src) -> Res {
    let card = src.range(1, 4) as u64;
    let n = src.size(6, 60);
    let a: Vec<u8> = (0..n).map(|_| src.draw(card) as u8).collect();
    let b = related(src, &a, card);
    let (sa, sb) = (src.us(4), src.us(4));
    src.note(|| format!("{:?} (spare {}) against {:?} (spare {})", a, sa, b, sb));
    src.label_if(a == b, "equal");
    src.label_if(a != b && (a.starts_with(&b) || b.starts_with(&a)), "one is a prefix");
    src.nontrivial_if(!a.is_empty() && !b.is_empty());
    match src.draw(3) {
        0 => {
            let va: Vec<i64> = a.iter().map(|&x| x as i64).collect();
            let vb: Vec<i64> = b.iter().map(|&x| x as i64).collect();
            let (ca, cb) = (holding(src, &va, sa), holding(src, &vb, sb));
            cmp_all(&ca, &cb, &va, &vb)?;
            same!(ca.cmp(&cb), va.cmp(&vb), "{:?} cmp {:?}", va, vb);
            same!(ca.cmp(&ca), Ordering::Equal, "cmp with itself");
            let mx = std::cmp::max(&ca, &cb);
            require!(*mx == std::cmp::max(&va, &vb)[..], "max");
        }
        1 => {
            let f = |x: &u8| match x {
                0 => f64::NAN,
                1 => 0.0,
                2 => -0.0,
                _ => 1.5,
            };
            let va: Vec<f64> = a.iter().map(f).collect();
            let vb: Vec<f64> = b.iter().map(f).collect();
            src.label_if(va.iter().any(|x| x.is_nan()), "NaN");
            let (ca, cb) = (holding(src, &va, sa), holding(src, &vb, sb));
            cmp_all(&ca, &cb, &va, &vb)?;
        }
        _ => {
            let va: Vec<String> = a.iter().map(|&x| format!("{}", x)).collect();
            let vb: Vec<String> = b.iter().map(|&x| format!("{}", x)).collect();
            let (ca, cb) = (holding(src, &va, sa), holding(src, &vb, sb));
            cmp_all(&ca, &cb, &va, &vb)?;
            same!(ca.cmp(&cb), va.cmp(&vb), "{:?} cmp {:?}", va, vb);
        }
    }
    Ok(())
}

/// All pairs of sequences over {0,1} up to length 3, at all rotations and spare room up to 1.
fn c08_small(src: &mut Src) -> Res {
    let dec = |mut c: usize| -> Vec<i64> {
        let mut len = 0;
        while c >= 1 << len {
            c -= 1 << len;
            len += 1;
        }
        (0..len).map(|i| (c >> i & 1) as i64).collect()
    };
    let a = dec(src.us(15));
    let b = dec(src.us(15));
    let (sa, sb) = (src.us(2), src.us(2));
    let ca = holding(src, &a, sa);
    let cb = holding(src, &b, sb);
    src.note(|| format!("{:?} (spare {}) against {:?} (spare {})", a, sa, b, sb));
    src.nontrivial_if(!a.is_empty() && !b.is_empty());
    cmp_all(&ca, &cb, &a, &b)?;
    same!(ca.cmp(&cb), a.cmp(&b), "{:?} cmp {:?}", a, b);
    Ok(())
}

fn c08_clone_of<E: Elem>(src: &mut Src) -> Res {
    let s = random_shape(src, 6, 60);
    let (mut b, mut m) = layout::<E>(s.cap, s.rot, s.len, 1, src.draw(2));
    src.note(|| format!("CircularBuffer<{}> capacity {} rotation {} length {}", E::NAME, s.cap, s.rot, s.len));
    src.nontrivial_if(s.len > 0);
    let mut c = if src.bool() {
        b.clone()
    } else {
        let (mut x, _) = layout::<E>(src.us(6), 0, 0, 1, 0);
        x.clone_from(&b);
        x
    };
    let mut cm = m.clone();
    read_views(&c, &cm, "clone")?;
    content(&b, &m, "original after cloning")?;
    require!(c == b, "clone is not equal to the original");
    // independent histories
    let mut h = Hist { next: 100, wrapped: false, evicted: false, refilled: false, was_emptied: false };
    let n = src.size(8, 20);
    for _ in 0..n {
        if src.bool() {
            src.note(|| "on the clone:".into());
            step(src, &mut c, &mut cm, &mut h, &W_ALL, 40)?;
        } else {
            src.note(|| "on the original:".into());
            step(src, &mut b, &mut m, &mut h, &W_ALL, 40)?;
        }
        content(&c, &cm, "clone")?;
        content(&b, &m, "original")?;
    }
    if src.bool() {
        drop(b);
        aftermath(&mut c, &mut cm, "clone after the original is gone")
    } else {
        drop(c);
        aftermath(&mut b, &mut m, "original after the clone is gone")
    }
}

fn c08_clone(src: &mut Src) -> Res {
    ledger_reset();
    match src.draw(4) {
        0 => c08_clone_of::<i64>(src)?,
        1 => c08_clone_of::<String>(src)?,
        2 => c08_clone_of::<Tr>(src)?,
        _ => c08_clone_of::<Box<u32>>(src)?,
    }
    match ledger_error() {
        Some(e) => Err(e),
        None => Ok(()),
    }
}

// ---- C09 ------------------------------------------------------------------------------------------------

/// What a caller can see of a buffer after a panic: must be consistent and made of live elements.
fn visible(b: &CB<Tr>) -> Result<Model, String> {
    let n = b.len();
    let cap = b.capacity();
    require!(n <= cap, "length {} above capacity {}", n, cap);
    let mut q = VecDeque::new();
    let mut ids = std::collections::HashSet::new();
    for e in b.iter().take(n + 2) {
        require!(e.probe("read"), "an element that is not live is visible here: {}", ledger_error().unwrap_or_default());
        require!(ids.insert(e.id()), "element {} is visible twice", e.id());
        q.push_back(e.key());
    }
    same!(q.len(), n, "number of visible elements");
    Ok(Model { q, cap })
}

struct FaultyIter {
    next: u32,
    left: usize,
}
impl Iterator for FaultyIter {
    type Item = Tr;
    fn next(&mut self) -> Option<Tr> {
        tick(F_ITER);
        if self.left == 0 {
            return None;
        }
        self.left -= 1;
        self.next += 1;
        Some(Tr::new(self.next))
    }
}

/// After an interrupted extend: what was there and a prefix of what had been supplied, as pushes would leave it.
/// (Room made for an element that then did not come is accepted.)
fn kept(b: &CB<Tr>, before: &Model, first: u32, supplied: usize) -> Res {
    let seen = visible(b)?.q;
    let mut m = before.clone();
    for j in 0..=supplied {
        if j > 0 {
            m.push_back(first + j as u32 - 1);
        }
        if seen == m.q || (m.q.len() == m.cap && seen.len() + 1 == m.q.len() && seen.iter().eq(m.q.iter().skip(1))) {
            return Ok(());
        }
    }
    Err(format!("{:?} with {} elements supplied by the time of the panic has become {:?}", before.q, supplied, seen))
}

fn c09_of(src: &mut Src, s: Shape, small: bool) -> Res {
    ledger_reset();
    {
        let (mut b, m0) = layout::<Tr>(s.cap, s.rot, s.len, 1, src.draw(2));
        src.note(|| format!("capacity {} rotation {} length {}", s.cap, s.rot, s.len));
        let lim = if small { 4 } else { s.cap + 4 };
        let op = src.draw(16);
        let mut fired = false;
        // (model the visible content must equal after the panic, if the property fixes it)
        match op {
            0 => {
                let (n, k) = (src.us(lim + 1), src.us(lim + 1));
                src.note(|| format!("extend by {} from an iterator that panics at call {}", n, k));
                arm(F_ITER, k as i64);
                fired = guarded(|| b.extend(FaultyIter { next: 200, left: n })).is_err();
                disarm();
                if fired {
                    kept(&b, &m0, 201, n.min(k))?;
                }
            }
            1 => {
                let (n, k) = (src.us(lim + 1), src.us(lim + 1));
                src.note(|| format!("extend by {} references, clone {} panics", n, k));
                let v: Vec<Tr> = (0..n).map(|i| Tr::new(200 + i as u32)).collect();
                arm(F_CLONE, k as i64);
                fired = guarded(|| b.extend(v.iter())).is_err();
                disarm();
                if fired {
                    kept(&b, &m0, 200, n.min(k))?;
                }
            }
            2 => {
                let k = src.us(s.len + 1);
                src.note(|| format!("clone, element {} panics", k));
                arm(F_CLONE, k as i64);
                match guarded(|| b.clone()) {
                    Ok(c) => {
                        disarm();
                        let m = visible(&c)?;
                        same!(m.q, m0.q, "clone");
                    }
                    Err(_) => fired = true,
                }
                disarm();
                same!(visible(&b)?.q, m0.q, "original after a failed clone");
            }
            3 => {
                let k = src.us(s.len + 1);
                src.note(|| format!("clear, drop {} panics", k));
                arm(F_DROP, k as i64);
                fired = guarded(|| b.clear()).is_err();
            }
            4 => {
                let (c, k) = (src.us(lim + 1), src.us(s.len + 1));
                src.note(|| format!("resize({}), drop {} panics", c, k));
                arm(F_DROP, k as i64);
                fired = guarded(|| b.resize(c)).is_err();
            }
            5 | 6 => {
                src.note(|| format!("{} with a panicking drop of the discarded element", if op == 5 { "push_back" } else { "push_front" }));
                let e = Tr::new(300);
                arm(F_DROP, 0);
                fired = guarded(|| if op == 5 { b.push_back(e) } else { b.push_front(e) }).is_err();
            }
            7 => {
                let k = src.us(s.len + 1);
                let n = src.us(s.len + 1);
                src.note(|| format!("drain().nth({}), drop {} panics", n, k));
                arm(F_DROP, k as i64);
                fired = guarded(|| drop(b.drain().nth(n))).is_err();
            }
            8 => {
                let o = if small { pick_shape(src, 2) } else { random_shape(src, 6, 20) };
                let k = src.us(o.len + 1);
                src.note(|| format!("append(capacity {} length {}), drop {} panics", o.cap, o.len, k));
                let (mut ob, _) = layout::<Tr>(o.cap, o.rot, o.len, 400, 0);
                arm(F_DROP, k as i64);
                fired = guarded(|| b.append(&mut ob)).is_err();
                disarm();
                let mut om = visible(&ob)?;
                let seen: Vec<u32> = b.iter().map(|e| e.id()).collect();
                for e in ob.iter() {
                    require!(!seen.contains(&e.id()), "an element is in both buffers after a panicking append");
                }
                let mut ob = ob;
                aftermath(&mut ob, &mut om, "appended buffer after a panic")?;
            }
            9 => {
                let k = src.us(s.len + 1);
                src.note(|| format!("dropping the buffer, drop {} panics", k));
                arm(F_DROP, k as i64);
                fired = guarded(move || drop(b)).is_err();
                b = CircularBuffer::new(3);
            }
            10 => {
                let (k, n) = (src.us(s.len + 1), src.us(s.len + 1));
                src.note(|| format!("into_iter dropped after {}, drop {} panics", n, k));
                let old = std::mem::replace(&mut b, CircularBuffer::new(3));
                arm(F_DROP, k as i64);
                fired = guarded(move || {
                    let mut it = old.into_iter();
                    let mut keep = Vec::new();
                    for _ in 0..n {
                        keep.extend(it.next());
                    }
                    std::mem::forget(keep);
                })
                .is_err();
            }
            11 => {
                let o = if small { pick_shape(src, 2) } else { random_shape(src, 6, 20) };
                let k = src.us(o.len.min(s.len) + 1);
                src.note(|| format!("comparison with (capacity {} length {}), comparison {} panics", o.cap, o.len, k));
                let (ob, om) = layout::<Tr>(o.cap, o.rot, o.len, 1, 0);
                arm(F_EQ, k as i64);
                let which = src.us(2);
                fired = guarded(|| if which == 0 { b == ob } else { b < ob }).is_err();
                disarm();
                same!(visible(&b)?.q, m0.q, "buffer after a panicking comparison");
                same!(visible(&ob)?.q, om.q, "other buffer after a panicking comparison");
            }
            12 => {
                let (n, k) = (src.us(lim + 1), src.us(lim + 1));
                let by_ref = src.bool();
                src.note(|| format!("collect {} elements, panic at {}, by reference {}", n, k, by_ref));
                if by_ref {
                    let v: Vec<Tr> = (0..n).map(|i| Tr::new(200 + i as u32)).collect();
                    arm(F_CLONE, k as i64);
                    let r = guarded(|| v.iter().collect::<CB<Tr>>());
                    disarm();
                    fired = r.is_err();
                    if let Ok(x) = r {
                        b = x;
                    }
                } else {
                    arm(F_ITER, k as i64);
                    let r = guarded(|| FaultyIter { next: 200, left: n }.collect::<CB<Tr>>());
                    disarm();
                    fired = r.is_err();
                    if let Ok(x) = r {
                        b = x;
                    }
                }
            }
            13 => {
                let (n, k) = (src.us(lim + 1), src.us(lim + 1));
                src.note(|| format!("extend by {}, drop {} of evicted elements panics", n, k));
                let v: Vec<Tr> = (0..n).map(|i| Tr::new(200 + i as u32)).collect();
                arm(F_DROP, k as i64);
                fired = guarded(|| b.extend(v)).is_err();
            }
            14 => {
                let i = src.us(s.len + 2);
                src.note(|| format!("write to index {} with a panicking drop of the old element", i));
                let e = Tr::new(333);
                arm(F_DROP, 0);
                fired = guarded(|| b[i] = e).is_err();
            }
            _ => {
                let (i, j) = (src.us(s.len + 2), src.us(s.len + 2));
                src.note(|| format!("swap({}, {})", i, j));
                fired = guarded(|| b.swap(i, j)).is_err();
            }
        }
        disarm();
        src.label_if(fired, "panicked");
        src.nontrivial_if(fired);
        let mut m = visible(&b)?;
        aftermath(&mut b, &mut m, "after a panic")?;
        if let Some(e) = ledger_error() {
            return Err(e);
        }
    }
    match ledger_error() {
        Some(e) => Err(e),
        None => Ok(()),
    }
}

fn c09_small(src: &mut Src) -> Res {
    let s = pick_shape(src, 3);
    c09_of(src, s, true)
}
fn c09_random(src: &mut Src) -> Res {
    let s = random_shape(src, 8, 40);
    c09_of(src, s, false)
}

pub fn suites() -> Vec<Suite> {
    use Kind::*;
    macro_rules! s {
        ($p:expr, $n:expr, $k:expr, $q:expr, $t:expr, $m:expr, $f:expr, $a:expr) => {
            Suite { prop: $p, name: $n, kind: $k, quick: $q, thorough: $t, miri: $m, run: $f, about: $a }
        };
    }
    vec![
        s!("C01", "ring/history", Random, 2_880_000, 60_000_000, 0, c01_history, "random operation histories (22 kinds of operation, random subset switched off per case) against a bounded VecDeque model, compared after every operation; non-trivial: the buffer wrapped and evicted or was refilled after emptying"),
        s!("C01", "ring/all-short-histories", Exhaustive, 1, 1, 0, c01_small, "every sequence of 6 operations (push/pop at both ends, linearize) from every layout with capacity 0..3; non-trivial: an element was evicted"),
        s!("C01", "ring/stream", Random, 36_000, 600_000, 0, c01_stream, "long streams through capacities up to 8192, around powers of two; non-trivial: capacity > 0"),
        s!("C01", "ring/long-life", Random, 4000, 80000, 0, long::c01, "long lives of one buffer that is never replaced: up to 150 thousand operations, one kind far more frequent than the others, end operations most frequent; non-trivial: wrapped and evicted or refilled"),
        s!("C02", "ring/views-all-layouts", Exhaustive, 1, 1, 0, c02_layouts, "every layout (capacity 0..7, rotation, length, two construction routes, three element types): all views read, every index written through every mutable view, out-of-range indices; non-trivial: not empty"),
        s!("C02", "ring/views-random-layouts", Random, 72_000, 2_000_000, 0, c02_random, "the same on random layouts up to capacity 120 over six element types; non-trivial: not empty"),
        s!("C02", "ring/views-in-histories", Random, 720_000, 15_000_000, 0, c02_history, "all read views after every step of random histories; non-trivial: wrapped and evicted or refilled"),
        s!("C02", "ring/views-large", Random, 6_000, 120_000, 0, large::c02, "large buffers (capacities of 100 to 65 thousand, around powers of two): all read views compared linearly, single writes through six mutable views at random places, the ends and the seam; non-trivial: not empty"),
        s!("C02", "ring/views-long-life", Random, 4000, 80000, 0, long::c02, "long lives of one buffer that is never replaced: up to 150 thousand operations, one kind far more frequent than the others, writes through views and reads of all views most frequent; non-trivial: wrapped and evicted or refilled"),
        s!("C03", "ring/bulk-small", Exhaustive, 1, 1, 0, c03_small, "every bulk operation (resize, extend x3, append of every small layout, partial drains, builds, clear) with every small argument from every layout with capacity 0..4, then a fixed mix of further operations; non-trivial: the operation moved elements"),
        s!("C03", "ring/bulk-random", Random, 960_000, 20_000_000, 0, c03_random, "the same with random layouts up to capacity 200 and random arguments over five element types"),
        s!("C03", "ring/bulk-large", Random, 6_000, 120_000, 0, large::c03, "large buffers (capacities of 100 to 65 thousand, around powers of two): one to three bulk operations with arguments around the capacity, length and free room; non-trivial: the operation moved elements"),
        s!("C03", "ring/bulk-long-life", Random, 4000, 80000, 0, long::c03, "long lives of one buffer that is never replaced: up to 150 thousand operations, one kind far more frequent than the others, clear, extend, append, drain or resize most frequent; non-trivial: wrapped and evicted or refilled"),
        s!("C04", "ring/rearrange-small", Exhaustive, 1, 1, 0, c04_small, "swap of every index pair (in and out of range), reverse and linearize from every layout with capacity 0..5, then further operations; non-trivial: something moved"),
        s!("C04", "ring/rearrange-random", Random, 720_000, 15_000_000, 0, c04_random, "sequences of 1..6 rearrangements on layouts up to capacity 300, four element types"),
        s!("C04", "ring/rearrange-large", Random, 6_000, 120_000, 0, large::c04, "large buffers (capacities of 100 to 65 thousand, around powers of two): sequences of rearrangements and pushes; non-trivial: something moved"),
        s!("C04", "ring/rearrange-long-life", Random, 4000, 80000, 0, long::c04, "long lives of one buffer that is never replaced: up to 150 thousand operations, one kind far more frequent than the others, swap, reverse or linearize most frequent; non-trivial: wrapped and evicted or refilled"),
        s!("C05", "ring/ownership-history", Random, 1_920_000, 40_000_000, 0, c05_history, "random histories with tracked elements (plain, heap-owning, zero-sized), elements kept outside, abandoned iterators and drains; the number of live elements is compared after every operation and at the end; non-trivial: wrapped, evicted, drained partially or cloned"),
        s!("C05", "ring/ownership-small", Exhaustive, 1, 1, 0, c05_small, "every operation with every small argument from every layout with capacity 0..4 with tracked elements; non-trivial: not empty"),
        s!("C05", "ring/ownership-large", Random, 3_000, 60_000, 0, large::c05, "one operation on tracked elements in buffers of 100 to 5000; live elements and content compared; non-trivial: not empty"),
        s!("C05", "ring/ownership-long-life", Random, 4000, 80000, 0, long::c05, "long lives of one buffer that is never replaced: up to 150 thousand operations, one kind far more frequent than the others, live elements counted after each; non-trivial: wrapped and evicted or refilled"),
        s!("C06", "ring/all-element-types", Random, 1_440_000, 30_000_000, 240, c06_types, "random histories over 16 element types (niche types, references, boxes, zero-sized, large, over-aligned, tracked) with scribbling guard-zone allocator, and the same under Miri; non-trivial: wrapped and evicted or refilled"),
        s!("C06", "ring/all-views-all-types", Random, 480_000, 10_000_000, 120, c06_views, "all views, clone and writes on layouts over 10 element types, natively and under Miri; non-trivial: not empty"),
        s!("C06", "ring/ownership-under-miri", Random, 2_000, 10_000, 80, c05_history, "tracked-element histories, natively and under Miri"),
        s!("C06", "ring/panics-under-miri", Random, 2_000, 10_000, 120, c09_small_random, "injected panics in user code, natively and under Miri"),
        s!("C06", "ring/wrong-size-hints", Random, 240_000, 4_000_000, 60, c06_liars, "extend and collect (owned, by reference) from iterators whose size hint is wrong in either direction: only live elements visible, nothing dropped twice, later operations follow the model of the visible content, natively and under Miri; non-trivial: the hint is wrong"),
        s!("C06", "ring/threads", Exhaustive, 1, 1, 0, c06_threads, "buffers and iterators of elements that must not be sent to or shared with other threads: they must not be Send or Sync themselves; every case is non-trivial"),
        s!("C07", "ring/no-allocation", Random, 1_440_000, 30_000_000, 0, c07_history, "histories of non-resizing operations with the allocation counter read around each; non-trivial: wrapped at some point"),
        s!("C07", "ring/no-allocation-long-life", Random, 2_000, 40_000, 0, c07_long, "the same over long lives of one buffer: up to 150 thousand operations, one kind far more frequent than the others; non-trivial: wrapped at some point"),
        s!("C08", "ring/compare", Random, 2_400_000, 50_000_000, 0, c08_compare, "pairs of related sequences placed at random capacities and rotations, all comparison operators against the slice comparison, with NaN elements; non-trivial: both non-empty"),
        s!("C08", "ring/compare-small", Exhaustive, 1, 1, 0, c08_small, "all pairs of sequences over two values up to length 3, all rotations, spare room 0..1; non-trivial: both non-empty"),
        s!("C08", "ring/clone", Random, 720_000, 15_000_000, 0, c08_clone, "clone (and clone_from), then independent random histories on clone and original; non-trivial: not empty"),
        s!("C08", "ring/compare-large", Random, 20_000, 400_000, 0, large::c08, "sequences of 60 to 12 thousand elements, equal or with one change, at random rotations, all comparison operators and clone; every case is non-trivial"),
        s!("C08", "ring/clone-long-life", Random, 4000, 80000, 0, long::c08, "long lives of one buffer that is never replaced: up to 150 thousand operations, one kind far more frequent than the others, clone and comparison most frequent; non-trivial: wrapped and evicted or refilled"),
        s!("C09", "ring/faults-small", Exhaustive, 1, 1, 0, c09_small, "every operation that runs user code, a panic injected at every position, from every layout with capacity 0..3, then further operations against the model of the visible content; non-trivial: the panic fired"),
        s!("C14", "ring/iterators-small", Exhaustive, 1, 1, 0, iters::small, "every program of 4 (thorough: 5) calls out of next, next_back, nth(0..2), nth_back(0..2) on every iterator of every layout with capacity 0..3, size hints checked before each call, then polled after the end; non-trivial: not empty"),
        s!("C14", "ring/iterators-random", Random, 900_000, 18_000_000, 0, iters::random, "random programs of iterator calls (next, nth, size_hint, from both ends for the borrowing iterators, then a closing adaptor) on the iterators of random layouts up to capacity 80; the mutable references handed out are kept together, checked to be distinct and written through; non-trivial: calls from both ends or more than three calls on a non-empty buffer"),
        s!("C14", "ring/iterators-large", Random, 4_000, 80_000, 0, iters::large, "the same on large buffers (capacities of 100 to 65 thousand, around powers of two), with nth to the seam and over any distance"),
        s!("C15", "ring/storage", Random, 1_500_000, 5_000_000, 0, cost::storage, "histories over seven heap-free element types with every way of building (exact and loose size hints, vectors with spare room), cloning and resizing: bytes released when the buffer goes away and bytes held after each resize against capacity + 1 slots; non-trivial: the buffer was resized, cloned or built from a source with spare room"),
        s!("C15", "ring/storage-long-life", Random, 4000, 80000, 0, long::c15, "long lives of one buffer that is never replaced: up to 150 thousand operations, one kind far more frequent than the others, resize most frequent, bytes held compared against the capacity after each; every case is non-trivial"),
        s!("C16", "ring/constant-time", Random, 400, 3_000, 0, cost::constant, "CPU time of 131 thousand calls of one operation (or of a mix) on a buffer of 260 thousand to a million slots against the same calls on a buffer of 8 slots (factor 100, best of three); every case is non-trivial"),
        s!("C09", "ring/faults-random", Random, 1_200_000, 25_000_000, 0, c09_random, "the same on random layouts up to capacity 40"),
        s!("C09", "ring/faults-long-life", Random, 4000, 80000, 0, long::c09, "long lives of one buffer that is never replaced: up to 150 thousand operations, one kind far more frequent than the others, panics injected again and again; non-trivial: more than one panic"),
    ]
}

fn c09_small_random(src: &mut Src) -> Res {
    let s = pick_shape(src, 4);
    c09_of(src, s, true)
}
