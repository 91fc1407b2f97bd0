//! The same properties on large buffers (capacities around powers of two up to 65 thousand and beyond), with
//! views and rearrangements that a per-index comparison would make quadratic.

use super::*;

pub fn big_shape(src: &mut Src) -> Shape {
    let cap = match src.draw(6) {
        0 => src.range(100, 600),
        1 | 2 => {
            let p = 128usize << src.us(6);
            p + src.us(3) - 1
        }
        3 => src.range(600, 9000),
        4 => src.range(9000, 40_000),
        _ => 65_535 + src.us(3),
    };
    let rot = match src.draw(4) {
        0 => 0,
        1 => src.us(3),
        _ => src.us(cap + 1),
    };
    let len = match src.draw(4) {
        0 => cap,
        1 => cap - src.us(3),
        _ => src.us(cap + 1),
    };
    Shape { cap, rot, len }
}

/// All read views once over, linear in the length.
fn linear_views<E: Elem>(b: &CB<E>, m: &Model, what: &str) -> Res {
    sizes(b, m, what)?;
    let n = m.q.len();
    let differs = |i: usize, view: &str, got: Option<u32>, want: Option<u32>| -> Res {
        if got == want { Ok(()) } else { Err(format!("{}: {} of {} elements, element {}: got {:?}, expected {:?}", what, view, n, i, got, want)) }
    };
    let mut it = b.iter();
    let mut rev = b.iter().rev();
    let (s, t) = b.slices();
    same!(s.len() + t.len(), n, "{}: slices", what);
    for i in 0..n {
        let want = m.q.get(i).copied();
        differs(i, "iter", it.next().map(|e| e.key()), want)?;
        differs(i, "index", Some(b[i].key()), want)?;
        differs(i, "slices", if i < s.len() { s.get(i) } else { t.get(i - s.len()) }.map(|e| e.key()), want)?;
        differs(n - 1 - i, "iter().rev()", rev.next().map(|e| e.key()), m.q.get(n - 1 - i).copied())?;
    }
    require!(it.next().is_none() && rev.next().is_none(), "{}: iteration yields more than {} elements", what, n);
    differs(0, "first", b.first().map(|e| e.key()), m.q.front().copied())?;
    differs(n, "last", b.last().map(|e| e.key()), m.q.back().copied())?;
    Ok(())
}

fn note_shape<E: Elem>(src: &mut Src, b: &CB<E>, s: &Shape) {
    src.note(|| format!("CircularBuffer<{}> capacity {} rotation {} length {}", E::NAME, s.cap, s.rot, s.len));
    src.label_if(!b.slices().1.is_empty(), "wrapped");
    src.label_if(s.cap > 4096, "capacity above 4096");
    src.label_if(s.len == s.cap, "full");
}

fn some_pushes<E: Elem>(src: &mut Src, b: &mut CB<E>, m: &mut Model) -> Res {
    for i in 0..src.us(6) as u32 {
        let k = 2_000_000 + i;
        match src.draw(4) {
            0 => {
                b.push_back(E::make(k));
                m.push_back(E::norm(k));
            }
            1 => {
                b.push_front(E::make(k));
                m.push_front(E::norm(k));
            }
            2 => same!(b.pop_front().map(|e| e.key()), m.q.pop_front(), "pop_front"),
            _ => same!(b.pop_back().map(|e| e.key()), m.q.pop_back(), "pop_back"),
        }
        sizes(b, m, "after the operation")?;
    }
    Ok(())
}

fn views_of<E: Elem>(src: &mut Src) -> Res {
    let s = big_shape(src);
    let (mut b, mut m) = layout::<E>(s.cap, s.rot, s.len, 1, src.draw(2));
    note_shape(src, &b, &s);
    src.nontrivial_if(s.len > 0);
    some_pushes(src, &mut b, &mut m)?;
    linear_views(&b, &m, "layout")?;
    let n = m.q.len();
    let mut k = 3_000_000u32;
    for _ in 0..8 {
        if n == 0 {
            break;
        }
        let i = match src.draw(3) {
            0 => src.us(n),
            1 => n - 1 - src.us(n.min(4)),
            _ => {
                // next to the seam
                let seam = b.slices().0.len();
                (seam + src.us(3)).saturating_sub(1).min(n - 1)
            }
        };
        k += 1;
        m.q[i] = E::norm(k);
        let v = E::make(k);
        let how = src.us(6);
        src.note(|| format!("write element {} through view {}", i, how));
        let slot = match how {
            0 => Some(&mut b[i]),
            1 => b.iter_mut().nth(i),
            2 => b.iter_mut().nth_back(n - 1 - i),
            3 => b.linearize().get_mut(i),
            4 => {
                let mut it = b.iter_mut();
                let mut r = None;
                // from both ends until the element is met
                for j in 0..n {
                    let (e, at) = if j % 2 == 0 { (it.next(), j / 2) } else { (it.next_back(), n - 1 - j / 2) };
                    if at == i {
                        r = e;
                        break;
                    }
                }
                r
            }
            _ => {
                let (x, y) = b.slices_mut();
                let l = x.len();
                if i < l { x.get_mut(i) } else { y.get_mut(i - l) }
            }
        };
        match slot {
            Some(e) => *e = v,
            None => return Err(format!("view {} has no element {} of {}", how, i, n)),
        }
    }
    linear_views(&b, &m, "after writes")?;
    for i in oob_candidates(n, m.cap).iter().copied().filter(|&i| i >= n) {
        require!(idx_panics(&b, i), "index {} of {} elements did not panic", i, n);
    }
    if src.bool() {
        let mut d = b.into_iter();
        for i in 0..n {
            let g = d.next().map(|e| e.key());
            if g != m.q.get(i).copied() {
                return Err(format!("into_iter of {} elements, element {}: got {:?}, expected {:?}", n, i, g, m.q.get(i)));
            }
        }
        require!(d.next().is_none(), "into_iter yields more than {} elements", n);
    }
    Ok(())
}

pub fn c02(src: &mut Src) -> Res {
    match src.draw(3) {
        0 => views_of::<i64>(src),
        1 => views_of::<[u64; 9]>(src),
        _ => views_of::<Box<u32>>(src),
    }
}

fn bulk_of<E: Elem>(src: &mut Src) -> Res {
    let s = big_shape(src);
    let (mut b, mut m) = layout::<E>(s.cap, s.rot, s.len, 1, src.draw(2));
    note_shape(src, &b, &s);
    for _ in 0..src.range(1, 3) {
        let around = |src: &mut Src, m: &Model| -> usize {
            match src.draw(5) {
                0 => src.us(m.cap * 2 + 2),
                1 => (m.cap + src.us(3)).saturating_sub(1),
                2 => (m.q.len() + src.us(3)).saturating_sub(1),
                3 => (m.cap - m.q.len() + src.us(3)).saturating_sub(1),
                _ => src.us(m.cap + 1),
            }
        };
        match src.draw(6) {
            0 => {
                let c = around(src, &m).min(140_000);
                src.note(|| format!("resize({})", c));
                src.nontrivial_if(m.q.len() > 0 && c != m.cap);
                b.resize(c);
                m.resize(c);
            }
            1 => {
                let n = around(src, &m);
                let own = src.bool();
                src.note(|| format!("extend with {} ({})", n, if own { "owned" } else { "by reference" }));
                src.nontrivial_if(n > 0);
                let v: Vec<E> = (0..n).map(|i| E::make(1_000_000 + i as u32)).collect();
                let kind = src.draw(HINTS);
                if own {
                    b.extend(Hinted { it: v.into_iter(), kind })
                } else {
                    b.extend(Hinted { it: v.iter(), kind })
                }
                for i in 0..n {
                    m.push_back(E::norm(1_000_000 + i as u32));
                }
            }
            2 => {
                let o = big_shape(src);
                src.note(|| format!("append(capacity {} rotation {} length {})", o.cap, o.rot, o.len));
                src.nontrivial_if(o.len > 0);
                let (mut ob, mut om) = layout::<E>(o.cap, o.rot, o.len, 1_500_000, src.draw(2));
                b.append(&mut ob);
                while let Some(k) = om.q.pop_front() {
                    m.push_back(k);
                }
                linear_views(&ob, &om, "appended buffer")?;
                some_pushes(src, &mut ob, &mut om)?;
                linear_views(&ob, &om, "appended buffer after pushes")?;
            }
            3 => {
                let n = src.us(m.q.len() + 2);
                src.note(|| format!("drain {}", n));
                src.nontrivial_if(n > 0);
                let mut d = b.drain();
                for _ in 0..n {
                    same!(d.next().map(|e| e.key()), m.q.pop_front(), "drain");
                }
            }
            4 => {
                src.note(|| "rebuild from own elements".into());
                src.nontrivial_if(m.q.len() > 0);
                let old = std::mem::replace(&mut b, CircularBuffer::new(0));
                b = if src.bool() { old.iter().collect() } else { CircularBuffer::from(old.into_iter().collect::<Vec<E>>()) };
                m.cap = m.q.len();
            }
            _ => {
                src.note(|| "clear".into());
                b.clear();
                m.q.clear();
            }
        }
        linear_views(&b, &m, "after the bulk operation")?;
        some_pushes(src, &mut b, &mut m)?;
    }
    linear_views(&b, &m, "end")
}

pub fn c03(src: &mut Src) -> Res {
    match src.draw(3) {
        0 => bulk_of::<i64>(src),
        1 => bulk_of::<u8>(src),
        _ => bulk_of::<Box<u32>>(src),
    }
}

fn rearrange_of<E: Elem>(src: &mut Src) -> Res {
    let s = big_shape(src);
    let (mut b, mut m) = layout::<E>(s.cap, s.rot, s.len, 1, src.draw(2));
    note_shape(src, &b, &s);
    for _ in 0..src.range(1, 4) {
        let n = m.q.len();
        match src.draw(3) {
            0 => {
                src.note(|| "linearize".into());
                src.nontrivial_if(n > 1);
                same!(b.linearize().len(), n, "length of linearize");
                let (x, y) = b.slices();
                require!(y.is_empty() && x.len() == n, "content not contiguous after linearize: {} + {} elements", x.len(), y.len());
            }
            1 => {
                src.note(|| "reverse".into());
                src.nontrivial_if(n > 1);
                b.reverse();
                m.q = m.q.iter().rev().copied().collect();
            }
            _ => {
                for _ in 0..6 {
                    let i = src.us(n + 1);
                    let j = src.us(n + 1);
                    if i < n && j < n {
                        src.note(|| format!("swap({}, {})", i, j));
                        src.nontrivial_if(i != j);
                        b.swap(i, j);
                        m.q.swap(i, j);
                    }
                }
            }
        }
        linear_views(&b, &m, "after rearranging")?;
        some_pushes(src, &mut b, &mut m)?;
    }
    linear_views(&b, &m, "end")
}

pub fn c04(src: &mut Src) -> Res {
    match src.draw(3) {
        0 => rearrange_of::<i64>(src),
        1 => rearrange_of::<u8>(src),
        _ => rearrange_of::<[u64; 9]>(src),
    }
}

pub fn c05(src: &mut Src) -> Res {
    ledger_reset();
    let s = big_shape(src);
    let (mut b, mut m) = layout::<Tr>(s.cap.min(5000), s.rot.min(s.cap.min(5000)), s.len.min(5000), 1, src.draw(2));
    note_shape(src, &b, &s);
    src.nontrivial_if(s.len > 0);
    let op = src.us(8);
    src.note(|| format!("operation {}", op));
    match op {
        0 => {
            b.clear();
            m.q.clear();
        }
        1 => {
            let c = src.us(m.cap + 2);
            b.resize(c);
            m.resize(c);
        }
        2 => {
            let n = src.us(m.q.len() + 1);
            b.drain().take(n).for_each(drop);
            m.q.drain(..n);
        }
        3 => {
            let c = b.clone();
            same!(ledger_live(), 2 * m.q.len() as i64, "live elements while a clone exists");
            b = c;
        }
        4 => {
            let n = src.us(m.q.len() + 1);
            let mut it = std::mem::replace(&mut b, CircularBuffer::new(3)).into_iter();
            for _ in 0..n {
                it.next();
            }
            same!(ledger_live(), (m.q.len() - n) as i64, "live elements in a half used into_iter");
            drop(it);
            m = Model { q: VecDeque::new(), cap: 3 };
        }
        5 => {
            let n = src.us(m.cap * 2 + 2);
            let v: Vec<Tr> = (0..n).map(|i| Tr::new(i as u32)).collect();
            b.extend(v);
            (0..n).for_each(|i| {
                m.push_back(i as u32);
            });
        }
        6 => {
            let (mut o, mut om) = layout::<Tr>(s.cap.min(3000), 2, s.cap.min(3000), 9, 0);
            b.append(&mut o);
            om.q.drain(..).for_each(|k| {
                m.push_back(k);
            });
        }
        _ => {
            b.reverse();
            b.linearize();
            m.q = m.q.iter().rev().copied().collect();
        }
    }
    same!(ledger_live(), m.q.len() as i64, "live elements after operation {}", op);
    linear_views(&b, &m, "after the operation")?;
    drop(b);
    same!(ledger_live(), 0, "live elements at the end");
    match ledger_error() {
        Some(e) => Err(e),
        None => Ok(()),
    }
}

pub fn c08(src: &mut Src) -> Res {
    let n = match src.draw(24) {
        0..=7 => src.range(60, 300),
        8..=15 => (128usize << src.us(6)) + src.us(3) - 1,
        16 => (16_384usize << src.us(4)) + src.us(3) - 1,
        _ => src.range(300, 12_000),
    };
    let card = src.range(1, 200) as u64;
    let mut r = Rng::new(src.draw(0));
    let mut va: Vec<i64> = (0..n).map(|_| (r.next() % card) as i64).collect();
    let mut vb = va.clone();
    // mostly one difference: at either end, around a power of two or anywhere, in content of equal or other length
    let change = src.us(8);
    let mut place = |src: &mut Src, n: usize| match src.draw(4) {
        0 => 0,
        1 => n - 1,
        2 => ((1usize << src.us(14)) + src.us(3) - 1).min(n - 1),
        _ => src.us(n),
    };
    match change {
        0 => {}
        1 | 2 => {
            let i = place(src, n);
            vb[i] = if change == 1 { -1 } else { 1000 };
        }
        3 => vb.truncate(n - src.us(n.min(4))),
        4 => vb.push(0),
        5 | 6 => {
            // the lengths and the contents disagree about the order
            let l = 1 + src.us(n);
            vb.truncate(l);
            let i = place(src, l);
            vb[i] = if change == 5 { 1000 } else { -1 };
        }
        _ => {
            // two differences: the first one decides
            let (i, j) = (place(src, n), place(src, n));
            vb[i.min(j)] = -1;
            if i != j {
                vb[i.max(j)] = 1000;
            }
        }
    }
    if src.bool() {
        std::mem::swap(&mut va, &mut vb);
    }
    let n = va.len();
    let (sa, sb) = (src.us(4), src.us(4));
    let (ca, cb) = (holding(src, &va, sa), holding(src, &vb, sb));
    src.note(|| format!("{} elements against {}, change {}", n, vb.len(), change));
    src.label_if(va == vb, "equal");
    src.nontrivial = true;
    let eq = va == vb;
    let ord = va.cmp(&vb);
    same!((ca == cb, ca != cb), (eq, !eq), "== and != of {} and {} elements, change {}", n, vb.len(), change);
    same!((ca == vb[..], ca != vb[..]), (eq, !eq), "== and != of {} elements and a slice of {}, change {}", n, vb.len(), change);
    same!(ca.partial_cmp(&cb), Some(ord), "partial_cmp of {} and {} elements, change {}", n, vb.len(), change);
    same!(ca.cmp(&cb), ord, "cmp of {} and {} elements, change {}", n, vb.len(), change);
    same!((ca < cb, ca > cb), (ord == Ordering::Less, ord == Ordering::Greater), "< and > of {} and {} elements, change {}", n, vb.len(), change);
    same!((ca <= cb, ca >= cb), (ord != Ordering::Greater, ord != Ordering::Less), "<= and >= of {} and {} elements, change {}", n, vb.len(), change);
    let c = ca.clone();
    require!(c == ca && c == va[..], "clone of {} elements differs", n);
    same!(c.capacity(), ca.capacity(), "capacity of a clone");
    Ok(())
}
