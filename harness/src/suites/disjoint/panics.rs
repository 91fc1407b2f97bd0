//! C18: panics in the code of the elements. Also the protocol of the set iterator (C11).

use super::*;
use crate::suites::elem::*;

/// What the set shows: the elements among the universe, and which are together.
struct Seen {
    present: Vec<bool>,
    together: Vec<Vec<bool>>,
}

fn look<S: Hs>(d: &mut DS<Tr, S>, uni: u32) -> Result<Seen, String> {
    let keys: Vec<Tr> = (0..uni).map(Tr::new).collect();
    let present: Vec<bool> = keys.iter().map(|k| d.contains(k)).collect();
    let together: Vec<Vec<bool>> = keys.iter().map(|a| keys.iter().map(|b| d.in_union(a, b)).collect()).collect();
    let n = present.iter().filter(|&&p| p).count();
    same!((d.len(), d.is_empty()), (n, n == 0), "len and is_empty, {} elements are contained", n);
    Ok(Seen { present, together })
}

fn shows<S: Hs>(d: &mut DS<Tr, S>, m: &Model, uni: u32, what: &str) -> Res {
    let s = look(d, uni)?;
    for a in 0..uni {
        same!(s.present[a as usize], m.m.contains_key(&a), "{}: contains({})", what, a);
        for b in 0..uni {
            same!(s.together[a as usize][b as usize], m.same(a, b), "{}: in_union({}, {})", what, a, b);
        }
    }
    Ok(())
}

/// The groups, checked against the model.
fn grouped<S: Hs>(d: &mut DS<Tr, S>, m: &Model, what: &str) -> Res {
    let lim = m.m.len() + 1;
    let mut got: Vec<Vec<u32>> = Vec::new();
    for set in (&mut *d).into_iter().take(lim) {
        let mut g: Vec<u32> = set.take(lim).map(|e| e.key()).collect();
        g.sort();
        got.push(g);
    }
    got.sort();
    same!(got, m.classes().into_iter().collect::<Vec<_>>(), "{}: groups", what);
    Ok(())
}

struct Fused<I>(I);
impl<I: Iterator> Iterator for Fused<I> {
    type Item = I::Item;
    fn next(&mut self) -> Option<I::Item> {
        tick(F_ITER);
        self.0.next()
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        self.0.size_hint()
    }
}

fn panicking<S: Hs>(src: &mut Src, long: bool) -> Res {
    ledger_reset();
    let uni = src.range(1, 9) as u32;
    let mut m = Model::default();
    let mut d: DS<Tr, S> = if src.bool() { DS::new() } else { DS::with_capacity(src.us(10)) };
    src.note(|| format!("hasher {} universe {}", S::NAME, uni));
    let ops = if long { 0 } else { src.range(1, if src.scale == 1 { 24 } else { 14 }) };
    let (focus, fuses) = if long { (src.us(12), *src.pick(&[2u64, 8, 40])) } else { (8, 2) };
    let (mut fired, mut after, mut effect) = (0, 0, false);
    super::super::repeat(src, long, ops, |src| {
        let op = if focus < 8 && src.bool() { focus } else { src.weighted(&[8, 3, 4, 3, 4, 2, 2, 1]) };
        let (a, b) = (src.draw(uni as u64) as u32, src.draw(uni as u64) as u32);
        let list: Vec<u32> = if op == 2 || op == 5 { (0..src.us(6)).map(|_| src.draw(uni as u64) as u32).collect() } else { vec![] };
        let fuse = if src.chance(1, fuses) { Some((src.us(5), src.us(6) as i64)) } else { None };
        src.note(|| format!("{}{}", match op {
            0 => format!("union({}, {})", a, b),
            1 => format!("make_set({})", a),
            2 => format!("extend {:?}", list),
            3 => format!("in_union({}, {}) and contains", a, b),
            4 => "clear".to_string(),
            5 => format!("build from {:?}", list),
            6 => "clone".to_string(),
            _ => "iterate".to_string(),
        }, fuse.map_or(String::new(), |(k, n)| format!(", {} number {} panics", ["clone", "drop", "comparison", "iterator step", "hashing"][k], n))));
        let (ka, kb) = (Tr::new(a), Tr::new(b));
        let kl: Vec<Tr> = list.iter().map(|&k| Tr::new(k)).collect();
        if let Some((k, n)) = fuse {
            arm(k, n);
        }
        let loose = src.bool();
        let r: Result<Option<DS<Tr, S>>, String> = guarded(|| {
            match op {
                0 => d.union(ka, kb),
                1 => d.make_set(ka),
                2 => {
                    if loose {
                        d.extend(Hinted { it: Fused(kl.into_iter()), kind: 1 })
                    } else {
                        d.extend(Fused(kl.into_iter()))
                    }
                }
                3 => {
                    d.in_union(&ka, &kb);
                    d.contains(&ka);
                }
                4 => d.clear(),
                5 => return Some(if loose { DS::from_iter(Fused(kl.iter())) } else { DS::from_iter(Fused(kl.into_iter())) }),
                6 => return Some(d.clone()),
                _ => {
                    (&mut d).into_iter().map(|g| g.count()).sum::<usize>();
                }
            }
            None
        });
        disarm();
        match r {
            Ok(made) => {
                match op {
                    0 => m.union(a, 0, b, 0),
                    1 => m.add(a, 0),
                    2 => list.iter().for_each(|&k| m.add(k, 0)),
                    4 => m.m.clear(),
                    5 if !long => {
                        m.m.clear();
                        list.iter().for_each(|&k| m.add(k, 0));
                    }
                    _ => {}
                }
                match made {
                    Some(n) if !long => d = n,
                    Some(mut n) if op == 6 => shows(&mut n, &m, uni, "a clone")?,
                    _ => {}
                }
                after += (fired > 0) as u32;
                shows(&mut d, &m, uni, "after the operation")?;
            }
            Err(msg) => {
                require!(msg.starts_with(INJECTED), "unexpected panic: {}", msg);
                fired += 1;
                // the visible state must be one between before and after; it is what later operations build on
                let s = look(&mut d, uni)?;
                let args: Vec<u32> = match op {
                    0 => vec![a, b],
                    1 => vec![a],
                    2 => list,
                    _ => vec![],
                };
                for k in 0..uni {
                    let (was, is) = (m.m.contains_key(&k), s.present[k as usize]);
                    require!(!is || was || args.contains(&k), "element {} appeared in an operation that panicked", k);
                    require!(is || !was || op == 4, "element {} was lost in an operation that panicked", k);
                    effect |= was != is;
                }
                let mut up = m.clone();
                if op == 0 {
                    up.union(a, 0, b, 0);
                } else {
                    args.iter().for_each(|&k| up.add(k, 0));
                }
                let mut now = Model { m: Default::default(), next: m.next };
                let joined = op == 0 && a != b && s.together[a as usize][b as usize] && !m.same(a, b);
                for x in 0..uni {
                    for y in 0..uni {
                        let both = s.present[x as usize] && s.present[y as usize];
                        let is = s.together[x as usize][y as usize];
                        if x == y {
                            same!(is, s.present[x as usize], "in_union({}, {}) after a panic", x, x);
                        } else if op == 4 {
                            require!(!is || (both && m.same(x, y)), "{} and {} are together after a panic in clear, and were not before", x, y);
                        } else {
                            let want = both && if joined { up.same(x, y) } else { m.same(x, y) };
                            same!(is, want, "in_union({}, {}) after a panic", x, y);
                        }
                        if both && is && x <= y {
                            if x == y {
                                now.add(x, 0);
                            } else {
                                now.union(x, 0, y, 0);
                            }
                        }
                    }
                }
                m = now;
                shows(&mut d, &m, uni, "after a panic")?;
            }
        }
        if src.chance(1, 4) {
            grouped(&mut d, &m, "in the history")?;
        }
        if let Some(e) = ledger_error() {
            return Err(e);
        }
        Ok(())
    })?;
    shows(&mut d, &m, uni, "final")?;
    grouped(&mut d, &m, "final")?;
    drop(d);
    if let Some(e) = ledger_error() {
        return Err(e);
    }
    if fired == 0 {
        same!(ledger_live(), 0, "elements left after everything was dropped without a panic");
    }
    src.label_if(effect, "an operation took effect in part");
    src.label_if(after > 0, "the history went on after a panic");
    src.nontrivial_if(fired > 0 && after > 0);
    Ok(())
}

pub fn c18(src: &mut Src) -> Res {
    some(src, false)
}
pub fn c18_long(src: &mut Src) -> Res {
    some(src, true)
}
fn some(src: &mut Src, long: bool) -> Res {
    match src.us(3) {
        0 => panicking::<Fnv>(src, long),
        1 => panicking::<Collide>(src, long),
        _ => panicking::<RandomState>(src, long),
    }
}

pub fn c18_clear(src: &mut Src) -> Res {
    ledger_reset();
    let mut d: DS<Tr, Fnv> = DS::new();
    let mut m = Model::default();
    let un = |d: &mut DS<Tr, Fnv>, m: &mut Model, x: usize| {
        let (a, b) = (x as u32 / 3, x as u32 % 3);
        d.union(Tr::new(a), Tr::new(b));
        m.union(a, 0, b, 0);
    };
    let pre: Vec<usize> = (0..2).map(|_| src.us(9)).collect();
    let fuse = src.us(4);
    let post: Vec<usize> = (0..2).map(|_| src.us(9)).collect();
    src.note(|| format!("unions {:?}, clear with drop {} panicking, unions {:?} (a * 3 + b)", pre, fuse, post));
    pre.iter().for_each(|&x| un(&mut d, &mut m, x));
    arm(F_DROP, fuse as i64);
    let r = guarded(|| d.clear());
    disarm();
    if r.is_err() {
        // what is left, if anything, must be a part of what was there
        let s = look(&mut d, 3)?;
        let mut now = Model { m: Default::default(), next: m.next };
        for x in 0..3u32 {
            for y in x..3 {
                let is = s.together[x as usize][y as usize];
                require!(!is || m.same(x, y), "{} and {} are together after a panic in clear", x, y);
                if is {
                    now.union(x, 0, y, 0);
                }
            }
        }
        m = now;
    } else {
        m.m.clear();
    }
    for &x in &post {
        un(&mut d, &mut m, x);
        shows(&mut d, &m, 3, "after clear and a union")?;
    }
    grouped(&mut d, &m, "after clear and unions")?;
    drop(d);
    if let Some(e) = ledger_error() {
        return Err(e);
    }
    src.nontrivial_if(r.is_err());
    Ok(())
}

/// The iterator over groups, driven in every way an iterator can be.
fn protocol<K: RefExtend, S: Hs>(src: &mut Src) -> Res {
    let uni = (src.size(8, 40) as u32).min(K::CARD);
    let mut m = Model::default();
    let mut d: DS<K, S> = DS::new();
    for _ in 0..src.size(8, 40) {
        if uni > 0 {
            let (a, b) = (src.draw(uni as u64) as u32, src.draw(uni as u64) as u32);
            if src.bool() {
                d.union(mk(a), mk(b));
                m.union(a, 0, b, 0);
            } else {
                d.make_set(mk(a));
                m.add(a, 0);
            }
        }
    }
    let total = m.classes().len();
    let mut left = m.classes();
    src.note(|| format!("keys {} hasher {}: {:?}", K::NAME, S::NAME, left));
    let mut it = (&mut d).into_iter();
    let mut got = 0;
    let mut take = |g: std::vec::IntoIter<&K>, src: &mut Src, got: &mut usize| -> Res {
        let n = g.len();
        same!(g.size_hint(), (n, Some(n)), "size hint of a group");
        // from both ends, as the type of the groups allows
        let mut g = g;
        let mut v = Vec::new();
        while let Some(e) = if src.bool() { g.next_back() } else { g.next() } {
            v.push(e.num());
            require!(v.len() <= n, "a group yields more than its length");
        }
        require!(g.next().is_none() && g.next_back().is_none(), "a group goes on after its end");
        v.sort();
        require!(left.remove(&v), "group {:?} is not a class, or is yielded twice", v);
        *got += 1;
        Ok(())
    };
    for _ in 0..src.size(6, 30) {
        let (lo, hi) = it.size_hint();
        require!(lo <= total - got && hi.map_or(true, |h| h >= total - got), "size hint {:?} with {} groups to come", (lo, hi), total - got);
        match src.us(3) {
            0 | 1 => match it.next() {
                Some(g) => take(g, src, &mut got)?,
                None => same!(got, total, "groups before the end"),
            },
            _ => {
                let k = src.us(3);
                src.note(|| format!("nth({})", k));
                match it.nth(k) {
                    Some(g) => {
                        got += k;
                        take(g, src, &mut got)?;
                    }
                    None => {
                        require!(got + k >= total, "nth({}) ends after {} of {} groups", k, got, total);
                        got = total;
                    }
                }
            }
        }
    }
    let end = src.us(4);
    src.note(|| format!("finish: {}", ["count", "for_each", "last", "next until the end, and on"][end]));
    match end {
        0 => same!(it.count(), total - got, "count of the remaining groups"),
        1 => {
            let mut rest = Vec::new();
            it.for_each(|g| rest.push(g));
            same!(got + rest.len(), total, "groups in for_each");
            for g in rest {
                take(g, src, &mut got)?;
            }
        }
        2 => match it.last() {
            Some(g) => {
                require!(got < total, "a group after the last");
                take(g, src, &mut got)?
            }
            None => same!(got, total, "groups before the end"),
        },
        _ => {
            while let Some(g) = it.next() {
                require!(got < total, "more groups than classes");
                take(g, src, &mut got)?;
            }
            same!(got, total, "groups before the end");
            for _ in 0..3 {
                require!(it.next().is_none(), "a group after the end of the iteration");
                require!(it.size_hint().0 == 0, "size hint after the end");
            }
        }
    }
    src.nontrivial_if(total >= 2 && m.largest() >= 2);
    Ok(())
}

pub fn c11_protocol(src: &mut Src) -> Res {
    dispatch!(src, protocol,)
}
