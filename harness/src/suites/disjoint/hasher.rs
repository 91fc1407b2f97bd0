//! C19: the hash builder in use.

use super::*;

fn hashers<K: RefExtend>(src: &mut Src, long: bool) -> Res {
    let uni = (src.range(1, 9) as u32).min(K::CARD);
    let key = 1 + src.draw(3);
    let own = Own { key };
    let cap = if src.chance(1, 8) { src.size(300, 3000) as usize } else { src.us(30) };
    src.note(|| format!("keys {}: builder {}", K::NAME, key));
    let with_cap = src.bool();
    let mut d: DS<K, Own> = only(key, "construction", || if with_cap { DS::with_capacity_and_hasher(cap, own) } else { DS::with_hasher(own) })?;
    let mut m = Model::default();
    let mut kinds = 0u32;
    let n = if long { 0 } else { src.size(8, 24) };
    let focus = if long { src.us(10) } else { 8 };
    super::super::repeat(src, long, n, |src| {
        let op = if focus < 8 && src.bool() { focus } else { src.us(8) };
        let (a, b) = (src.draw(uni as u64) as u32, src.draw(uni as u64) as u32);
        let list: Vec<u32> = if op == 2 { (0..src.us(12)).map(|_| src.draw(uni as u64) as u32).collect() } else { vec![] };
        src.note(|| format!("{} {} {} {:?}", ["union", "make_set", "extend", "in_union and contains", "clear", "iterate", "continue on a clone", "reserve"][op], a, b, list));
        kinds |= 1 << op;
        let what = "an operation";
        match op {
            0 => {
                only(key, what, || d.union(mk(a), mk(b)))?;
                m.union(a, 0, b, 0);
            }
            1 => {
                only(key, what, || d.make_set(mk(a)))?;
                m.add(a, 0);
            }
            2 => {
                only(key, what, || d.extend(list.iter().map(|&k| mk::<K>(k))))?;
                list.iter().for_each(|&k| m.add(k, 0));
            }
            3 => {
                let r = only(key, what, || (d.in_union(&mk(a), &mk(b)), d.contains(&mk(a))))?;
                same!(r, (m.same(a, b), m.m.contains_key(&a)), "in_union({}, {}) and contains({})", a, b, a);
            }
            4 => {
                only(key, what, || d.clear())?;
                m.m.clear();
            }
            5 => {
                let n = only(key, what, || (&mut d).into_iter().take(m.m.len() + 1).count())?;
                same!(n, m.classes().len(), "number of groups");
            }
            6 if long => {
                let mut c = only(key, what, || d.clone())?;
                let r = only(key, "a clone", || (c.in_union(&mk(a), &mk(b)), c.contains(&mk(a))))?;
                same!(r, (m.same(a, b), m.m.contains_key(&a)), "in_union({}, {}) and contains({}) of a clone", a, b, a);
            }
            6 => d = only(key, what, || d.clone())?,
            _ => only(key, what, || d.reserve(a as usize * if b == 0 { 400 } else { 9 }))?,
        }
        Ok(())
    })?;
    only(key, "queries at the end", || -> Res {
        members(&d, &m, uni, "at the end")?;
        all_pairs(&mut d, &m, uni, 0, "at the end")?;
        groups_shape(&mut d, &m)
    })??;
    src.nontrivial_if(kinds.count_ones() >= 3 && m.m.len() >= 2);
    Ok(())
}

fn groups_shape<K: RefExtend>(d: &mut DS<K, Own>, m: &Model) -> Res {
    let mut sizes: Vec<usize> = (&mut *d).into_iter().map(|g| g.count()).collect();
    sizes.sort();
    let mut want: Vec<usize> = m.classes().iter().map(|c| c.len()).collect();
    want.sort();
    same!(sizes, want, "sizes of the groups");
    Ok(())
}

pub fn c19(src: &mut Src) -> Res {
    some(src, false)
}
pub fn c19_long(src: &mut Src) -> Res {
    some(src, true)
}
fn some(src: &mut Src, long: bool) -> Res {
    match src.us(5) {
        0 => hashers::<i32>(src, long),
        1 => hashers::<String>(src, long),
        2 => hashers::<Tagged>(src, long),
        3 => hashers::<u8>(src, long),
        _ => hashers::<(u8, String)>(src, long),
    }
}
