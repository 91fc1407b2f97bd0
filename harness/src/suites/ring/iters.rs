//! C14: the iterators of a circular buffer are proper iterators.

use super::*;

/// What is left of the sequence: positions in the buffer, front to back.
type Left = VecDeque<usize>;

fn same_at(got: Option<usize>, want: Option<usize>, what: &str) -> Res {
    if got == want { Ok(()) } else { Err(format!("{}: got element {:?}, expected {:?}", what, got, want)) }
}

#[derive(Clone, Copy, PartialEq)]
enum Call {
    Next,
    NextBack,
    Nth(usize),
    NthBack(usize),
}

fn take_front(d: &mut Left, k: usize) -> Option<usize> {
    let r = d.get(k).copied();
    d.drain(..d.len().min(k + 1));
    r
}
fn take_back(d: &mut Left, k: usize) -> Option<usize> {
    let n = d.len();
    let r = if k < n { Some(d[n - 1 - k]) } else { None };
    d.truncate(n.saturating_sub(k + 1));
    r
}

/// One call; the element handed out is passed to `got`, which finds out its position.
fn call<I: DoubleEndedIterator>(it: &mut I, d: &mut Left, c: Call, pos: &mut dyn FnMut(I::Item, usize) -> Res) -> Res {
    hint(it, d.len(), "before a call")?;
    let (r, want, what) = match c {
        Call::Next => (it.next(), take_front(d, 0), "next".to_string()),
        Call::NextBack => (it.next_back(), take_back(d, 0), "next_back".to_string()),
        Call::Nth(k) => (it.nth(k), take_front(d, k), format!("nth({})", k)),
        Call::NthBack(k) => (it.nth_back(k), take_back(d, k), format!("nth_back({})", k)),
    };
    hint(it, d.len(), &what)?;
    match (r, want) {
        (Some(e), Some(w)) => pos(e, w),
        (None, None) => Ok(()),
        (r, w) => same_at(r.map(|_| usize::MAX), w, &what),
    }
}
fn call_fwd<I: Iterator>(it: &mut I, d: &mut Left, c: Call, pos: &mut dyn FnMut(I::Item, usize) -> Res) -> Res {
    hint(it, d.len(), "before a call")?;
    let (r, want, what) = match c {
        Call::Next | Call::NextBack => (it.next(), take_front(d, 0), "next".to_string()),
        Call::Nth(k) | Call::NthBack(k) => (it.nth(k), take_front(d, k), format!("nth({})", k)),
    };
    hint(it, d.len(), &what)?;
    match (r, want) {
        (Some(e), Some(w)) => pos(e, w),
        (None, None) => Ok(()),
        (r, w) => same_at(r.map(|_| usize::MAX), w, &what),
    }
}

/// Closing calls of a double-ended iterator.
fn close<I: DoubleEndedIterator>(src: &mut Src, mut it: I, d: &mut Left, pos: &mut dyn FnMut(I::Item, usize) -> Res) -> Res {
    let n = d.len();
    let how = src.us(10);
    src.note(|| format!("then {}", ["poll to the end", "collect", "rev and collect", "count", "last", "fold", "rfold", "skip and step", "zip with its own length", "by_ref().take, then rev"][how]));
    let mut e = Ok(());
    macro_rules! put {
        ($x:expr, $w:expr) => {{
            let x = $x;
            match $w {
                Some(w) => {
                    if e.is_ok() {
                        e = pos(x, w)
                    }
                }
                None => e = Err("more elements than are left".to_string()),
            }
        }};
    }
    match how {
        0 => {
            for i in 0..n + 3 {
                let (r, w) = if i % 2 == 0 { (it.next(), take_front(d, 0)) } else { (it.next_back(), take_back(d, 0)) };
                match (r, w) {
                    (Some(x), Some(w)) => pos(x, w)?,
                    (None, None) => {}
                    (r, w) => same_at(r.map(|_| usize::MAX), w, "polling from both ends")?,
                }
            }
        }
        1 => {
            let v: Vec<I::Item> = it.take(n + 2).collect();
            same!(v.len(), n, "collect: number of elements");
            for x in v {
                put!(x, d.pop_front());
            }
        }
        2 => {
            let v: Vec<I::Item> = it.rev().take(n + 2).collect();
            same!(v.len(), n, "rev: number of elements");
            for x in v {
                put!(x, d.pop_back());
            }
        }
        3 => same!(it.count(), n, "count"),
        4 => {
            let r = it.last();
            match (r, d.pop_back()) {
                (Some(x), Some(w)) => pos(x, w)?,
                (None, None) => {}
                (r, w) => same_at(r.map(|_| usize::MAX), w, "last")?,
            }
        }
        5 => {
            it.fold((), |_, x| put!(x, d.pop_front()));
            same!(d.len(), 0, "elements not visited by fold");
        }
        6 => {
            it.rfold((), |_, x| put!(x, d.pop_back()));
            same!(d.len(), 0, "elements not visited by rfold");
        }
        7 => {
            let (a, b) = (src.us(n + 2), 1 + src.us(4));
            let want: Vec<usize> = d.iter().copied().skip(a).step_by(b).collect();
            let v: Vec<I::Item> = it.skip(a).step_by(b).take(n + 2).collect();
            same!(v.len(), want.len(), "skip({}).step_by({}): number of elements", a, b);
            for (x, w) in v.into_iter().zip(want) {
                pos(x, w)?;
            }
        }
        8 => {
            let v: Vec<(usize, I::Item)> = (0..n + 2).zip(it).collect();
            same!(v.len(), n, "zip: number of elements");
            for (_, x) in v {
                put!(x, d.pop_front());
            }
        }
        _ => {
            let k = src.us(n + 2);
            let v: Vec<I::Item> = it.by_ref().take(k).collect();
            same!(v.len(), n.min(k), "take({}): number of elements", k);
            for x in v {
                put!(x, d.pop_front());
            }
            let v: Vec<I::Item> = it.rev().take(n + 2).collect();
            same!(v.len(), d.len(), "rev of the rest: number of elements");
            for x in v {
                put!(x, d.pop_back());
            }
        }
    }
    e
}

fn note_call(src: &mut Src, c: Call) {
    src.note(|| match c {
        Call::Next => "next".into(),
        Call::NextBack => "next_back".into(),
        Call::Nth(k) => format!("nth({})", k),
        Call::NthBack(k) => format!("nth_back({})", k),
    });
}

/// Runs a program of calls on one kind of iterator over the buffer.
fn program<E: Elem>(src: &mut Src, b: CB<E>, m: &mut Model, kind: usize, calls: &[Call], closing: bool) -> Res {
    let mut b = b;
    let want = m.vec();
    let n = want.len();
    let mut d: Left = (0..n).collect();
    src.note(|| ["iter", "&buffer", "iter_mut", "&mut buffer", "into_iter", "drain", "reversed iter", "reversed iter_mut"][kind].to_string());
    for &c in calls {
        note_call(src, c);
    }
    macro_rules! borrowed {
        ($it:expr) => {{
            let mut it = $it;
            let mut pos = |e: &E, w: usize| -> Res {
                if e.key() != want[w] || (std::mem::size_of::<E>() > 0 && !std::ptr::eq(e, &b[w])) { Err(format!("got element {}, expected element {} of {:?}", e.key(), w, want)) } else { Ok(()) }
            };
            for &c in calls {
                call(&mut it, &mut d, c, &mut pos)?;
            }
            if closing {
                close(src, it, &mut d, &mut pos)?;
            } else {
                // the end stays the end
                let left = d.len();
                for _ in 0..left {
                    call(&mut it, &mut d, Call::Next, &mut pos)?;
                }
                for c in [Call::Next, Call::NextBack, Call::Next, Call::Nth(1), Call::NthBack(0)] {
                    call(&mut it, &mut d, c, &mut pos)?;
                }
            }
        }};
    }
    macro_rules! mutable {
        ($it:expr) => {{
            let mut handed: Vec<(usize, &mut E)> = Vec::new();
            {
                let mut it = $it;
                let mut pos = |e, w: usize| -> Res {
                    let e: &mut E = e;
                    if e.key() != want[w] {
                        return Err(format!("got element {}, expected element {} of {:?}", e.key(), w, want));
                    }
                    handed.push((w, e));
                    Ok(())
                };
                for &c in calls {
                    call(&mut it, &mut d, c, &mut pos)?;
                }
                if closing {
                    close(src, it, &mut d, &mut pos)?;
                } else {
                    let left = d.len();
                    for _ in 0..left {
                        call(&mut it, &mut d, Call::Next, &mut pos)?;
                    }
                    for c in [Call::Next, Call::NextBack, Call::Nth(1), Call::NthBack(0)] {
                        call(&mut it, &mut d, c, &mut pos)?;
                    }
                }
            }
            if std::mem::size_of::<E>() > 0 {
                let mut at: Vec<*const E> = handed.iter().map(|h| &*h.1 as *const E).collect();
                at.sort();
                require!(at.windows(2).all(|w| w[0] != w[1]), "two of the mutable references handed out are the same");
            }
            // write through all of them, last handed out first
            for (w, e) in handed.iter_mut().rev() {
                let k = 700 + *w as u32;
                **e = E::make(k);
                m.q[*w] = E::norm(k);
            }
        }};
    }
    macro_rules! owned {
        ($it:expr) => {{
            let mut it = $it;
            let mut pos = |e: E, w: usize| -> Res { if e.key() == want[w] { Ok(()) } else { Err(format!("got element {}, expected element {} of {:?}", e.key(), w, want)) } };
            for &c in calls {
                call_fwd(&mut it, &mut d, c, &mut pos)?;
            }
            if closing {
                // the rest, in one of the usual ways
                let mut q: VecDeque<u32> = d.iter().map(|&i| want[i]).collect();
                let way = src.us(6);
                finish(src, it, &mut q, way, "the rest")?;
                d = d.split_off(d.len() - q.len());
            } else {
                let left = d.len();
                for _ in 0..left + 3 {
                    call_fwd(&mut it, &mut d, Call::Next, &mut pos)?;
                }
                call_fwd(&mut it, &mut d, Call::Nth(2), &mut pos)?;
            }
        }};
    }
    match kind {
        0 => borrowed!(b.iter()),
        1 => borrowed!((&b).into_iter()),
        2 => mutable!(b.iter_mut()),
        3 => mutable!((&mut b).into_iter()),
        4 => {
            owned!(b.into_iter());
            return Ok(());
        }
        5 => {
            owned!(b.drain());
            let rest: VecDeque<u32> = d.iter().map(|&i| want[i]).collect();
            m.q = rest;
        }
        6 => {
            d = d.into_iter().rev().collect();
            borrowed!(b.iter().rev())
        }
        _ => {
            d = d.into_iter().rev().collect();
            mutable!(b.iter_mut().rev())
        }
    }
    aftermath(&mut b, m, "after iterating")
}

pub fn small(src: &mut Src) -> Res {
    let s = pick_shape(src, 3);
    let kind = src.us(6);
    let calls: Vec<Call> = (0..if src.scale == 1 { 5 } else { 4 })
        .map(|_| match src.us(8) {
            0 => Call::Next,
            1 => Call::NextBack,
            k if k < 5 => Call::Nth(k - 2),
            k => Call::NthBack(k - 5),
        })
        .collect();
    let (b, mut m) = layout::<i64>(s.cap, s.rot, s.len, 1, 0);
    src.nontrivial_if(s.len > 0);
    program(src, b, &mut m, kind, &calls, false)
}

fn random_of<E: Elem>(src: &mut Src) -> Res {
    let s = random_shape(src, 8, 80);
    calls_of::<E>(src, s)
}
fn calls_of<E: Elem>(src: &mut Src, s: Shape) -> Res {
    let kind = src.us(8);
    let route = src.draw(2);
    let (b, mut m) = layout::<E>(s.cap, s.rot, s.len, 1, route);
    src.note(|| format!("CircularBuffer<{}> capacity {} rotation {} length {}", E::NAME, s.cap, s.rot, s.len));
    let n = m.q.len();
    let seam = b.slices().0.len();
    let calls: Vec<Call> = (0..src.size(5, 24))
        .map(|_| match src.us(8) {
            0..=2 => Call::Next,
            3..=5 => Call::NextBack,
            c => {
                // nth mostly short, sometimes to the seam between the two parts or past the end
                let k = match src.us(6) {
                    0..=2 => src.us(4),
                    3 => seam.saturating_sub(src.us(3)),
                    4 => (n - seam.min(n)).saturating_sub(src.us(3)),
                    _ => src.us(n + 3),
                };
                if c == 6 { Call::Nth(k) } else { Call::NthBack(k) }
            }
        })
        .collect();
    let both = calls.iter().any(|c| matches!(c, Call::Next | Call::Nth(_))) && calls.iter().any(|c| matches!(c, Call::NextBack | Call::NthBack(_)));
    src.label_if(!b.slices().1.is_empty(), "wrapped");
    src.label_if(both && kind != 4 && kind != 5, "calls from both ends");
    src.nontrivial_if(n > 0 && (both || calls.len() > 3));
    program(src, b, &mut m, kind, &calls, true)
}

pub fn large(src: &mut Src) -> Res {
    let s = large::big_shape(src);
    match src.us(4) {
        0 => calls_of::<i64>(src, s),
        1 => calls_of::<u8>(src, s),
        2 => calls_of::<Box<u32>>(src, s),
        _ => calls_of::<()>(src, s),
    }
}
pub fn random(src: &mut Src) -> Res {
    match src.us(5) {
        0 => random_of::<i64>(src),
        1 => random_of::<String>(src),
        2 => random_of::<u8>(src),
        3 => random_of::<Wide>(src),
        _ => random_of::<()>(src),
    }
}
