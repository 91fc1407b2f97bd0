//! Key types and hashers for the disjoint set and counter suites.

use fnv::FnvBuildHasher;
use std::collections::hash_map::{DefaultHasher, RandomState};
use std::fmt::Debug;
use std::hash::{BuildHasher, BuildHasherDefault, Hash, Hasher};
use std::rc::Rc;

pub trait Key: Clone + Eq + Hash + Debug {
    const NAME: &'static str;
    /// number of distinct keys
    const CARD: u32;
    /// the key number k; `tag` is carried by types whose equal values can be told apart
    fn make(k: u32, tag: u32) -> Self;
    fn num(&self) -> u32;
    fn tag(&self) -> Option<u32> {
        None
    }
}

macro_rules! key {
    ($t:ty, $name:expr, $card:expr, $make:expr, $num:expr) => {
        impl Key for $t {
            const NAME: &'static str = $name;
            const CARD: u32 = $card;
            fn make(k: u32, _tag: u32) -> Self {
                let f: fn(u32) -> $t = $make;
                f(k % Self::CARD)
            }
            fn num(&self) -> u32 {
                let f: fn(&$t) -> u32 = $num;
                f(self)
            }
        }
    };
}

// consecutive, negative, widely spaced and colliding-looking values
key!(i32, "i32", 1 << 20, |k| if k % 2 == 0 { (k / 2) as i32 } else { -1 - (k / 2) as i32 }, |k| if *k >= 0 { *k as u32 * 2 } else { (-1 - *k) as u32 * 2 + 1 });
key!(u8, "u8", 256, |k| 255 - k as u8, |k| 255 - *k as u32);
key!(u64, "u64", 1 << 20, |k| (k as u64) << 40 | 0x1234, |k| (*k >> 40) as u32);
key!(char, "char", 0xD000, |k| std::char::from_u32(k).unwrap(), |k| *k as u32);
key!(String, "String", 1 << 20, |k| format!("k{}", k), |k| k[1..].parse().unwrap_or(u32::MAX));
key!((u8, String), "(u8,String)", 1 << 20, |k| ((k % 3) as u8, format!("{}", k / 3)), |k| k.1.parse::<u32>().unwrap_or(0) * 3 + k.0 as u32);
key!(Rc<i64>, "Rc<i64>", 1 << 20, |k| Rc::new(k as i64 - 3), |k| (**k + 3) as u32);
key!((), "()", 1, |_| (), |_| 0);

/// Equal values that can be told apart.
#[derive(Clone, Debug)]
pub struct Tagged {
    pub k: u32,
    pub tag: u32,
}
impl PartialEq for Tagged {
    fn eq(&self, o: &Tagged) -> bool {
        self.k == o.k
    }
}
impl Eq for Tagged {}
impl Hash for Tagged {
    fn hash<H: Hasher>(&self, h: &mut H) {
        self.k.hash(h)
    }
}
impl Key for Tagged {
    const NAME: &'static str = "Tagged";
    const CARD: u32 = 1 << 20;
    fn make(k: u32, tag: u32) -> Self {
        Tagged { k: k % Self::CARD, tag }
    }
    fn num(&self) -> u32 {
        self.k
    }
    fn tag(&self) -> Option<u32> {
        Some(self.tag)
    }
}

/// Every key collides.
#[derive(Clone, Default)]
pub struct ConstHasher;
impl Hasher for ConstHasher {
    fn finish(&self) -> u64 {
        7
    }
    fn write(&mut self, _b: &[u8]) {}
}

/// A hash builder with a seed of its own per instance, compared by seed.
#[derive(Clone, PartialEq, Eq, Debug)]
pub struct Seeded(u64);
thread_local! {
    static SEED: std::cell::Cell<u64> = std::cell::Cell::new(1);
}
impl Default for Seeded {
    fn default() -> Self {
        Seeded(SEED.with(|s| {
            s.set(s.get().wrapping_mul(0x9E37_79B9_7F4A_7C15).wrapping_add(99991));
            s.get()
        }))
    }
}
impl BuildHasher for Seeded {
    type Hasher = DefaultHasher;
    fn build_hasher(&self) -> DefaultHasher {
        let mut h = DefaultHasher::new();
        h.write_u64(self.0);
        h
    }
}

pub trait Hs: BuildHasher + Default + Clone {
    const NAME: &'static str;
}
pub type Sip = BuildHasherDefault<DefaultHasher>;
pub type Fnv = FnvBuildHasher;
pub type Collide = BuildHasherDefault<ConstHasher>;
impl Hs for Own {
    const NAME: &'static str = "own";
}
impl Hs for RandomState {
    const NAME: &'static str = "random";
}
impl Hs for Sip {
    const NAME: &'static str = "sip";
}
impl Hs for Fnv {
    const NAME: &'static str = "fnv";
}
impl Hs for Collide {
    const NAME: &'static str = "all-collide";
}
impl Hs for Seeded {
    const NAME: &'static str = "seeded";
}

/// References to the elements in which equal elements are one object: repeated references, as in `repeat(&x)`.
pub fn palette<'a, K>(ks: &[u32], kv: &'a [K]) -> Vec<&'a K> {
    let mut first: std::collections::HashMap<u32, usize> = Default::default();
    ks.iter().enumerate().map(|(i, &k)| &kv[*first.entry(k).or_insert(i)]).collect()
}

/// A keyed hash builder, whose default has a key nobody asks for.
#[derive(Debug)]
pub struct Own {
    pub key: u64,
}
impl Default for Own {
    fn default() -> Own {
        Own { key: 0 }
    }
}
thread_local! {
    static USED: std::cell::RefCell<std::collections::BTreeMap<u64, u64>> = Default::default();
}
impl Clone for Own {
    fn clone(&self) -> Own {
        Own { key: self.key }
    }
}
impl BuildHasher for Own {
    type Hasher = DefaultHasher;
    fn build_hasher(&self) -> Self::Hasher {
        USED.with(|u| *u.borrow_mut().entry(self.key).or_insert(0) += 1);
        let mut h = Self::Hasher::new();
        h.write_u64(self.key);
        h
    }
}

/// Runs `f`, during which elements may be hashed by the builder `key` only.
pub fn only<R>(key: u64, what: &str, f: impl FnOnce() -> R) -> Result<R, String> {
    only_of(&[key], what, f)
}

/// Runs `f`, during which elements may be hashed by the builders `keys` only.
pub fn only_of<R>(keys: &[u64], what: &str, f: impl FnOnce() -> R) -> Result<R, String> {
    USED.with(|u| u.borrow_mut().clear());
    let r = f();
    let used: Vec<u64> = USED.with(|u| u.borrow().keys().copied().collect());
    if !used.iter().all(|k| keys.contains(k)) {
        return Err(format!("{}: hashed by builders {:?}, not only by {:?}", what, used, keys));
    }
    Ok(r)
}
