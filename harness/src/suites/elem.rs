//! Element types for the circular buffer suites, and the ledger that tracks the life of instrumented elements.

use std::cell::{Cell, RefCell};
use std::fmt::Debug;
use std::num::NonZeroU32;
use std::rc::Rc;

pub trait Elem: Clone + PartialEq + Debug + Sized {
    const NAME: &'static str;
    /// number of distinguishable values
    const CARD: u32;
    fn make(k: u32) -> Self;
    fn key(&self) -> u32;
    fn norm(k: u32) -> u32 {
        k % Self::CARD
    }
}

macro_rules! elem {
    ($t:ty, $name:expr, $card:expr, $make:expr, $key:expr) => {
        impl Elem for $t {
            const NAME: &'static str = $name;
            const CARD: u32 = $card;
            fn make(k: u32) -> Self {
                let f: fn(u32) -> $t = $make;
                f(k % Self::CARD)
            }
            fn key(&self) -> u32 {
                let f: fn(&$t) -> u32 = $key;
                f(self)
            }
        }
    };
}

static TABLE: [u32; 256] = {
    let mut t = [0u32; 256];
    let mut i = 0;
    while i < 256 {
        t[i] = i as u32 + 7;
        i += 1;
    }
    t
};

#[derive(Clone, PartialEq, Debug)]
#[repr(align(64))]
pub struct Wide(pub u32, pub u8);

#[derive(Clone, PartialEq, Debug, Copy)]
pub enum Fruit {
    Apple = 3,
    Pear = 11,
    Plum = 77,
}

elem!(i64, "i64", 1 << 30, |k| k as i64 - 5, |e| (*e + 5) as u32);
elem!(u8, "u8", 256, |k| k as u8, |e| *e as u32);
elem!(char, "char", 0xD000, |k| std::char::from_u32(k).unwrap(), |e| *e as u32);
elem!(bool, "bool", 2, |k| k == 1, |e| {
    // a bool that is not 0 or 1 would make `as` undefined; look at the byte
    let b = unsafe { *(e as *const bool as *const u8) };
    b as u32
});
elem!((), "()", 1, |_| (), |_| 0);
elem!(String, "String", 1 << 30, |k| format!("s{}", k), |e| e[1..].parse().unwrap_or(u32::MAX));
elem!(Box<u32>, "Box<u32>", 1 << 30, |k| Box::new(k), |e| **e);
elem!(&'static u32, "&u32", 256, |k| &TABLE[k as usize], |e| **e - 7);
elem!(Rc<u32>, "Rc<u32>", 1 << 30, |k| Rc::new(k), |e| **e);
elem!([u64; 9], "[u64;9]", 1 << 30, |k| {
    let mut a = [0u64; 9];
    for i in 0..9 {
        a[i] = k as u64 * 3 + i as u64;
    }
    a
}, |e| {
    for i in 0..9 {
        if e[i] != e[0].wrapping_add(i as u64) {
            return u32::MAX;
        }
    }
    (e[0] / 3) as u32
});
elem!(Wide, "align64", 1 << 30, |k| Wide(k, (k % 251) as u8), |e| {
    if (e as *const Wide as usize) % 64 != 0 || e.1 != (e.0 % 251) as u8 { u32::MAX } else { e.0 }
});
elem!(NonZeroU32, "NonZeroU32", 1 << 30, |k| NonZeroU32::new(k + 1).unwrap(), |e| e.get() - 1);
elem!(Option<Box<u32>>, "Option<Box>", 1 << 30, |k| if k == 0 { None } else { Some(Box::new(k)) }, |e| e.as_ref().map_or(0, |b| **b));
elem!(Fruit, "enum", 3, |k| match k { 0 => Fruit::Apple, 1 => Fruit::Pear, _ => Fruit::Plum }, |e| match e { Fruit::Apple => 0, Fruit::Pear => 1, Fruit::Plum => 2 });
elem!(Vec<u8>, "Vec<u8>", 1 << 30, |k| k.to_le_bytes().to_vec(), |e| if e.len() == 4 { u32::from_le_bytes([e[0], e[1], e[2], e[3]]) } else { u32::MAX });

// ---- ledger ---------------------------------------------------------------------------------------------

#[derive(Default)]
struct Ledger {
    /// 1 = live, 2 = dropped, by id
    state: Vec<u8>,
    live: i64,
    z_made: i64,
    z_dropped: i64,
    error: Option<String>,
}

thread_local! {
    static LEDGER: RefCell<Ledger> = RefCell::new(Ledger::default());
    /// countdown to an injected panic: [clone, drop, eq, iterator, hash]
    static FUSE: [Cell<i64>; 5] = [Cell::new(-1), Cell::new(-1), Cell::new(-1), Cell::new(-1), Cell::new(-1)];
}

pub const F_CLONE: usize = 0;
pub const F_DROP: usize = 1;
pub const F_EQ: usize = 2;
pub const F_ITER: usize = 3;
pub const F_HASH: usize = 4;

pub fn ledger_reset() {
    LEDGER.with(|l| *l.borrow_mut() = Ledger::default());
    disarm();
}
pub fn ledger_error() -> Option<String> {
    LEDGER.with(|l| l.borrow().error.clone())
}
pub fn ledger_live() -> i64 {
    LEDGER.with(|l| l.borrow().live)
}
pub fn z_live() -> i64 {
    LEDGER.with(|l| l.borrow().z_made - l.borrow().z_dropped)
}
fn note(m: String) {
    LEDGER.with(|l| {
        let mut l = l.borrow_mut();
        if l.error.is_none() {
            l.error = Some(m);
        }
    })
}
/// Arms a one-shot panic at the n-th (0-based) following event of the kind.
pub fn arm(kind: usize, n: i64) {
    FUSE.with(|f| f[kind].set(n));
}
pub fn disarm() {
    FUSE.with(|f| f.iter().for_each(|c| c.set(-1)));
}
pub fn armed() -> bool {
    FUSE.with(|f| f.iter().any(|c| c.get() >= 0))
}
pub fn tick(kind: usize) {
    let fire = FUSE.with(|f| {
        let v = f[kind].get();
        if v < 0 {
            false
        } else {
            f[kind].set(v - 1);
            v == 0
        }
    });
    if fire {
        panic!("{}", crate::engine::INJECTED);
    }
}

/// Instrumented element: every creation, clone and drop is entered in the ledger.
pub struct Tr {
    canary: u64,
    id: u32,
    key: u32,
}

const CANARY: u64 = 0x7ac3_ed00_c0de_1234;

impl Tr {
    pub fn new(key: u32) -> Tr {
        let id = LEDGER.with(|l| {
            let mut l = l.borrow_mut();
            l.state.push(1);
            l.live += 1;
            (l.state.len() - 1) as u32
        });
        Tr { canary: CANARY ^ id as u64 ^ ((key as u64) << 32), id, key }
    }
    pub fn id(&self) -> u32 {
        self.id
    }
    /// false (and a ledger error) when this is not a live element
    pub fn probe(&self, what: &str) -> bool {
        if self.canary != CANARY ^ self.id as u64 ^ ((self.key as u64) << 32) {
            note(format!("{} of storage that holds no element", what));
            return false;
        }
        let st = LEDGER.with(|l| l.borrow().state.get(self.id as usize).copied().unwrap_or(0));
        if st != 1 {
            note(format!("{} of an element that was already dropped (id {}, key {})", what, self.id, self.key));
            return false;
        }
        true
    }
}

impl Drop for Tr {
    fn drop(&mut self) {
        if self.probe("drop") {
            LEDGER.with(|l| {
                let mut l = l.borrow_mut();
                l.state[self.id as usize] = 2;
                l.live -= 1;
            });
        }
        if !std::thread::panicking() {
            tick(F_DROP);
        }
    }
}
impl Clone for Tr {
    fn clone(&self) -> Tr {
        self.probe("clone");
        tick(F_CLONE);
        Tr::new(self.key)
    }
}
impl PartialEq for Tr {
    fn eq(&self, o: &Tr) -> bool {
        self.probe("comparison");
        o.probe("comparison");
        tick(F_EQ);
        self.key == o.key
    }
}
impl Eq for Tr {}
impl std::hash::Hash for Tr {
    fn hash<H: std::hash::Hasher>(&self, h: &mut H) {
        self.probe("hashing");
        tick(F_HASH);
        self.key.hash(h)
    }
}
impl PartialOrd for Tr {
    fn partial_cmp(&self, o: &Tr) -> Option<std::cmp::Ordering> {
        self.probe("comparison");
        o.probe("comparison");
        tick(F_EQ);
        self.key.partial_cmp(&o.key)
    }
}
impl Debug for Tr {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        write!(f, "Tr#{}({})", self.id, self.key)
    }
}
impl Elem for Tr {
    const NAME: &'static str = "tracked";
    const CARD: u32 = 1 << 30;
    fn make(k: u32) -> Self {
        Tr::new(k)
    }
    fn key(&self) -> u32 {
        if self.probe("read") { self.key } else { u32::MAX }
    }
}

/// Zero-sized instrumented element (only creation and drop counts can be tracked).
#[derive(Debug)]
pub struct TrZ;

impl Drop for TrZ {
    fn drop(&mut self) {
        let bad = LEDGER.with(|l| {
            let mut l = l.borrow_mut();
            l.z_dropped += 1;
            l.z_dropped > l.z_made
        });
        if bad {
            note("more zero-sized elements dropped than created".into());
        }
        if !std::thread::panicking() {
            tick(F_DROP);
        }
    }
}
impl Clone for TrZ {
    fn clone(&self) -> TrZ {
        tick(F_CLONE);
        TrZ::make(0)
    }
}
impl PartialEq for TrZ {
    fn eq(&self, _o: &TrZ) -> bool {
        true
    }
}
impl Elem for TrZ {
    const NAME: &'static str = "tracked-zst";
    const CARD: u32 = 1;
    fn make(_k: u32) -> Self {
        LEDGER.with(|l| l.borrow_mut().z_made += 1);
        TrZ
    }
    fn key(&self) -> u32 {
        0
    }
}

/// Elements that own heap memory and are tracked as well.
#[derive(Clone, PartialEq, Debug)]
pub struct TrBox(pub Box<Tr>);
impl Elem for TrBox {
    const NAME: &'static str = "tracked-box";
    const CARD: u32 = 1 << 30;
    fn make(k: u32) -> Self {
        TrBox(Box::new(Tr::new(k)))
    }
    fn key(&self) -> u32 {
        self.0.key()
    }
}
