//! Drop-observing values and the ledger that records what happens to them.
use std::cell::RefCell;
use std::cmp::Ordering;
use std::hash::{Hash, Hasher};

const MAGIC: u32 = 0x5ca1_ab1e;

#[derive(Default)]
pub struct Ledger {
    /// 0 = never created, 1 = live, 2 = dropped
    state: Vec<u8>,
    pub drops: Vec<u64>,
    pub created: Vec<u64>,
    pub bad: u64,
    pub live: u64,
    /// countdown to a panic in a clone / a destructor (0 = off)
    pub clone_fuse: u64,
    pub drop_fuse: u64,
    /// the next `default()` panics; how often `default()` was called
    pub default_fuse: bool,
    pub defaults: u64,
    pub quiet: bool,
}

thread_local! {
    pub static LEDGER: RefCell<Ledger> = RefCell::new(Ledger::default());
}

pub fn with<R>(f: impl FnOnce(&mut Ledger) -> R) -> R {
    LEDGER.with(|l| f(&mut l.borrow_mut()))
}

/// Start of a session: forget everything, reserve room so that the ledger itself never allocates
/// while the library runs.
pub fn reset() {
    with(|l| {
        let mut state = std::mem::take(&mut l.state);
        state.clear();
        state.reserve(1 << 16);
        state.push(0);
        *l = Ledger {
            state,
            drops: Vec::with_capacity(1 << 12),
            created: Vec::with_capacity(1 << 12),
            ..Ledger::default()
        };
    });
}

pub fn quiet<R>(f: impl FnOnce() -> R) -> R {
    let old = with(|l| std::mem::replace(&mut l.quiet, true));
    let r = f();
    with(|l| l.quiet = old);
    r
}

/// A value the maps hold: its payload is what the property is about, its identity who owns it.
pub trait Value:
    Clone + Default + PartialEq + Hash + PartialOrd + std::fmt::Debug + serde::Serialize + for<'a> serde::Deserialize<'a> + 'static
{
    fn make(p: u32) -> Self;
    fn p(&self) -> u32;
    fn id(&self) -> u64;
    fn set(&mut self, p: u32);
}

fn fresh() -> u64 {
    with(|l| {
        let id = l.state.len() as u64;
        l.state.push(1);
        l.live += 1;
        if !l.quiet {
            l.created.push(id);
        }
        id
    })
}

fn gone(magic: bool, id: u64) {
    let panic = with(|l| {
        if magic && l.state.get(id as usize) == Some(&1) {
            l.state[id as usize] = 2;
            l.live -= 1;
        } else {
            l.bad += 1;
        }
        if !l.quiet {
            l.drops.push(if magic { id } else { 0 });
        }
        if l.drop_fuse > 0 && !l.quiet {
            l.drop_fuse -= 1;
            l.drop_fuse == 0
        } else {
            false
        }
    });
    if panic && !std::thread::panicking() {
        panic!("injected: destructor");
    }
}

fn clone_tick() {
    let panic = with(|l| {
        if l.clone_fuse > 0 {
            l.clone_fuse -= 1;
            l.clone_fuse == 0
        } else {
            false
        }
    });
    if panic {
        panic!("injected: clone");
    }
}

fn default_tick() {
    let panic = with(|l| {
        l.defaults += 1;
        std::mem::replace(&mut l.default_fuse, false)
    });
    if panic {
        panic!("injected: default");
    }
}

/// The usual value: larger than a word, with a destructor.
pub struct Val {
    magic: u32,
    p: u32,
    id: u64,
}
impl Value for Val {
    fn make(p: u32) -> Self {
        Val { magic: MAGIC, p, id: fresh() }
    }
    fn p(&self) -> u32 {
        self.p
    }
    fn id(&self) -> u64 {
        self.id
    }
    fn set(&mut self, p: u32) {
        self.p = p;
    }
}
impl Drop for Val {
    fn drop(&mut self) {
        gone(self.magic == MAGIC, self.id);
    }
}

/// Plain data, no destructor.
pub struct Plain {
    p: u32,
    id: u64,
}
impl Value for Plain {
    fn make(p: u32) -> Self {
        Plain { p, id: fresh() }
    }
    fn p(&self) -> u32 {
        self.p
    }
    fn id(&self) -> u64 {
        self.id
    }
    fn set(&mut self, p: u32) {
        self.p = p;
    }
}

/// No destructor, no room beside the payload, a niche where an absent value may be kept.
pub struct Niche(std::num::NonZeroU32);
impl Value for Niche {
    fn make(p: u32) -> Self {
        fresh();
        Niche(std::num::NonZeroU32::new(p).expect("payloads are not zero"))
    }
    fn p(&self) -> u32 {
        self.0.get()
    }
    fn id(&self) -> u64 {
        0
    }
    fn set(&mut self, p: u32) {
        *self = Niche(std::num::NonZeroU32::new(p).expect("payloads are not zero"));
    }
}

/// On the heap.
pub struct Heap(Box<Val>);
impl Value for Heap {
    fn make(p: u32) -> Self {
        Heap(Box::new(Val::make(p)))
    }
    fn p(&self) -> u32 {
        self.0.p
    }
    fn id(&self) -> u64 {
        self.0.id
    }
    fn set(&mut self, p: u32) {
        self.0.p = p;
    }
}

/// Large, strictly aligned.
#[repr(align(64))]
pub struct Large {
    head: [u64; 20],
    v: Val,
}
impl Value for Large {
    fn make(p: u32) -> Self {
        Large { head: [u64::from(p); 20], v: Val::make(p) }
    }
    fn p(&self) -> u32 {
        let ok = self.head.iter().all(|x| *x == u64::from(self.v.p)) && (self as *const Self as usize) % 64 == 0;
        if ok {
            self.v.p
        } else {
            0
        }
    }
    fn id(&self) -> u64 {
        self.v.id
    }
    fn set(&mut self, p: u32) {
        self.head = [u64::from(p); 20];
        self.v.p = p;
    }
}

/// Of size zero, with a destructor.
pub struct Zero;
impl Value for Zero {
    fn make(_: u32) -> Self {
        fresh();
        Zero
    }
    fn p(&self) -> u32 {
        super::DEFAULT_P
    }
    fn id(&self) -> u64 {
        0
    }
    fn set(&mut self, _: u32) {}
}
impl Drop for Zero {
    fn drop(&mut self) {
        with(|l| {
            if l.live == 0 {
                l.bad += 1;
            } else {
                l.live -= 1;
            }
        });
    }
}

macro_rules! traits {
    ($($t:ident),*) => {$(
        impl Clone for $t {
            fn clone(&self) -> $t {
                clone_tick();
                $t::make(self.p())
            }
        }
        impl Default for $t {
            fn default() -> $t {
                default_tick();
                $t::make(super::DEFAULT_P)
            }
        }
        impl std::fmt::Debug for $t {
            fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
                write!(f, "{}", self.p())
            }
        }
        impl PartialEq for $t {
            fn eq(&self, other: &$t) -> bool {
                self.p() == other.p() && self.p() != super::ODD_P
            }
        }
        impl Eq for $t {}
        impl Hash for $t {
            fn hash<H: Hasher>(&self, h: &mut H) {
                self.p().hash(h);
            }
        }
        impl PartialOrd for $t {
            fn partial_cmp(&self, other: &$t) -> Option<Ordering> {
                Some(self.cmp(other))
            }
        }
        impl Ord for $t {
            fn cmp(&self, other: &$t) -> Ordering {
                self.p().cmp(&other.p())
            }
        }
        impl serde::Serialize for $t {
            fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
                s.serialize_u32(self.p())
            }
        }
        impl<'de> serde::Deserialize<'de> for $t {
            fn deserialize<D: serde::Deserializer<'de>>(d: D) -> Result<$t, D::Error> {
                u32::deserialize(d).map($t::make)
            }
        }
    )*};
}
traits!(Val, Plain, Niche, Heap, Large, Zero);
