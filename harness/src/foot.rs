//! Footprint sessions: heap operations and sizes while a map and a set are used.
use super::alloc::counted;
use super::kt::KT;
use super::J;
use fixed_map::map::{OccupiedEntry, VacantEntry};
use fixed_map::{Map, Set};
use serde_json::json;
use std::fmt::Write;

/// What the values of a footprint session can do.
pub trait FV:
    Copy + Default + Ord + std::hash::Hash + std::fmt::Debug + serde::Serialize + serde::Deserialize<'static> + 'static
{
    fn of(x: u64) -> Self;
    fn get(&self) -> u64;
    fn bump(&mut self) {
        *self = Self::of(self.get().wrapping_add(1));
    }
}
impl FV for u64 {
    fn of(x: u64) -> u64 {
        x
    }
    fn get(&self) -> u64 {
        *self
    }
}
/// A value larger than anything that might be moved inline.
#[derive(Clone, Copy, Default, PartialEq, Eq, PartialOrd, Ord, Hash, Debug, serde::Serialize, serde::Deserialize)]
#[serde(from = "u64", into = "u64")]
pub struct Big([u64; 20]);
impl From<u64> for Big {
    fn from(x: u64) -> Big {
        Big([x; 20])
    }
}
impl From<Big> for u64 {
    fn from(x: Big) -> u64 {
        x.0[0]
    }
}
impl FV for Big {
    fn of(x: u64) -> Big {
        x.into()
    }
    fn get(&self) -> u64 {
        self.0[19]
    }
}

/// Where printing goes: nowhere.
struct Nowhere(u64);
impl Write for Nowhere {
    fn write_str(&mut self, s: &str) -> std::fmt::Result {
        self.0 += s.len() as u64;
        Ok(())
    }
}
/// What hashing is fed to.
#[derive(Default)]
pub struct Sum(u64);
impl std::hash::Hasher for Sum {
    fn finish(&self) -> u64 {
        self.0
    }
    fn write(&mut self, b: &[u8]) {
        self.0 = b.iter().fold(self.0, |a, x| a.wrapping_mul(31) ^ u64::from(*x));
    }
}

/// One step of a footprint session: operation number, key number.
#[derive(Clone, Copy)]
pub struct Step(pub usize, pub usize);

pub const OPS: &[&str] = &[
    "new", "insert", "remove", "get", "get_mut", "contains", "clear", "retain", "entry_or", "entry_occ", "entry_key", "iter",
    "keys", "values", "iter_mut", "values_mut", "into_iter", "len", "clone", "eq", "cmp", "hash", "rev", "debug", "collect",
    "find", "ser", "de", "s_new", "s_insert", "s_remove", "s_contains", "s_clear", "s_retain", "s_iter", "s_into_iter", "s_len",
    "s_inter", "s_inter_all", "s_clone", "s_eq", "s_cmp", "s_hash", "s_rev", "s_raw", "s_debug", "s_collect", "s_array", "s_ser", "s_de",
];

/// (heap operations, size of the map in bytes, size of the set in bytes) per step
pub type Run = fn(&[Step], &mut Vec<(u64, usize, usize)>);

pub fn run<K: KT, V: FV>(steps: &[Step], out: &mut Vec<(u64, usize, usize)>) {
    let mut m: Map<K, V> = Map::new();
    let mut s: Set<K> = Set::new();
    let ks = K::all();
    let mut sink = 0u64;
    for Step(op, k) in steps {
        let key = ks[*k - 1];
        let name = OPS[*op];
        // everything the caller allocates is there before and stays until afterwards
        let mut buf: Vec<u8> = Vec::new();
        let mut bytes: &'static [u8] = &[];
        #[cfg(feature = "m_view")]
        match name {
            "ser" | "s_ser" => buf.reserve(1 << 16),
            "de" => bytes = super::wire::to_bytes(&m).expect("serialize").leak(),
            "s_de" => bytes = super::wire::to_bytes(&s).expect("serialize").leak(),
            _ => {}
        }
        let ((), n) = counted(|| match name {
            "new" => m = Map::new(),
            "insert" => sink ^= m.insert(key, V::of(5)).map_or(0, |v| v.get()),
            "remove" => sink ^= m.remove(key).map_or(0, |v| v.get()),
            "get" => sink ^= m.get(key).map_or(0, |v| v.get()),
            "get_mut" => {
                if let Some(v) = m.get_mut(key) {
                    v.bump();
                }
            }
            "contains" => sink ^= u64::from(m.contains_key(key)),
            "clear" => m.clear(),
            "retain" => {
                let mut i = 0;
                m.retain(|_, v| {
                    i += 1;
                    v.bump();
                    i % 3 != 0
                });
            }
            "entry_or" => {
                m.entry(key).and_modify(|v| v.bump()).or_insert(V::of(3)).bump();
                m.entry(key).or_default().bump();
                m.entry(key).or_insert_with(|| V::of(4)).bump();
            }
            "entry_occ" => match m.entry(key) {
                fixed_map::map::Entry::Occupied(mut e) => {
                    sink ^= e.insert(V::of(7)).get();
                    sink ^= e.remove().get();
                }
                fixed_map::map::Entry::Vacant(e) => {
                    e.insert(V::of(8));
                }
            },
            "entry_key" => {
                sink ^= u64::from(m.entry(key).key() == key);
                m.entry(key).or_insert_with_key(|k| V::of(u64::from(k == key))).bump();
                if let fixed_map::map::Entry::Occupied(mut e) = m.entry(key) {
                    sink ^= u64::from(e.key() == key) + e.get().get();
                    e.get_mut().bump();
                    e.into_mut().bump();
                }
            }
            #[cfg(feature = "m_view")]
            "iter" => m.iter().for_each(|(_, v)| sink ^= v.get()),
            #[cfg(feature = "m_view")]
            "keys" => sink ^= m.keys().count() as u64,
            #[cfg(feature = "m_view")]
            "values" => sink ^= m.values().map(|v| v.get()).fold(0, u64::wrapping_add),
            #[cfg(feature = "m_view")]
            "iter_mut" => m.iter_mut().for_each(|(_, v)| v.bump()),
            #[cfg(feature = "m_view")]
            "values_mut" => m.values_mut().for_each(|v| v.bump()),
            #[cfg(feature = "m_view")]
            "into_iter" => {
                let t = std::mem::replace(&mut m, Map::new());
                let mut it = t.into_iter();
                sink ^= it.next().map_or(0, |x| x.1.get());
                for (k, v) in it {
                    m.insert(k, v);
                }
            }
            #[cfg(feature = "m_view")]
            "find" => sink ^= u64::from(m.iter().find(|(_, v)| v.get() > 4).is_some()) + m.iter().size_hint().0 as u64,
            "len" => sink ^= m.len() as u64 + u64::from(m.is_empty()),
            #[cfg(feature = "m_foot")]
            "clone" | "eq" | "cmp" | "hash" | "rev" | "s_clone" | "s_eq" | "s_cmp" | "s_hash" | "s_rev" | "s_raw" => {
                sink ^= K::f_op(&mut m, &mut s, name, key);
            }
            #[cfg(feature = "m_view")]
            "debug" => {
                let mut w = Nowhere(0);
                let _ = write!(w, "{m:?} {m:#?} {:?} {:?}", m.len(), m.is_empty());
                sink ^= w.0;
            }
            #[cfg(feature = "m_view")]
            "s_debug" => {
                let o: Set<K> = Set::from([key]);
                let mut w = Nowhere(0);
                let _ = write!(w, "{s:?} {s:#?} {:?}", s.intersection(&o));
                sink ^= w.0;
            }
            #[cfg(feature = "m_view")]
            "ser" => super::wire::write_to(&mut buf, &m).expect("serialize"),
            #[cfg(feature = "m_view")]
            "s_ser" => super::wire::write_to(&mut buf, &s).expect("serialize"),
            #[cfg(feature = "m_view")]
            "de" => m = super::wire::from_static(bytes).expect("deserialize"),
            #[cfg(feature = "m_view")]
            "s_de" => s = super::wire::from_static(bytes).expect("deserialize"),
            #[cfg(feature = "m_view")]
            "s_array" => s = Set::from([key, ks[0], key, ks[ks.len() - 1]]),
            #[cfg(feature = "m_view")]
            "s_inter_all" => {
                let mut it = s.intersection(&s);
                sink ^= u64::from(it.next().is_some());
                sink ^= it.clone().fold(0, |a, _| a + 1) ^ it.clone().size_hint().0 as u64;
                sink ^= u64::from(it.nth(1).is_some());
                for k in it {
                    sink ^= u64::from(k == key);
                }
            }
            #[cfg(feature = "m_view")]
            "collect" => m = m.iter().map(|(k, v)| (k, *v)).collect(),
            "s_new" => s = Set::new(),
            "s_insert" => sink ^= u64::from(s.insert(key)),
            "s_remove" => sink ^= u64::from(s.remove(key)),
            "s_contains" => sink ^= u64::from(s.contains(key)),
            "s_clear" => s.clear(),
            "s_retain" => {
                let mut i = 0;
                s.retain(|_| {
                    i += 1;
                    i % 3 != 0
                });
            }
            #[cfg(feature = "m_view")]
            "s_iter" => sink ^= s.iter().count() as u64,
            #[cfg(feature = "m_view")]
            "s_into_iter" => {
                let t = std::mem::replace(&mut s, Set::new());
                let mut it = t.into_iter();
                sink ^= u64::from(it.next().is_some());
                for k in it {
                    s.insert(k);
                }
            }
            "s_len" => sink ^= s.len() as u64 + u64::from(s.is_empty()),
            #[cfg(feature = "m_view")]
            "s_inter" => {
                let o: Set<K> = Set::from([key]);
                sink ^= s.intersection(&o).count() as u64 + o.intersection(&s).size_hint().0 as u64;
            }
            #[cfg(feature = "m_view")]
            "s_collect" => s = s.iter().collect(),
            _ => {}
        });
        out.push((n, std::mem::size_of_val(&m), std::mem::size_of_val(&s)));
    }
    std::hint::black_box(sink);
    // dropping both is counted as a last step
    let (ms, ss) = (std::mem::size_of_val(&m), std::mem::size_of_val(&s));
    let ((), n) = counted(move || {
        drop(m);
        drop(s);
    });
    out.push((n, ms, ss));
}

/// Operations: [name, key]
pub fn session(t: &super::Ty, ops: &[J], big: bool) {
    let steps: Vec<Step> = ops
        .iter()
        .filter_map(|o| Some(Step(OPS.iter().position(|x| Some(*x) == o[0].as_str())?, super::dmap::u(&o[1]))))
        .collect();
    let z = (t.sizes)();
    super::trace::line(&json!({"e": "sizes", "set": z[0], "map8": z[1], "map1": z[2], "raw": z[3], "map160": z[4], "big": u8::from(big)}));
    let mut out = Vec::with_capacity(steps.len() + 1);
    (if big { t.foot_big } else { t.foot })(&steps, &mut out);
    for (i, (n, ms, ss)) in out.iter().enumerate() {
        let op = steps.get(i).map_or("drop", |s| OPS[s.0]);
        super::trace::line(&json!({"e": "foot", "op": op, "heap": n, "map": ms, "set": ss}));
    }
}
