//! Everything the driver needs from one concrete key type, without type parameters.
use super::iters::{ObjIter, Obs};
use super::val::Value;
use fixed_map::{Key, Map, Set};
use std::fmt::Debug;

pub trait KT: Key + PartialEq + Debug + serde::Serialize + serde::Deserialize<'static> + 'static {
    /// The type of the values in maps with this key.
    type V: Value;
    /// All keys in declaration order; every call makes fresh allocations for borrowed keys.
    fn keys() -> Vec<Self>;
    /// Cached key list.
    fn all() -> &'static [Self];
    fn idx(&self) -> usize {
        Self::all().iter().position(|k| k == self).map_or(0, |i| i + 1)
    }

    #[cfg(feature = "m_iter")]
    fn m_iter<'a>(m: &'a Map<Self, Self::V>, kind: &str) -> Box<dyn ObjIter<'a> + 'a>;
    #[cfg(feature = "m_iter")]
    fn m_iter_mut<'a>(m: &'a mut Map<Self, Self::V>, kind: &str) -> Box<dyn ObjIter<'a> + 'a>;
    #[cfg(feature = "m_iter")]
    fn m_into(m: Map<Self, Self::V>) -> Box<dyn ObjIter<'static>>;
    #[cfg(feature = "m_cmp")]
    fn m_clone(m: &Map<Self, Self::V>) -> Map<Self, Self::V>;
    #[cfg(feature = "m_cmp")]
    fn m_clone_from(d: &mut Map<Self, Self::V>, s: &Map<Self, Self::V>);
    #[cfg(feature = "m_cmp")]
    fn m_eq(a: &Map<Self, Self::V>, b: &Map<Self, Self::V>) -> (bool, bool);
    #[cfg(feature = "m_cmp")]
    fn m_hash(a: &Map<Self, Self::V>) -> Option<Vec<u8>>;
    #[cfg(any(feature = "s_iter", feature = "s_inter"))]
    fn s_iter<'a>(s: &'a Set<Self>) -> Box<dyn ObjIter<'a> + 'a>;
    #[cfg(any(feature = "s_iter", feature = "s_inter"))]
    fn s_iter_ref<'a>(s: &'a Set<Self>) -> Box<dyn ObjIter<'a> + 'a>;
    #[cfg(any(feature = "s_iter", feature = "s_inter"))]
    fn s_into(s: Set<Self>) -> Box<dyn ObjIter<'static>>;
    #[cfg(feature = "s_cmp")]
    fn s_clone(s: &Set<Self>) -> Set<Self>;
    #[cfg(feature = "s_cmp")]
    fn s_eq(a: &Set<Self>, b: &Set<Self>) -> (bool, bool);
    #[cfg(feature = "s_cmp")]
    fn s_hash(a: &Set<Self>) -> Option<Vec<u8>>;
    #[cfg(feature = "s_raw")]
    fn s_as_raw(s: &Set<Self>) -> Option<u128>;
    #[cfg(feature = "s_raw")]
    fn s_from_raw(raw: u128) -> Option<(Set<Self>, usize)>;
    /// (size of a set, size of a map of u64, size of a map of bytes, size of the raw integer, size of a map of large values)
    fn sizes() -> [usize; 5];
    #[cfg(feature = "m_foot")]
    fn f_op<V: super::foot::FV>(m: &mut Map<Self, V>, s: &mut Set<Self>, op: &str, key: Self) -> u64;
    #[cfg(feature = "m_order")]
    fn m_order(a: &[(usize, u64)], b: &[(usize, u64)], c: &[(usize, u64)], total: bool) -> Option<super::order::Ord3>;
    #[cfg(feature = "s_order")]
    fn s_order(a: &[usize], b: &[usize], c: &[usize]) -> Option<super::order::Ord3>;
}

pub fn obs_kv_ref<K: KT>() -> Box<dyn Fn(&(K, &K::V)) -> Obs> {
    Box::new(|(k, v)| Obs::Kv(k.idx(), super::iters::num::<K::V>(v)))
}
pub fn obs_kv_mut<K: KT>() -> Box<dyn Fn(&(K, &mut K::V)) -> Obs> {
    Box::new(|(k, v)| Obs::Kv(k.idx(), super::iters::num::<K::V>(v)))
}
pub fn obs_kv<K: KT>() -> Box<dyn Fn(&(K, K::V)) -> Obs> {
    Box::new(|(k, v)| Obs::Kv(k.idx(), super::iters::num::<K::V>(v)))
}
pub fn obs_k<K: KT>() -> Box<dyn Fn(&K) -> Obs> {
    Box::new(|k| Obs::K(k.idx()))
}
pub fn obs_v_ref<V: Value>() -> Box<dyn Fn(&&V) -> Obs> {
    Box::new(|v| Obs::V(super::iters::num::<V>(v)))
}
pub fn obs_v_mut<V: Value>() -> Box<dyn Fn(&&mut V) -> Obs> {
    Box::new(|v| Obs::V(super::iters::num::<V>(v)))
}

/// The raw integer of a set, whatever width the library chose.
pub trait RawInt: Copy {
    fn wide(self) -> u128;
    fn narrow(x: u128) -> Option<Self>;
}
macro_rules! raw_int {
    ($($t:ty),*) => { $(impl RawInt for $t {
        fn wide(self) -> u128 { self as u128 }
        fn narrow(x: u128) -> Option<Self> { <$t>::try_from(x).ok() }
    })* };
}
raw_int!(u8, u16, u32, u64, u128, usize);
/// The bits of x that fit the raw integer of sets of K.
#[cfg(feature = "s_raw")]
pub fn raw_of<K: Key>(x: u128) -> Option<<K::SetStorage as fixed_map::raw::RawStorage>::Value>
where
    K::SetStorage: fixed_map::raw::RawStorage,
    <K::SetStorage as fixed_map::raw::RawStorage>::Value: RawInt,
{
    let w = 8 * std::mem::size_of::<<K::SetStorage as fixed_map::raw::RawStorage>::Value>();
    RawInt::narrow(if w >= 128 { x } else { x & ((1u128 << w) - 1) })
}

/// A hasher that records exactly what it is fed.
#[derive(Default)]
pub struct Rec(pub Vec<u8>);
impl std::hash::Hasher for Rec {
    fn finish(&self) -> u64 {
        0
    }
    fn write(&mut self, b: &[u8]) {
        self.0.extend_from_slice(b);
        self.0.push(0xfe);
    }
}


#[macro_export]
macro_rules! kt {
    (ty = $ty:ty, de = $de:ident, ord = $ord:ident, raw = $raw:ident, val = $val:ident, exact = $exact:ident, keys = [$($k:expr),* $(,)?]) => {
        impl $crate::kt::KT for $ty {
            type V = $crate::val::$val;
            fn keys() -> Vec<Self> { vec![$($k),*] }
            fn all() -> &'static [Self] {
                static ALL: std::sync::OnceLock<Vec<$ty>> = std::sync::OnceLock::new();
                ALL.get_or_init(<Self as $crate::kt::KT>::keys)
            }
            #[cfg(feature = "m_iter")]
            fn m_iter<'a>(m: &'a fixed_map::Map<Self, Self::V>, kind: &str) -> Box<dyn $crate::iters::ObjIter<'a> + 'a> {
                use $crate::{iters::*, kt::*};
                match kind {
                    "iter" => obj($crate::kt!(@c $de)(m.iter()), || Box::new(|x| obs_kv_ref::<Self>()(x)), |_, _| None),
                    "ref" => obj($crate::kt!(@c $de)(m.into_iter()), || Box::new(|x| obs_kv_ref::<Self>()(x)), |_, _| None),
                    "keys" => obj($crate::kt!(@x $de $exact)(m.keys()), || Box::new(|x| obs_k::<Self>()(x)), |_, _| None),
                    "values" => obj($crate::kt!(@c $de)(m.values()), || Box::new(|x| obs_v_ref::<Self::V>()(x)), |_, _| None),
                    _ => panic!("kind {kind}"),
                }
            }
            #[cfg(feature = "m_iter")]
            fn m_iter_mut<'a>(m: &'a mut fixed_map::Map<Self, Self::V>, kind: &str) -> Box<dyn $crate::iters::ObjIter<'a> + 'a> {
                use $crate::{iters::*, kt::*};
                match kind {
                    "iter_mut" => obj($crate::kt!(@n $de)(m.iter_mut()), || Box::new(|x| obs_kv_mut::<Self>()(x)), |x, w| Some(put::<Self::V>(x.1, w))),
                    "ref_mut" => obj($crate::kt!(@n $de)(m.into_iter()), || Box::new(|x| obs_kv_mut::<Self>()(x)), |x, w| Some(put::<Self::V>(x.1, w))),
                    "values_mut" => obj($crate::kt!(@n $de)(m.values_mut()), || Box::new(|x| obs_v_mut::<Self::V>()(x)), |x, w| Some(put::<Self::V>(x, w))),
                    _ => panic!("kind {kind}"),
                }
            }
            #[cfg(feature = "m_iter")]
            fn m_into(m: fixed_map::Map<Self, Self::V>) -> Box<dyn $crate::iters::ObjIter<'static>> {
                use $crate::{iters::*, kt::*};
                obj($crate::kt!(@n $de)(m.into_iter()), || Box::new(|x| obs_kv::<Self>()(x)), |_, _| None)
            }
            #[cfg(feature = "m_cmp")]
            fn m_clone(m: &fixed_map::Map<Self, Self::V>) -> fixed_map::Map<Self, Self::V> { m.clone() }
            #[cfg(feature = "m_cmp")]
            fn m_clone_from(d: &mut fixed_map::Map<Self, Self::V>, s: &fixed_map::Map<Self, Self::V>) { d.clone_from(s) }
            #[cfg(feature = "m_cmp")]
            #[allow(clippy::nonminimal_bool)]
            fn m_eq(a: &fixed_map::Map<Self, Self::V>, b: &fixed_map::Map<Self, Self::V>) -> (bool, bool) { (a == b, a != b) }
            #[cfg(feature = "m_cmp")]
            fn m_hash(a: &fixed_map::Map<Self, Self::V>) -> Option<Vec<u8>> { $crate::kt!(@hash $ord a) }
            #[cfg(any(feature = "s_iter", feature = "s_inter"))]
            fn s_iter<'a>(s: &'a fixed_map::Set<Self>) -> Box<dyn $crate::iters::ObjIter<'a> + 'a> {
                use $crate::{iters::*, kt::*};
                obj($crate::kt!(@x $de $exact)(s.iter()), || Box::new(|x| obs_k::<Self>()(x)), |_, _| None)
            }
            #[cfg(any(feature = "s_iter", feature = "s_inter"))]
            fn s_iter_ref<'a>(s: &'a fixed_map::Set<Self>) -> Box<dyn $crate::iters::ObjIter<'a> + 'a> {
                use $crate::{iters::*, kt::*};
                obj($crate::kt!(@x $de $exact)(s.into_iter()), || Box::new(|x| obs_k::<Self>()(x)), |_, _| None)
            }
            #[cfg(any(feature = "s_iter", feature = "s_inter"))]
            fn s_into(s: fixed_map::Set<Self>) -> Box<dyn $crate::iters::ObjIter<'static>> {
                use $crate::{iters::*, kt::*};
                obj($crate::kt!(@n $de)(s.into_iter()), || Box::new(|x| obs_k::<Self>()(x)), |_, _| None)
            }
            #[cfg(feature = "s_cmp")]
            fn s_clone(s: &fixed_map::Set<Self>) -> fixed_map::Set<Self> { s.clone() }
            #[cfg(feature = "s_cmp")]
            #[allow(clippy::nonminimal_bool)]
            fn s_eq(a: &fixed_map::Set<Self>, b: &fixed_map::Set<Self>) -> (bool, bool) { (a == b, a != b) }
            #[cfg(feature = "s_cmp")]
            fn s_hash(a: &fixed_map::Set<Self>) -> Option<Vec<u8>> { $crate::kt!(@shash $ord a) }
            #[cfg(feature = "s_raw")]
            fn s_as_raw(s: &fixed_map::Set<Self>) -> Option<u128> { $crate::kt!(@asraw $raw s) }
            #[cfg(feature = "s_raw")]
            fn s_from_raw(raw: u128) -> Option<(fixed_map::Set<Self>, usize)> { $crate::kt!(@fromraw $raw raw) }
            fn sizes() -> [usize; 5] {
                use std::mem::size_of;
                [size_of::<fixed_map::Set<Self>>(), size_of::<fixed_map::Map<Self, u64>>(), size_of::<fixed_map::Map<Self, u8>>(), $crate::kt!(@rawsize $raw), size_of::<fixed_map::Map<Self, $crate::foot::Big>>()]
            }
            #[cfg(feature = "m_foot")]
            fn f_op<V: $crate::foot::FV>(m: &mut fixed_map::Map<Self, V>, s: &mut fixed_map::Set<Self>, op: &str, key: Self) -> u64 {
                match op {
                    "clone" => { let t = m.clone(); m.clone_from(&t); 0 }
                    "eq" => u64::from(*m == *m),
                    "cmp" => { let mut o = m.clone(); o.remove(key); $crate::kt!(@fcmp $ord m o) }
                    "hash" => $crate::kt!(@fhash $ord m),
                    "rev" => $crate::kt!(@frev $de m),
                    "s_clone" => { let t = s.clone(); s.clone_from(&t); 0 }
                    "s_eq" => u64::from(*s == *s),
                    "s_cmp" => { let mut o = s.clone(); o.remove(key); $crate::kt!(@fcmps $ord s o) }
                    "s_hash" => $crate::kt!(@fshash $ord s),
                    "s_rev" => $crate::kt!(@fsrev $de s),
                    "s_raw" => $crate::kt!(@fraw $raw s),
                    _ => 0,
                }
            }
            #[cfg(feature = "m_order")]
            fn m_order(a: &[(usize, u64)], b: &[(usize, u64)], c: &[(usize, u64)], total: bool) -> Option<$crate::order::Ord3> { $crate::kt!(@mord $ord a b c total) }
            #[cfg(feature = "s_order")]
            fn s_order(a: &[usize], b: &[usize], c: &[usize]) -> Option<$crate::order::Ord3> { $crate::kt!(@sord $ord a b c) }
        }
    };
    (@c yes) => { DeC };
    (@c no) => { FwC };
    (@n yes) => { De };
    (@n no) => { Fw };
    (@x $de:ident no) => { $crate::kt!(@c $de) };
    (@x yes yes) => { DeX };
    (@hash no $a:ident) => {{ let _ = $a; None }};
    (@hash set $a:ident) => {{ let _ = $a; None }};
    (@hash yes $a:ident) => {{ let mut h = $crate::kt::Rec::default(); std::hash::Hash::hash($a, &mut h); Some(h.0) }};
    (@shash no $a:ident) => {{ let _ = $a; None }};
    (@shash $o:ident $a:ident) => { $crate::kt!(@hash yes $a) };
    (@asraw no $s:ident) => {{ let _ = $s; None }};
    (@asraw $raw:ident $s:ident) => { Some($crate::kt::RawInt::wide($s.as_raw())) };
    (@fromraw no $s:ident) => {{ let _ = $s; None }};
    (@fromraw $raw:ident $s:ident) => {{ let x = $crate::kt::raw_of::<Self>($s)?; Some((fixed_map::Set::from_raw(x), std::mem::size_of_val(&fixed_map::Set::<Self>::new().as_raw()))) }};
    (@rawsize no) => { 0 };
    (@rawsize $raw:ident) => { std::mem::size_of_val(&fixed_map::Set::<Self>::new().as_raw()) };
    (@mord yes $a:ident $b:ident $c:ident $t:ident) => { Some($crate::m_order!(Self, $a, $b, $c, $t)) };
    (@mord $ord:ident $a:ident $b:ident $c:ident $t:ident) => {{ let _ = ($a, $b, $c, $t); None }};
    (@sord no $a:ident $b:ident $c:ident) => {{ let _ = ($a, $b, $c); None }};
    (@sord $ord:ident $a:ident $b:ident $c:ident) => { Some($crate::s_order!(Self, $a, $b, $c)) };
    (@fcmp yes $a:ident $b:ident) => { u64::from(*$a < $b) + u64::from(*$a >= $b) + $a.clone().max($b.clone()).clamp($b.clone().min($a.clone()), $a.clone()).len() as u64 ^ PartialOrd::partial_cmp(&*$a, &$b).map_or(0, |o| o as u64) ^ Ord::cmp(&$b, &*$a) as u64 };
    (@fcmp $o:ident $a:ident $b:ident) => {{ let _ = (&$a, &$b); 0 }};
    (@fcmps no $a:ident $b:ident) => {{ let _ = (&$a, &$b); 0 }};
    (@fcmps $o:ident $a:ident $b:ident) => { $crate::kt!(@fcmp yes $a $b) };
    (@fhash yes $a:ident) => {{ let mut h = $crate::foot::Sum::default(); std::hash::Hash::hash(&*$a, &mut h); std::hash::Hasher::finish(&h) }};
    (@fhash $o:ident $a:ident) => {{ let _ = &$a; 0 }};
    (@fshash no $a:ident) => {{ let _ = &$a; 0 }};
    (@fshash $o:ident $a:ident) => { $crate::kt!(@fhash yes $a) };
    (@frev yes $a:ident) => {{
        let n = $a.iter().rev().count() + $a.keys().rev().count() + $a.values().rev().count() + $a.clone().into_iter().rev().count();
        $a.iter_mut().rev().for_each(|(_, v)| v.bump());
        $a.values_mut().rev().for_each(|v| v.bump());
        n as u64
    }};
    (@frev no $a:ident) => {{ let _ = &$a; 0 }};
    (@fsrev yes $a:ident) => { ($a.iter().rev().count() + $a.clone().into_iter().rev().count()) as u64 };
    (@fsrev no $a:ident) => {{ let _ = &$a; 0 }};
    (@fraw no $a:ident) => {{ let _ = &$a; 0 }};
    (@fraw $raw:ident $a:ident) => {{ let r = $a.as_raw(); *$a = fixed_map::Set::from_raw(r); $crate::kt::RawInt::wide(r) as u64 }};
}
