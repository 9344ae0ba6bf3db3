//! One set with its key type erased.
use super::content::{to_content, De, C};
use super::iters::*;
use super::kt::KT;
use fixed_map::Set;
use std::any::Any;

pub trait SetObj: Any {
    fn any(&self) -> &dyn Any;
    fn size(&self) -> usize;
    fn insert(&mut self, k: usize) -> bool;
    fn remove(&mut self, k: usize) -> bool;
    fn contains(&mut self, k: usize) -> bool;
    fn clear(&mut self);
    fn len(&self) -> usize;
    fn is_empty(&self) -> bool;
    fn debug(&self, alt: bool) -> String;
    fn key_debug(&self, k: usize) -> String;
    #[cfg(feature = "s_retain")]
    fn retain(&mut self, f: &mut dyn FnMut(usize) -> bool);
    #[cfg(feature = "s_build")]
    fn from_iter(&self, s: &mut dyn Iterator<Item = usize>) -> Box<dyn SetObj>;
    #[cfg(feature = "s_build")]
    fn from_array(&self, s: &[usize]) -> Option<Box<dyn SetObj>>;
    #[cfg(any(feature = "s_iter", feature = "s_inter"))]
    fn iter<'a>(&'a self) -> Box<dyn ObjIter<'a> + 'a>;
    #[cfg(any(feature = "s_iter", feature = "s_inter"))]
    fn iter_ref<'a>(&'a self) -> Box<dyn ObjIter<'a> + 'a>;
    #[cfg(any(feature = "s_iter", feature = "s_inter"))]
    fn into(self: Box<Self>) -> Box<dyn ObjIter<'static>>;
    #[cfg(feature = "s_inter")]
    fn inter<'a>(&'a self, o: &'a dyn SetObj) -> Box<dyn ObjIter<'a> + 'a>;
    #[cfg(feature = "s_cmp")]
    fn dup(&self) -> Box<dyn SetObj>;
    #[cfg(feature = "s_cmp")]
    fn eq(&self, o: &dyn SetObj) -> (bool, bool);
    #[cfg(feature = "s_cmp")]
    fn hash(&self) -> Option<Vec<u8>>;
    #[cfg(feature = "s_raw")]
    fn as_raw(&self) -> Option<u128>;
    #[cfg(feature = "s_raw")]
    fn from_raw(&self, raw: u128) -> Option<Box<dyn SetObj>>;
    #[cfg(feature = "s_serde")]
    fn ser(&self) -> Result<C, String>;
    #[cfg(feature = "s_serde")]
    fn de(&self, c: &'static C) -> Result<Box<dyn SetObj>, String>;
    #[cfg(feature = "s_serde")]
    fn key_contents(&self) -> Vec<C>;
    #[cfg(feature = "s_serde")]
    fn bad_key(&self) -> Option<C>;
    #[cfg(feature = "s_serde")]
    fn json_trip(&self) -> Option<Result<Box<dyn SetObj>, String>>;
    /// Through a format that is not self-describing, all but the last `cut` per mille of the bytes.
    #[cfg(feature = "s_serde")]
    fn wire_trip(&self, cut: usize) -> Option<Result<Box<dyn SetObj>, String>>;
}

pub struct SO<K: KT> {
    pub s: Set<K>,
    pub alt: Vec<K>,
    pub tick: usize,
}

impl<K: KT> SO<K> {
    pub fn wrap(s: Set<K>) -> Self {
        SO { s, alt: K::keys(), tick: 0 }
    }
    fn key(&mut self, k: usize) -> K {
        self.tick += 1;
        if self.tick % 2 == 0 {
            self.alt[k - 1]
        } else {
            K::all()[k - 1]
        }
    }
}

pub fn make<K: KT>(how: &str) -> Box<dyn SetObj> {
    Box::new(SO::<K>::wrap(if how == "default" { Set::default() } else { Set::new() }))
}

impl<K: KT> SetObj for SO<K> {
    fn any(&self) -> &dyn Any {
        self
    }
    fn size(&self) -> usize {
        K::all().len()
    }
    fn insert(&mut self, k: usize) -> bool {
        let k = self.key(k);
        self.s.insert(k)
    }
    fn remove(&mut self, k: usize) -> bool {
        let k = self.key(k);
        self.s.remove(k)
    }
    fn contains(&mut self, k: usize) -> bool {
        let k = self.key(k);
        self.s.contains(k)
    }
    fn clear(&mut self) {
        self.s.clear();
    }
    fn len(&self) -> usize {
        self.s.len()
    }
    fn is_empty(&self) -> bool {
        self.s.is_empty()
    }
    fn debug(&self, alt: bool) -> String {
        if alt {
            format!("{:#?}", self.s)
        } else {
            format!("{:?}", self.s)
        }
    }
    fn key_debug(&self, k: usize) -> String {
        format!("{:?}", K::all()[k - 1])
    }
    #[cfg(feature = "s_retain")]
    fn retain(&mut self, f: &mut dyn FnMut(usize) -> bool) {
        self.s.retain(|k| f(k.idx()));
    }
    #[cfg(feature = "s_build")]
    fn from_iter(&self, s: &mut dyn Iterator<Item = usize>) -> Box<dyn SetObj> {
        struct Keyed<'a, 'b, K: KT>(&'b mut dyn Iterator<Item = usize>, &'a [K]);
        impl<K: KT> Iterator for Keyed<'_, '_, K> {
            type Item = K;
            fn next(&mut self) -> Option<K> {
                self.0.next().map(|k| self.1[k - 1])
            }
            fn size_hint(&self) -> (usize, Option<usize>) {
                self.0.size_hint()
            }
        }
        Box::new(SO::<K>::wrap(Keyed(s, K::all()).collect()))
    }
    #[cfg(feature = "s_build")]
    fn from_array(&self, s: &[usize]) -> Option<Box<dyn SetObj>> {
        let k = |i: usize| K::all()[s[i] - 1];
        macro_rules! sizes {
            ($($n:literal)*) => {
                match s.len() {
                    $($n => Set::from(std::array::from_fn::<K, $n, _>(k)),)*
                    _ => return None,
                }
            };
        }
        let s: Set<K> = sizes!(0 1 2 3 4 5 6 7 8 9 16 17 30 65 130);
        Some(Box::new(SO::<K>::wrap(s)))
    }
    #[cfg(any(feature = "s_iter", feature = "s_inter"))]
    fn iter<'a>(&'a self) -> Box<dyn ObjIter<'a> + 'a> {
        K::s_iter(&self.s)
    }
    #[cfg(any(feature = "s_iter", feature = "s_inter"))]
    fn iter_ref<'a>(&'a self) -> Box<dyn ObjIter<'a> + 'a> {
        K::s_iter_ref(&self.s)
    }
    #[cfg(any(feature = "s_iter", feature = "s_inter"))]
    fn into(self: Box<Self>) -> Box<dyn ObjIter<'static>> {
        K::s_into(self.s)
    }
    #[cfg(feature = "s_inter")]
    fn inter<'a>(&'a self, o: &'a dyn SetObj) -> Box<dyn ObjIter<'a> + 'a> {
        let o = o.any().downcast_ref::<Self>().expect("same key type");
        Box::new(W {
            it: Some(FwC(self.s.intersection(&o.s))),
            held: Vec::with_capacity(160),
            obs: super::kt::obs_k::<K>(),
            mk: |i| i.dup(),
            wr: |_, _| None,
            obs_dup: super::kt::obs_k::<K>,
            dbg: Some(|i| format!("{:?}", i.0)),
        })
    }
    #[cfg(feature = "s_cmp")]
    fn dup(&self) -> Box<dyn SetObj> {
        Box::new(SO::<K>::wrap(K::s_clone(&self.s)))
    }
    #[cfg(feature = "s_cmp")]
    fn eq(&self, o: &dyn SetObj) -> (bool, bool) {
        let o = o.any().downcast_ref::<Self>().expect("same key type");
        K::s_eq(&self.s, &o.s)
    }
    #[cfg(feature = "s_cmp")]
    fn hash(&self) -> Option<Vec<u8>> {
        K::s_hash(&self.s)
    }
    #[cfg(feature = "s_raw")]
    fn as_raw(&self) -> Option<u128> {
        K::s_as_raw(&self.s)
    }
    #[cfg(feature = "s_raw")]
    fn from_raw(&self, raw: u128) -> Option<Box<dyn SetObj>> {
        K::s_from_raw(raw).map(|(s, _)| Box::new(SO::<K>::wrap(s)) as Box<dyn SetObj>)
    }
    #[cfg(feature = "s_serde")]
    fn ser(&self) -> Result<C, String> {
        to_content(&self.s).map_err(|e| e.0)
    }
    #[cfg(feature = "s_serde")]
    fn de(&self, c: &'static C) -> Result<Box<dyn SetObj>, String> {
        use serde::Deserialize;
        match Set::<K>::deserialize(De(c)) {
            Ok(m) => Ok(Box::new(SO::<K>::wrap(m))),
            Err(e) => Err(e.0),
        }
    }
    #[cfg(feature = "s_serde")]
    fn key_contents(&self) -> Vec<C> {
        super::content::key_contents::<K>()
    }
    #[cfg(feature = "s_serde")]
    fn bad_key(&self) -> Option<C> {
        super::content::bad_key::<K>()
    }
    #[cfg(feature = "s_serde")]
    fn wire_trip(&self, cut: usize) -> Option<Result<Box<dyn SetObj>, String>> {
        // only where the keys alone survive that format
        for k in K::keys() {
            let b = super::wire::to_bytes(&k).ok()?;
            if super::wire::from_bytes::<K>(&b).ok()? != k {
                return None;
            }
        }
        Some(match super::wire::to_bytes(&self.s) {
            Err(e) => Err(e.to_string()),
            Ok(b) => {
                let n = if cut == 0 { b.len() } else { (b.len() * (1000 - cut) / 1000).min(b.len() - 1) };
                match super::wire::from_bytes::<Set<K>>(&b[..n]) {
                    Ok(m) => Ok(Box::new(SO::<K>::wrap(m)) as Box<dyn SetObj>),
                    Err(e) => Err(e.to_string()),
                }
            }
        })
    }
    #[cfg(feature = "s_serde")]
    fn json_trip(&self) -> Option<Result<Box<dyn SetObj>, String>> {
        // only where a plain sequence of the same keys survives the text format
        for k in K::keys() {
            let t = serde_json::to_string(&k).ok()?;
            let back: K = serde_json::from_str(Box::leak(t.into_boxed_str())).ok()?;
            if back != k {
                return None;
            }
        }
        Some(match serde_json::to_string(&self.s) {
            Err(e) => Err(e.to_string()),
            Ok(t) => {
                let t: &'static str = Box::leak(t.into_boxed_str());
                match serde_json::from_str::<Set<K>>(t) {
                    Ok(m) => Ok(Box::new(SO::<K>::wrap(m)) as Box<dyn SetObj>),
                    Err(e) => Err(e.to_string()),
                }
            }
        })
    }
}
