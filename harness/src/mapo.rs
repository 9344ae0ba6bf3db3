//! One map with its key type erased.
use super::content::{to_content, De, C};
use super::iters::*;
use super::kt::KT;
use super::val::{self, Value};
use super::J;
use fixed_map::Map;
use std::any::Any;

/// A stored value with its type erased.
pub trait Slot {
    fn num(&self) -> u64;
    fn put(&mut self, w: u32) -> (u64, u64);
}
impl<V: Value> Slot for V {
    fn num(&self) -> u64 {
        num(self)
    }
    fn put(&mut self, w: u32) -> (u64, u64) {
        put(self, w)
    }
}
pub type Visit<'a> = &'a mut dyn FnMut(usize, &mut dyn Slot) -> bool;
/// Keys with payloads.
pub type Source<'a> = &'a mut dyn Iterator<Item = (usize, u32)>;

pub trait MapObj: Any {
    fn any(&self) -> &dyn Any;
    fn any_mut(&mut self) -> &mut dyn Any;
    fn size(&self) -> usize;
    /// Insert a new value with this payload: its number and that of the old value.
    fn insert(&mut self, k: usize, w: u32) -> (u64, Option<u64>);
    fn remove(&mut self, k: usize) -> Option<u64>;
    fn get(&mut self, k: usize) -> Option<u64>;
    /// How a value made from payload w reads.
    fn shown(&self, w: u32) -> u64;
    fn contains(&mut self, k: usize) -> bool;
    fn get_mut(&mut self, k: usize, w: u32) -> Option<(u64, u64)>;
    fn clear(&mut self);
    fn len(&self) -> usize;
    fn is_empty(&self) -> bool;
    fn debug(&self, alt: bool) -> String;
    fn key_debug(&self, k: usize) -> String;
    #[cfg(feature = "m_retain")]
    fn retain(&mut self, f: Visit<'_>);
    #[cfg(feature = "m_entry")]
    fn entry(&mut self, k: usize, steps: &[J], log: &mut dyn FnMut(Ev));
    #[cfg(feature = "m_build")]
    fn from_iter(&self, s: Source<'_>, made: &mut Vec<u64>) -> Box<dyn MapObj>;
    #[cfg(feature = "m_iter")]
    fn iter<'a>(&'a self, kind: &str) -> Box<dyn ObjIter<'a> + 'a>;
    #[cfg(feature = "m_iter")]
    fn iter_mut<'a>(&'a mut self, kind: &str) -> Box<dyn ObjIter<'a> + 'a>;
    #[cfg(feature = "m_iter")]
    fn into(self: Box<Self>) -> Box<dyn ObjIter<'static>>;
    #[cfg(feature = "m_cmp")]
    fn dup(&self) -> Box<dyn MapObj>;
    #[cfg(feature = "m_cmp")]
    fn clone_from(&mut self, s: &dyn MapObj);
    #[cfg(feature = "m_cmp")]
    fn eq(&self, o: &dyn MapObj) -> (bool, bool);
    #[cfg(feature = "m_cmp")]
    fn hash(&self) -> Option<Vec<u8>>;
    #[cfg(feature = "m_serde")]
    fn ser(&self) -> Result<C, String>;
    #[cfg(feature = "m_serde")]
    fn de(&self, c: &'static C) -> Result<Box<dyn MapObj>, String>;
    #[cfg(feature = "m_serde")]
    fn key_contents(&self) -> Vec<C>;
    #[cfg(feature = "m_serde")]
    fn bad_key(&self) -> Option<C>;
    #[cfg(feature = "m_serde")]
    fn json_trip(&self) -> Option<Result<Box<dyn MapObj>, String>>;
    /// Through a format that is not self-describing, all but the last `cut` per mille of the bytes.
    #[cfg(feature = "m_serde")]
    fn wire_trip(&self, cut: usize) -> Option<Result<Box<dyn MapObj>, String>>;
}

/// One observation made inside an entry session.
#[derive(Default, Debug)]
pub struct Ev {
    pub e: &'static str,
    pub how: &'static str,
    pub r: u64,
    pub b: bool,
    pub v: u64,
    pub called: u64,
    pub ck: usize,
    pub w: u64,
    pub input: Vec<u64>,
    pub panicked: bool,
}

pub struct MO<K: KT> {
    pub m: Map<K, K::V>,
    pub alt: Vec<K>,
    pub tick: usize,
}

impl<K: KT> MO<K> {
    pub fn wrap(m: Map<K, K::V>) -> Self {
        MO { m, alt: K::keys(), tick: 0 }
    }
    /// Key number k; alternates between two equal values of the key (which differ in identity for
    /// borrowed keys).
    fn key(&mut self, k: usize) -> K {
        self.tick += 1;
        if self.tick % 2 == 0 {
            self.alt[k - 1]
        } else {
            K::all()[k - 1]
        }
    }
}

pub fn make<K: KT>(how: &str) -> Box<dyn MapObj> {
    Box::new(MO::<K>::wrap(if how == "default" { Map::default() } else { Map::new() }))
}

impl<K: KT> MapObj for MO<K> {
    fn any(&self) -> &dyn Any {
        self
    }
    fn any_mut(&mut self) -> &mut dyn Any {
        self
    }
    fn size(&self) -> usize {
        K::all().len()
    }
    fn insert(&mut self, k: usize, w: u32) -> (u64, Option<u64>) {
        let k = self.key(k);
        let v = K::V::make(w);
        let n = num(&v);
        let old = self.m.insert(k, v);
        let r = old.as_ref().map(num);
        val::quiet(|| drop(old));
        (n, r)
    }
    fn remove(&mut self, k: usize) -> Option<u64> {
        let k = self.key(k);
        let old = self.m.remove(k);
        let r = old.as_ref().map(num);
        val::quiet(|| drop(old));
        r
    }
    fn get(&mut self, k: usize) -> Option<u64> {
        let k = self.key(k);
        self.m.get(k).map(num)
    }
    fn shown(&self, w: u32) -> u64 {
        val::quiet(|| u64::from(K::V::make(w).p()))
    }
    fn contains(&mut self, k: usize) -> bool {
        let k = self.key(k);
        self.m.contains_key(k)
    }
    fn get_mut(&mut self, k: usize, w: u32) -> Option<(u64, u64)> {
        let k = self.key(k);
        self.m.get_mut(k).map(|v| {
            let old = num(v);
            (old, if w != 0 { put(v, w).1 } else { 0 })
        })
    }
    fn clear(&mut self) {
        self.m.clear();
    }
    fn len(&self) -> usize {
        self.m.len()
    }
    fn is_empty(&self) -> bool {
        self.m.is_empty()
    }
    fn debug(&self, alt: bool) -> String {
        if alt {
            format!("{:#?}", self.m)
        } else {
            format!("{:?}", self.m)
        }
    }
    fn key_debug(&self, k: usize) -> String {
        format!("{:?}", K::all()[k - 1])
    }
    #[cfg(feature = "m_retain")]
    fn retain(&mut self, f: Visit<'_>) {
        self.m.retain(|k, v| f(k.idx(), v));
    }
    #[cfg(feature = "m_build")]
    fn from_iter(&self, s: Source<'_>, made: &mut Vec<u64>) -> Box<dyn MapObj> {
        struct Keyed<'a, 'b, K: KT>(Source<'b>, &'a [K], &'b mut Vec<u64>);
        impl<K: KT> Iterator for Keyed<'_, '_, K> {
            type Item = (K, K::V);
            fn next(&mut self) -> Option<(K, K::V)> {
                let (k, w) = self.0.next()?;
                let v = K::V::make(w);
                self.2.push(num(&v));
                Some((self.1[k - 1], v))
            }
            fn size_hint(&self) -> (usize, Option<usize>) {
                self.0.size_hint()
            }
        }
        Box::new(MO::<K>::wrap(Keyed(s, K::all(), made).collect()))
    }
    #[cfg(feature = "m_iter")]
    fn iter<'a>(&'a self, kind: &str) -> Box<dyn ObjIter<'a> + 'a> {
        K::m_iter(&self.m, kind)
    }
    #[cfg(feature = "m_iter")]
    fn iter_mut<'a>(&'a mut self, kind: &str) -> Box<dyn ObjIter<'a> + 'a> {
        K::m_iter_mut(&mut self.m, kind)
    }
    #[cfg(feature = "m_iter")]
    fn into(self: Box<Self>) -> Box<dyn ObjIter<'static>> {
        K::m_into(self.m)
    }
    #[cfg(feature = "m_cmp")]
    fn dup(&self) -> Box<dyn MapObj> {
        Box::new(MO::<K>::wrap(K::m_clone(&self.m)))
    }
    #[cfg(feature = "m_cmp")]
    fn clone_from(&mut self, s: &dyn MapObj) {
        let s = s.any().downcast_ref::<Self>().expect("same key type");
        K::m_clone_from(&mut self.m, &s.m);
    }
    #[cfg(feature = "m_cmp")]
    fn eq(&self, o: &dyn MapObj) -> (bool, bool) {
        let o = o.any().downcast_ref::<Self>().expect("same key type");
        K::m_eq(&self.m, &o.m)
    }
    #[cfg(feature = "m_cmp")]
    fn hash(&self) -> Option<Vec<u8>> {
        K::m_hash(&self.m)
    }
    #[cfg(feature = "m_serde")]
    fn ser(&self) -> Result<C, String> {
        to_content(&self.m).map_err(|e| e.0)
    }
    #[cfg(feature = "m_serde")]
    fn de(&self, c: &'static C) -> Result<Box<dyn MapObj>, String> {
        use serde::Deserialize;
        match Map::<K, K::V>::deserialize(De(c)) {
            Ok(m) => Ok(Box::new(MO::<K>::wrap(m))),
            Err(e) => Err(e.0),
        }
    }
    #[cfg(feature = "m_serde")]
    fn key_contents(&self) -> Vec<C> {
        super::content::key_contents::<K>()
    }
    #[cfg(feature = "m_serde")]
    fn bad_key(&self) -> Option<C> {
        super::content::bad_key::<K>()
    }
    #[cfg(feature = "m_serde")]
    fn wire_trip(&self, cut: usize) -> Option<Result<Box<dyn MapObj>, String>> {
        // only where the keys alone survive that format
        for k in K::keys() {
            let b = super::wire::to_bytes(&k).ok()?;
            if super::wire::from_bytes::<K>(&b).ok()? != k {
                return None;
            }
        }
        Some(match super::wire::to_bytes(&self.m) {
            Err(e) => Err(e.to_string()),
            Ok(b) => {
                let n = if cut == 0 { b.len() } else { (b.len() * (1000 - cut) / 1000).min(b.len() - 1) };
                match super::wire::from_bytes::<Map<K, K::V>>(&b[..n]) {
                    Ok(m) => Ok(Box::new(MO::<K>::wrap(m)) as Box<dyn MapObj>),
                    Err(e) => Err(e.to_string()),
                }
            }
        })
    }
    #[cfg(feature = "m_serde")]
    fn json_trip(&self) -> Option<Result<Box<dyn MapObj>, String>> {
        // only where plain data of the same key type survives the text format
        let probe: Vec<K> = K::keys();
        for k in &probe {
            let one: std::collections::LinkedList<(K, u8)> = [(*k, 1)].into_iter().collect();
            let t = super::content::json_map(&one)?;
            let back = super::content::json_back::<K>(Box::leak(t.into_boxed_str()))?;
            if back.len() != 1 || back[0].0 != *k {
                return None;
            }
        }
        Some(match serde_json::to_string(&self.m) {
            Err(e) => Err(e.to_string()),
            Ok(t) => {
                let t: &'static str = Box::leak(t.into_boxed_str());
                match serde_json::from_str::<Map<K, K::V>>(t) {
                    Ok(m) => Ok(Box::new(MO::<K>::wrap(m)) as Box<dyn MapObj>),
                    Err(e) => Err(e.to_string()),
                }
            }
        })
    }

    #[cfg(feature = "m_entry")]
    fn entry(&mut self, k: usize, steps: &[J], log: &mut dyn FnMut(Ev)) {
        use fixed_map::map::{Entry, OccupiedEntry, VacantEntry};
        use std::panic::{catch_unwind, AssertUnwindSafe};
        enum Cur<E, O, V, R> {
            Entry(E),
            Occ(O),
            Vac(V),
            Ref(R),
            Done,
        }
        let key = self.key(k);
        let e = self.m.entry(key);
        log(Ev { e: "e_open", b: matches!(e, Entry::Occupied(_)), ..Ev::default() });
        let mut cur: Cur<
            _,
            <K::MapStorage<K::V> as fixed_map::map::MapStorage<K, K::V>>::Occupied<'_>,
            <K::MapStorage<K::V> as fixed_map::map::MapStorage<K, K::V>>::Vacant<'_>,
            &mut K::V,
        > = Cur::Entry(e);
        for st in steps {
            let name = st[0].as_str().unwrap_or("");
            let w = st.get(1).and_then(|x| x.as_u64()).unwrap_or(0) as u32;
            let fuse = st.get(2).and_then(|x| x.as_u64()).unwrap_or(0) != 0;
            cur = match (name, cur) {
                ("key", Cur::Entry(e)) => {
                    log(Ev { e: "e_key", r: e.key().idx() as u64, ..Ev::default() });
                    Cur::Entry(e)
                }
                ("key", Cur::Occ(e)) => {
                    log(Ev { e: "e_key", r: e.key().idx() as u64, ..Ev::default() });
                    Cur::Occ(e)
                }
                ("key", Cur::Vac(e)) => {
                    log(Ev { e: "e_key", r: e.key().idx() as u64, ..Ev::default() });
                    Cur::Vac(e)
                }
                ("match", Cur::Entry(e)) => {
                    let occ = matches!(e, Entry::Occupied(_));
                    log(Ev { e: "e_match", b: occ, ..Ev::default() });
                    match e {
                        Entry::Occupied(o) => Cur::Occ(o),
                        Entry::Vacant(v) => Cur::Vac(v),
                    }
                }
                ("and_modify", Cur::Entry(e)) => {
                    let mut ev = Ev { e: "e_and_modify", ..Ev::default() };
                    let r = catch_unwind(AssertUnwindSafe(|| {
                        e.and_modify(|v| {
                            ev.called += 1;
                            ev.r = num(v);
                            if fuse {
                                panic!("injected: and_modify");
                            }
                            if w != 0 {
                                ev.w = put(v, w).1;
                            }
                        })
                    }));
                    ev.panicked = r.is_err();
                    if super::own() && ev.w != 0 {
                        ev.input.push(ev.w);
                    }
                    log(ev);
                    match r {
                        Ok(e) => Cur::Entry(e),
                        Err(_) => Cur::Done,
                    }
                }
                ("or_insert", Cur::Entry(e)) => {
                    let v = K::V::make(w);
                    let n = num(&v);
                    let r = e.or_insert(v);
                    log(Ev { e: "e_or", how: "plain", v: n, r: num(r), input: vec![n], ..Ev::default() });
                    Cur::Ref(r)
                }
                ("or_insert_with", Cur::Entry(e)) => {
                    let mut ev = Ev { e: "e_or", how: "with", ..Ev::default() };
                    let r = catch_unwind(AssertUnwindSafe(|| {
                        e.or_insert_with(|| {
                            ev.called += 1;
                            if fuse {
                                panic!("injected: or_insert_with");
                            }
                            let v = K::V::make(w);
                            ev.v = num(&v);
                            ev.input.push(ev.v);
                            v
                        })
                    }));
                    ev.panicked = r.is_err();
                    ev.r = r.as_ref().map_or(0, |r| num::<K::V>(r));
                    log(ev);
                    match r {
                        Ok(r) => Cur::Ref(r),
                        Err(_) => Cur::Done,
                    }
                }
                ("or_insert_with_key", Cur::Entry(e)) => {
                    let mut ev = Ev { e: "e_or", how: "with_key", ..Ev::default() };
                    let r = catch_unwind(AssertUnwindSafe(|| {
                        e.or_insert_with_key(|k| {
                            ev.called += 1;
                            ev.ck = k.idx();
                            if fuse {
                                panic!("injected: or_insert_with_key");
                            }
                            let v = K::V::make(w);
                            ev.v = num(&v);
                            ev.input.push(ev.v);
                            v
                        })
                    }));
                    ev.panicked = r.is_err();
                    ev.r = r.as_ref().map_or(0, |r| num::<K::V>(r));
                    log(ev);
                    match r {
                        Ok(r) => Cur::Ref(r),
                        Err(_) => Cur::Done,
                    }
                }
                ("or_default", Cur::Entry(e)) => {
                    let before = val::with(|l| {
                        l.default_fuse = fuse;
                        l.defaults = 0;
                        l.created.len()
                    });
                    let r = catch_unwind(AssertUnwindSafe(|| e.or_default()));
                    let (new, called): (Vec<u64>, u64) = val::with(|l| {
                        l.default_fuse = false;
                        (l.created[before..].to_vec(), l.defaults)
                    });
                    let mut ev = Ev { e: "e_or", how: "default", called, panicked: r.is_err(), ..Ev::default() };
                    ev.r = r.as_ref().map_or(0, |r| num::<K::V>(r));
                    if super::own() {
                        ev.v = new.first().copied().unwrap_or(0);
                        ev.input = new;
                    } else {
                        ev.v = u64::from(super::DEFAULT_P);
                    }
                    log(ev);
                    match r {
                        Ok(r) => Cur::Ref(r),
                        Err(_) => Cur::Done,
                    }
                }
                ("get", Cur::Occ(e)) => {
                    log(Ev { e: "o_get", r: num(e.get()), ..Ev::default() });
                    Cur::Occ(e)
                }
                ("get_mut", Cur::Occ(mut e)) => {
                    let v = e.get_mut();
                    let r = num(v);
                    let w = if w != 0 { put(v, w).1 } else { 0 };
                    log(Ev { e: "o_get_mut", r, w, input: if w != 0 { vec![w] } else { vec![] }, ..Ev::default() });
                    Cur::Occ(e)
                }
                ("insert", Cur::Occ(mut e)) => {
                    let v = K::V::make(w);
                    let n = num(&v);
                    let old = e.insert(v);
                    log(Ev { e: "o_insert", v: n, r: num(&old), input: vec![n], ..Ev::default() });
                    val::quiet(|| drop(old));
                    Cur::Occ(e)
                }
                ("remove", Cur::Occ(e)) => {
                    let old = e.remove();
                    log(Ev { e: "o_remove", r: num(&old), ..Ev::default() });
                    val::quiet(|| drop(old));
                    Cur::Done
                }
                ("into_mut", Cur::Occ(e)) => {
                    let r = e.into_mut();
                    log(Ev { e: "o_into_mut", r: num(r), ..Ev::default() });
                    Cur::Ref(r)
                }
                ("insert", Cur::Vac(e)) => {
                    let v = K::V::make(w);
                    let n = num(&v);
                    let r = e.insert(v);
                    log(Ev { e: "v_insert", v: n, r: num(r), input: vec![n], ..Ev::default() });
                    Cur::Ref(r)
                }
                ("write", Cur::Ref(v)) => {
                    let r = num(v);
                    let w = put(v, w).1;
                    log(Ev { e: "r_write", r, w, input: vec![w], ..Ev::default() });
                    Cur::Ref(v)
                }
                // a step that does not apply in the state the library put us in: skip it
                (_, c) => c,
            };
        }
        if !matches!(cur, Cur::Done) {
            drop(cur);
            log(Ev { e: "e_drop", ..Ev::default() });
        }
    }
}
