//! Type-erased iterators that remember the items they handed out.
use super::val::{self, Value};
use std::panic::{catch_unwind, AssertUnwindSafe};

/// An observed item.
#[derive(Clone, Copy, Debug)]
pub enum Obs {
    Kv(usize, u64),
    K(usize),
    V(u64),
}

/// Raw access to one iterator; capabilities differ per type.
pub trait Inner: Iterator + Sized {
    const ENDS: bool;
    fn back(&mut self) -> Option<Self::Item>;
    fn nth_b(&mut self, n: usize) -> Option<Self::Item>;
    fn rfold_all<F: FnMut(Self::Item)>(self, f: F);
    fn rfind_w<F: FnMut(&Self::Item) -> bool>(&mut self, f: F) -> Option<Self::Item>;
    /// Where counting from the back reaches the item (exact iterators only).
    fn rpos<F: FnMut(Self::Item) -> bool>(&mut self, f: F) -> Option<Option<usize>> {
        let _ = f;
        None
    }
    fn dup(&self) -> Option<Self>;
    fn exact(&self) -> Option<usize>;
}

macro_rules! wrapper {
    ($name:ident, $self:ident, [$($b:tt)*], $ends:expr, $back:expr, $nth:expr, |$f:ident| $rfold:expr, |$g:ident| $rfind:expr, $dup:expr, $exact:expr $(, $extra:item)*) => {
        pub struct $name<I>(pub I);
        impl<I: $($b)*> Iterator for $name<I> {
            type Item = I::Item;
            fn next(&mut self) -> Option<I::Item> { self.0.next() }
            fn size_hint(&self) -> (usize, Option<usize>) { self.0.size_hint() }
            fn nth(&mut self, n: usize) -> Option<I::Item> { self.0.nth(n) }
            fn count(self) -> usize { self.0.count() }
            fn last(self) -> Option<I::Item> { self.0.last() }
            fn fold<B, F: FnMut(B, I::Item) -> B>(self, b: B, f: F) -> B { self.0.fold(b, f) }
            fn for_each<F: FnMut(I::Item)>(self, f: F) { self.0.for_each(f) }
            fn collect<B: FromIterator<I::Item>>(self) -> B { self.0.collect() }
            fn partition<B: Default + Extend<I::Item>, F: FnMut(&I::Item) -> bool>(self, f: F) -> (B, B) { self.0.partition(f) }
            fn find<P: FnMut(&I::Item) -> bool>(&mut self, p: P) -> Option<I::Item> { self.0.find(p) }
            fn find_map<B, P: FnMut(I::Item) -> Option<B>>(&mut self, p: P) -> Option<B> { self.0.find_map(p) }
            fn any<P: FnMut(I::Item) -> bool>(&mut self, p: P) -> bool { self.0.any(p) }
            fn all<P: FnMut(I::Item) -> bool>(&mut self, p: P) -> bool { self.0.all(p) }
            fn position<P: FnMut(I::Item) -> bool>(&mut self, p: P) -> Option<usize> { self.0.position(p) }
        }
        impl<I: $($b)*> Inner for $name<I> {
            const ENDS: bool = $ends;
            fn back(&mut $self) -> Option<I::Item> { $back }
            fn nth_b(&mut $self, n: usize) -> Option<I::Item> { let _ = n; #[allow(clippy::redundant_closure_call)] ($nth)(n) }
            fn rfold_all<F: FnMut(I::Item)>($self, mut $f: F) { $rfold }
            fn rfind_w<F: FnMut(&I::Item) -> bool>(&mut $self, $g: F) -> Option<I::Item> { $rfind }
            fn dup(&$self) -> Option<Self> { $dup }
            fn exact(&$self) -> Option<usize> { $exact }
            $($extra)*
        }
    };
}

wrapper!(Fw, self, [Iterator], false, None, |_| None, |f| self.0.fold((), |(), x| f(x)), |g| { let _ = g; None }, None, None);
wrapper!(FwC, self, [Iterator + Clone], false, None, |_| None, |f| self.0.fold((), |(), x| f(x)), |g| { let _ = g; None }, Some(FwC(self.0.clone())), None);
wrapper!(De, self, [DoubleEndedIterator], true, self.0.next_back(), |n| self.0.nth_back(n), |f| self.0.rfold((), |(), x| f(x)), |g| self.0.rfind(g), None, None);
wrapper!(DeC, self, [DoubleEndedIterator + Clone], true, self.0.next_back(), |n| self.0.nth_back(n), |f| self.0.rfold((), |(), x| f(x)), |g| self.0.rfind(g), Some(DeC(self.0.clone())), None);
wrapper!(DeX, self, [DoubleEndedIterator + ExactSizeIterator + Clone], true, self.0.next_back(), |n| self.0.nth_back(n), |f| self.0.rfold((), |(), x| f(x)), |g| self.0.rfind(g), Some(DeX(self.0.clone())), Some(self.0.len()),
    fn rpos<F: FnMut(I::Item) -> bool>(&mut self, f: F) -> Option<Option<usize>> { Some(self.0.rposition(f)) });

pub trait ObjIter<'a> {
    fn ends(&self) -> bool;
    fn next(&mut self) -> Option<Obs>;
    fn back(&mut self) -> Option<Obs>;
    fn nth(&mut self, n: usize) -> Option<Obs>;
    fn nth_back(&mut self, n: usize) -> Option<Obs>;
    /// Search for the item of a key, in one of several ways: the item met, what the predicate saw,
    /// and (from 1) where the item is said to be; whether the items went to the predicate.
    fn find(&mut self, want: u64, back: bool, how: usize) -> Option<(Option<Obs>, Vec<Obs>, usize, bool)>;
    fn hint(&self) -> (usize, Option<usize>);
    fn exact(&self) -> Option<usize>;
    fn debug(&self) -> Option<String>;
    fn dup(&self) -> Option<Box<dyn ObjIter<'a> + 'a>>;
    /// Consume the rest by `fold` (or `rfold`), at most `limit` items; panics on purpose at item
    /// number `fuse` if that is not 0.
    fn drain(&mut self, back: bool, limit: usize, fuse: usize, how: usize) -> (Vec<Obs>, bool);
    /// Consume the rest by repeated stepping.
    fn collect(&mut self, back: bool, limit: usize) -> Vec<Obs>;
    fn count(&mut self) -> usize;
    fn last(&mut self) -> Option<Obs>;
    /// Write through the i-th (from 0) item handed out.
    fn write(&mut self, i: usize, w: u32) -> Option<(u64, u64)>;
    /// Drop the iterator itself but not the items handed out.
    fn halt(&mut self);
    /// Drop what was handed out, too.
    fn finish(&mut self);
}

pub struct W<I: Inner> {
    pub it: Option<I>,
    pub held: Vec<I::Item>,
    pub obs: Box<dyn Fn(&I::Item) -> Obs>,
    pub mk: fn(&I) -> Option<I>,
    pub wr: fn(&mut I::Item, u32) -> Option<(u64, u64)>,
    pub obs_dup: fn() -> Box<dyn Fn(&I::Item) -> Obs>,
    pub dbg: Option<fn(&I) -> String>,
}

impl<I: Inner> W<I> {
    fn hold(&mut self, x: Option<I::Item>) -> Option<Obs> {
        x.map(|x| {
            let o = (self.obs)(&x);
            self.held.push(x);
            o
        })
    }
    fn it(&mut self) -> &mut I {
        self.it.as_mut().expect("iterator already consumed")
    }
}

pub fn obj<'a, I: Inner + 'a>(
    it: I,
    obs_dup: fn() -> Box<dyn Fn(&I::Item) -> Obs>,
    wr: fn(&mut I::Item, u32) -> Option<(u64, u64)>,
) -> Box<dyn ObjIter<'a> + 'a> {
    Box::new(W { it: Some(it), held: Vec::with_capacity(160), obs: obs_dup(), mk: |i| i.dup(), wr, obs_dup, dbg: None })
}

fn key_of(o: Obs) -> u64 {
    match o {
        Obs::Kv(k, _) | Obs::K(k) => k as u64,
        Obs::V(v) => v,
    }
}

impl<'a, I: Inner + 'a> ObjIter<'a> for W<I> {
    fn ends(&self) -> bool {
        I::ENDS
    }
    fn next(&mut self) -> Option<Obs> {
        let x = self.it().next();
        self.hold(x)
    }
    fn back(&mut self) -> Option<Obs> {
        let x = self.it().back();
        self.hold(x)
    }
    fn nth(&mut self, n: usize) -> Option<Obs> {
        let x = self.it().nth(n);
        self.hold(x)
    }
    fn nth_back(&mut self, n: usize) -> Option<Obs> {
        let x = self.it().nth_b(n);
        self.hold(x)
    }
    fn find(&mut self, want: u64, back: bool, how: usize) -> Option<(Option<Obs>, Vec<Obs>, usize, bool)> {
        let obs = (self.obs_dup)();
        let mut seen = Vec::new();
        let mut see = |x: &I::Item| {
            let o = obs(x);
            seen.push(o);
            assert!(seen.len() < 2000, "runaway iterator");
            key_of(o) == want
        };
        let held = &mut self.held;
        let it = self.it.as_mut().expect("iterator already consumed");
        let mut keep = |x: I::Item| {
            let hit = see(&x);
            held.push(x);
            hit
        };
        let (hit, at) = match (back, how) {
            (false, 1) => (it.any(keep), 0),
            (false, 2) => (!it.all(|x| !keep(x)), 0),
            (false, 3) => {
                let p = it.position(keep);
                (p.is_some(), p.map_or(0, |p| p + 1))
            }
            (false, 4) => (it.find_map(|x| if keep(x) { Some(()) } else { None }).is_some(), 0),
            (true, 3) => {
                let p = it.rpos(keep)?;
                (p.is_some(), p.map_or(0, |p| p + 1))
            }
            _ => {
                let x = if back { it.rfind_w(see) } else { it.find(see) };
                let n = if x.is_some() { seen.len() } else { 0 };
                return Some((self.hold(x), seen, n, false));
            }
        };
        let at = if !hit || how == 3 { at } else { seen.len() };
        Some((if hit { seen.last().copied() } else { None }, seen, at, true))
    }
    fn hint(&self) -> (usize, Option<usize>) {
        self.it.as_ref().map_or((0, Some(0)), |i| i.size_hint())
    }
    fn exact(&self) -> Option<usize> {
        self.it.as_ref().and_then(|i| i.exact())
    }
    fn debug(&self) -> Option<String> {
        let d = self.dbg?;
        self.it.as_ref().map(d)
    }
    fn dup(&self) -> Option<Box<dyn ObjIter<'a> + 'a>> {
        let it = (self.mk)(self.it.as_ref()?)?;
        let held = Vec::with_capacity(160);
        Some(Box::new(W { it: Some(it), held, obs: (self.obs_dup)(), mk: self.mk, wr: self.wr, obs_dup: self.obs_dup, dbg: self.dbg }))
    }
    fn drain(&mut self, back: bool, limit: usize, fuse: usize, how: usize) -> (Vec<Obs>, bool) {
        let it = self.it.take().expect("iterator already consumed");
        let (obs, held) = (&self.obs, &mut self.held);
        let mut out = Vec::with_capacity(limit + 1);
        let r = catch_unwind(AssertUnwindSafe(|| {
            let f = |x: I::Item| {
                if out.len() <= limit {
                    out.push(obs(&x));
                    held.push(x);
                } else {
                    panic!("runaway iterator");
                }
                if fuse != 0 && out.len() == fuse {
                    panic!("injected: fold");
                }
            };
            let mut f = f;
            if back {
                return it.rfold_all(f);
            }
            match how {
                1 => it.for_each(f),
                2 => it.collect::<Vec<_>>().into_iter().for_each(f),
                3 => {
                    let (a, b): (Vec<_>, Vec<_>) = it.partition(|_| true);
                    assert!(b.is_empty());
                    a.into_iter().for_each(f);
                }
                4 => it.zip(0..).for_each(|(x, _)| f(x)),
                5 => it.step_by(1).for_each(f),
                6 => it.skip(0).peekable().for_each(f),
                7 => {
                    for x in it {
                        f(x);
                    }
                }
                8 => {
                    let mut all: Vec<I::Item> = Vec::new();
                    all.extend(it);
                    all.into_iter().for_each(f);
                }
                _ => it.fold((), |(), x| f(x)),
            }
        }));
        (out, r.is_err())
    }
    fn collect(&mut self, back: bool, limit: usize) -> Vec<Obs> {
        let mut out = Vec::new();
        while let Some(o) = if back { self.back() } else { self.next() } {
            out.push(o);
            if out.len() > limit {
                break;
            }
        }
        self.it = None;
        out
    }
    fn count(&mut self) -> usize {
        self.it.take().expect("iterator already consumed").count()
    }
    fn last(&mut self) -> Option<Obs> {
        let x = self.it.take().expect("iterator already consumed").last();
        self.hold(x)
    }
    fn write(&mut self, i: usize, w: u32) -> Option<(u64, u64)> {
        let wr = self.wr;
        self.held.get_mut(i).and_then(|x| wr(x, w))
    }
    fn halt(&mut self) {
        self.it = None;
    }
    fn finish(&mut self) {
        self.it = None;
        let held = &mut self.held;
        val::quiet(|| held.clear());
    }
}

/// The number that stands for a value in traces: its payload, or its identity in ownership runs.
pub fn num<V: Value>(v: &V) -> u64 {
    if super::own() {
        v.id()
    } else {
        u64::from(v.p())
    }
}

/// Store payload `w`: in place, or (ownership runs) by replacing the whole value. Returns the
/// numbers of the old and the new value.
pub fn put<V: Value>(v: &mut V, w: u32) -> (u64, u64) {
    let old = num(v);
    if super::own() {
        let old_val = std::mem::replace(v, V::make(w));
        val::quiet(|| drop(old_val));
    } else {
        v.set(w);
    }
    (old, num(v))
}
