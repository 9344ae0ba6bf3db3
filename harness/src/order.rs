//! Everything the ordering traits say about three containers a, b, c.

#[derive(Default, Debug)]
pub struct Ord3 {
    /// partial_cmp(a, b): -1, 0, 1 or 2 for "incomparable"
    pub pc: i32,
    /// cmp(a, b), or 9 if there is no total order
    pub cmp: i32,
    pub lt: bool,
    pub le: bool,
    pub gt: bool,
    pub ge: bool,
    /// contents of max(a, b), min(a, b), clamp(a, b, c); clamp only when b <= c
    pub max: Vec<(usize, u64)>,
    pub min: Vec<(usize, u64)>,
    pub clamp: Option<Vec<(usize, u64)>>,
    /// which operand (1 = a, 2 = b, 3 = c, 0 = cannot be told) max, min and clamp returned
    pub from: [u8; 3],
}

/// A value with a mark that comparisons do not see.
#[derive(Clone, Copy, Debug)]
pub struct Marked<T>(pub T, pub u8);
impl<T: PartialEq> PartialEq for Marked<T> {
    fn eq(&self, o: &Self) -> bool {
        self.0 == o.0
    }
}
impl<T: Eq> Eq for Marked<T> {}
impl<T: PartialOrd> PartialOrd for Marked<T> {
    fn partial_cmp(&self, o: &Self) -> Option<std::cmp::Ordering> {
        self.0.partial_cmp(&o.0)
    }
}
impl<T: Ord> Ord for Marked<T> {
    fn cmp(&self, o: &Self) -> std::cmp::Ordering {
        self.0.cmp(&o.0)
    }
}

pub fn code(o: std::cmp::Ordering) -> i32 {
    o as i32
}

/// Payload number standing for an incomparable value.
pub const NAN: u64 = 9;

pub fn f(v: u64) -> f64 {
    if v == NAN {
        f64::NAN
    } else {
        v as f64
    }
}

#[macro_export]
macro_rules! m_order {
    ($t:ty, $a:ident, $b:ident, $c:ident, $total:ident) => {{
        use fixed_map::Map;
        use $crate::kt::KT;
        let ks = <$t as KT>::all();
        let mut r = $crate::order::Ord3::default();
        if $total {
            let mk = |s: &[(usize, u64)], mark: u8| {
                let mut m: Map<$t, $crate::order::Marked<u64>> = Map::new();
                for &(k, v) in s {
                    m.insert(ks[k - 1], $crate::order::Marked(v, mark));
                }
                m
            };
            // contents, and whose they are
            let out = |m: Map<$t, $crate::order::Marked<u64>>| {
                let who = m.values().next().map_or(0, |v| v.1);
                let who = if m.values().all(|v| v.1 == who) { who } else { 9 };
                (m.iter().map(|(k, v)| (k.idx(), v.0)).collect::<Vec<_>>(), who)
            };
            let (a, b, c) = (|| mk($a, 1), || mk($b, 2), || mk($c, 3));
            r.pc = a().partial_cmp(&b()).map_or(2, $crate::order::code);
            r.cmp = $crate::order::code(a().cmp(&b()));
            (r.lt, r.le, r.gt, r.ge) = (a() < b(), a() <= b(), a() > b(), a() >= b());
            (r.max, r.from[0]) = out(a().max(b()));
            (r.min, r.from[1]) = out(a().min(b()));
            let ok = $crate::order::le(&out(b()).0, &out(c()).0);
            if ok {
                let x = out(a().clamp(b(), c()));
                r.clamp = Some(x.0);
                r.from[2] = x.1;
            }
        } else {
            let mk = |s: &[(usize, u64)]| {
                let mut m: Map<$t, f64> = Map::new();
                for &(k, v) in s {
                    m.insert(ks[k - 1], $crate::order::f(v));
                }
                m
            };
            let (a, b) = (mk($a), mk($b));
            r.pc = a.partial_cmp(&b).map_or(2, $crate::order::code);
            r.cmp = 9;
            (r.lt, r.le, r.gt, r.ge) = (a < b, a <= b, a > b, a >= b);
        }
        r
    }};
}

#[macro_export]
macro_rules! s_order {
    ($t:ty, $a:ident, $b:ident, $c:ident) => {{
        use fixed_map::Set;
        use $crate::kt::KT;
        let ks = <$t as KT>::all();
        let mut r = $crate::order::Ord3::default();
        let mk = |s: &[usize]| {
            let mut m: Set<$t> = Set::new();
            for &k in s {
                m.insert(ks[k - 1]);
            }
            m
        };
        let out = |m: Set<$t>| m.iter().map(|k| (k.idx(), 1)).collect::<Vec<_>>();
        let (a, b, c) = (mk($a), mk($b), mk($c));
        r.pc = a.partial_cmp(&b).map_or(2, $crate::order::code);
        r.cmp = $crate::order::code(a.cmp(&b));
        (r.lt, r.le, r.gt, r.ge) = (a < b, a <= b, a > b, a >= b);
        r.max = out(a.max(b));
        r.min = out(a.min(b));
        let ok = $crate::order::le(&out(b), &out(c));
        r.clamp = ok.then(|| out(a.clamp(b, c)));
        r
    }};
}

/// Precondition of clamp, decided without the library's comparison (clamp panics otherwise).
pub fn le(a: &[(usize, u64)], b: &[(usize, u64)]) -> bool {
    a <= b
}

pub type MOrd = fn(&[(usize, u64)], &[(usize, u64)], &[(usize, u64)], bool) -> Option<Ord3>;
pub type SOrd = fn(&[usize], &[usize], &[usize]) -> Option<Ord3>;

pub fn m<K: super::kt::KT>(
    a: &[(usize, u64)],
    b: &[(usize, u64)],
    c: &[(usize, u64)],
    total: bool,
) -> Option<Ord3> {
    #[cfg(feature = "m_order")]
    return K::m_order(a, b, c, total);
    #[cfg(not(feature = "m_order"))]
    None
}

pub fn s<K: super::kt::KT>(a: &[usize], b: &[usize], c: &[usize]) -> Option<Ord3> {
    #[cfg(feature = "s_order")]
    return K::s_order(a, b, c);
    #[cfg(not(feature = "s_order"))]
    None
}

/// Operations: ["m", a, b, c, total] and ["s", a, b, c]; contents are given in the order of
/// insertion.
pub fn session(t: &super::Ty, ops: &[super::J]) {
    use super::dmap::u;
    use serde_json::json;
    for op in ops {
        let total = op[4].as_u64() != Some(0);
        let kv = |j: &super::J| -> Vec<(usize, u64)> {
            j.as_array().map_or(vec![], |l| l.iter().map(|e| (u(&e[0]), u(&e[1]) as u64)).collect())
        };
        let ks = |j: &super::J| -> Vec<usize> { j.as_array().map_or(vec![], |l| l.iter().map(u).collect()) };
        let map = op[0].as_str() == Some("m");
        let r = if map {
            (t.m_order)(&kv(&op[1]), &kv(&op[2]), &kv(&op[3]), total)
        } else {
            (t.s_order)(&ks(&op[1]), &ks(&op[2]), &ks(&op[3]))
        };
        let Some(r) = r else { continue };
        super::trace::line(&json!({"e": if map { "cmpm" } else { "cmps" }, "a": op[1], "b": op[2], "c": op[3],
            "total": total, "pc": r.pc, "cmp": r.cmp, "lt": r.lt, "le": r.le, "gt": r.gt, "ge": r.ge,
            "max": r.max, "min": r.min, "hc": r.clamp.is_some(), "clamp": r.clamp.unwrap_or_default(), "from": r.from}));
    }
}
