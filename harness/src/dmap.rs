//! Executes the operations of a map session.
use super::content::C;
use super::iters::*;
use super::mapo::*;
use super::trace::Tr;
use super::val;
use super::{Ty, J};
use serde_json::json;
use std::collections::BTreeMap;
use std::panic::{catch_unwind, AssertUnwindSafe};

pub fn u(j: &J) -> usize {
    j.as_u64().unwrap_or(0) as usize
}

pub fn item(o: Option<Obs>) -> J {
    match o {
        None => json!([]),
        Some(o) => obs(o),
    }
}
pub fn obs(o: Obs) -> J {
    match o {
        Obs::Kv(k, v) => json!([k, v]),
        Obs::K(k) => json!([k]),
        Obs::V(v) => json!([v]),
    }
}
pub fn obss(v: &[Obs]) -> J {
    J::Array(v.iter().map(|o| obs(*o)).collect())
}
fn keys_of(v: &[Obs]) -> Vec<usize> {
    v.iter().map(|o| if let Obs::K(k) | Obs::Kv(k, _) = o { *k } else { 0 }).collect()
}
fn val_of(o: Obs) -> u64 {
    match o {
        Obs::Kv(_, v) | Obs::V(v) => v,
        Obs::K(_) => 0,
    }
}

/// Is this panic payload one of ours?
pub fn injected(p: &Box<dyn std::any::Any + Send>) -> bool {
    p.downcast_ref::<&str>().map_or(false, |s| s.starts_with("injected"))
        || p.downcast_ref::<String>().map_or(false, |s| s.starts_with("injected"))
}

/// Is it the panic of a destructor?
fn burst(p: &Box<dyn std::any::Any + Send>) -> bool {
    p.downcast_ref::<&str>().map_or(false, |s| *s == "injected: destructor")
}

/// Lookups of every key: [[k, value]], [k contained].
fn look(m: &mut dyn MapObj) -> (Vec<(usize, u64)>, Vec<usize>) {
    let n = m.size();
    let mut g = Vec::new();
    let mut c = Vec::new();
    for k in 1..=n {
        if let Some(v) = m.get(k) {
            g.push((k, v));
        }
        if m.contains(k) {
            c.push(k);
        }
    }
    (g, c)
}

/// Debug output as entries.
pub fn parse_debug(text: &str, keys: &[String], map: bool) -> Option<Vec<(usize, u64)>> {
    let norm = |s: &str| {
        let s: String = s.chars().filter(|c| !c.is_whitespace()).collect();
        s.replace(",)", ")").replace(",}", "}").replace(",]", "]")
    };
    let text = norm(text);
    let mut rest = text.strip_prefix('{')?.strip_suffix('}')?;
    let keys: Vec<String> = keys.iter().map(|k| norm(k)).collect();
    let mut out = Vec::new();
    while !rest.is_empty() {
        if !out.is_empty() {
            rest = rest.strip_prefix(',')?;
        }
        let mut hit = None;
        for (i, k) in keys.iter().enumerate() {
            if let Some(r) = rest.strip_prefix(k.as_str()) {
                if map {
                    let Some(r) = r.strip_prefix(':') else { continue };
                    let end = r.find(|c: char| !c.is_ascii_digit()).unwrap_or(r.len());
                    let Ok(v) = r[..end].parse::<u64>() else { continue };
                    hit = Some((i + 1, v, &r[end..]));
                    break;
                } else if r.is_empty() || r.starts_with(',') {
                    hit = Some((i + 1, 0, r));
                    break;
                }
            }
        }
        let (k, v, r) = hit?;
        out.push((k, v));
        rest = r;
    }
    Some(out)
}

/// Debug output of a list or set of keys.
pub fn parse_list(text: &str, keys: &[String]) -> Option<Vec<usize>> {
    let a = text.find(|c| c == '[' || c == '{')?;
    let b = text.rfind(|c| c == ']' || c == '}')?;
    let inner = format!("{{{}}}", text.get(a + 1..b)?);
    parse_debug(&inner, keys, false).map(|l| l.into_iter().map(|x| x.0).collect())
}

pub struct Src<'a> {
    pub list: &'a [J],
    pub at: usize,
    pub panic_at: usize,
    pub hint: usize,
}
impl Iterator for Src<'_> {
    type Item = (usize, u32);
    fn next(&mut self) -> Option<(usize, u32)> {
        if self.panic_at != 0 && self.at + 1 == self.panic_at {
            panic!("injected: source");
        }
        if self.at >= self.list.len() {
            // whoever asks again after the end gets something that does not belong
            self.at += 1;
            return (self.at == self.list.len() + 2).then_some((1, 1));
        }
        let e = &self.list[self.at];
        self.at += 1;
        Some((u(&e[0]), u(&e[1]) as u32))
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        hint(self.hint, self.list.len().saturating_sub(self.at))
    }
}
/// Size hints a source may legally give (and, last, none at all).
pub fn hint(how: usize, left: usize) -> (usize, Option<usize>) {
    match how {
        0 => (left, Some(left)),
        1 => (0, Some(left + 3)),
        2 => (left / 2, None),
        _ => (0, None),
    }
}

pub fn session(t: &Ty, own: bool, count: bool, ops: &[J]) {
    let mut d = D { t, tr: Tr { own, ..Tr::default() }, m: BTreeMap::new(), hid: 0, vis: Vec::new() };
    for op in ops {
        d.op(op);
        if count {
            // how many values are alive now?
            let (live, bad) = val::with(|l| (l.live, l.bad));
            d.tr.ev(json!({"e": "live", "n": live, "bad": bad}));
        }
    }
    let left: Vec<usize> = d.m.keys().copied().collect();
    for o in left {
        d.op(&json!(["drop", o]));
    }
}

struct D<'a> {
    t: &'a Ty,
    tr: Tr,
    m: BTreeMap<usize, Box<dyn MapObj>>,
    hid: usize,
    vis: Vec<(usize, u64, u64, u64)>,
}

impl D<'_> {
    fn snap(&mut self, o: usize, e: &str) {
        let (g, c) = look(&mut **self.m.get_mut(&o).expect("slot"));
        self.tr.ev(json!({"e": e, "o": o, "g": g, "c": c}));
    }

    fn after_boom(&mut self, name: &str, o: usize, hit: bool) {
        let vis = std::mem::take(&mut self.vis);
        let m: Vec<J> = self.m.iter_mut().map(|(o, m)| json!([o, look(&mut **m).0])).collect();
        self.tr.ev(json!({"e": "boom", "how": name, "o": o, "m": m, "vis": vis, "hit": hit}));
    }

    fn op(&mut self, op: &J) {
        let name = op[0].as_str().expect("op name");
        if name == "q" {
            // set the stage silently
            self.tr.mute = true;
            for x in &op.as_array().expect("op")[1..] {
                self.op(x);
            }
            self.tr.mute = false;
            return;
        }
        let o = u(&op[1]);
        let need = !matches!(name, "new" | "from" | "de" | "boom");
        if need && !self.m.contains_key(&o) {
            return;
        }
        let own = self.tr.own;
        macro_rules! m {
            () => {
                self.m.get_mut(&o).expect("slot")
            };
        }
        match name {
            "new" => {
                if self.m.contains_key(&o) {
                    self.op(&json!(["drop", o]));
                }
                let m = (self.t.map)(op[2].as_str().unwrap_or("new"));
                self.m.insert(o, m);
                self.tr.ev(json!({"e": "new", "o": o}));
            }
            "drop" => {
                let m = self.m.remove(&o);
                drop(m);
                self.tr.ev(json!({"e": "drop", "o": o}));
            }
            "insert" => {
                let k = u(&op[2]);
                let (n, r) = m!().insert(k, u(&op[3]) as u32);
                let r = r.unwrap_or(0);
                self.tr.inp.push(n);
                if r != 0 {
                    self.tr.out.push(r);
                }
                self.tr.ev(json!({"e": "insert", "o": o, "k": k, "v": n, "r": r}));
            }
            "remove" => {
                let k = u(&op[2]);
                let r = m!().remove(k).unwrap_or(0);
                if r != 0 {
                    self.tr.out.push(r);
                }
                self.tr.ev(json!({"e": "remove", "o": o, "k": k, "r": r}));
            }
            "get" => {
                let k = u(&op[2]);
                let r = m!().get(k).unwrap_or(0);
                self.tr.ev(json!({"e": "get", "o": o, "k": k, "r": r}));
            }
            "contains" => {
                let k = u(&op[2]);
                let r = m!().contains(k);
                self.tr.ev(json!({"e": "contains", "o": o, "k": k, "r": r}));
            }
            "getmut" => {
                let (k, w) = (u(&op[2]), u(&op[3]) as u32);
                let (r, w) = m!().get_mut(k, w).unwrap_or((0, 0));
                if r != 0 && w != 0 {
                    self.tr.inp.push(w);
                    self.tr.out.push(r);
                }
                self.tr.ev(json!({"e": "getmut", "o": o, "k": k, "r": r, "w": w}));
            }
            "clear" => {
                m!().clear();
                self.tr.ev(json!({"e": "clear", "o": o}));
            }
            "boom" => {
                // ["boom", o, i, operation]: the i-th destructor that runs in it panics
                self.vis.clear();
                val::with(|l| {
                    l.created.clear();
                    l.drop_fuse = u(&op[2]) as u64;
                });
                let r = catch_unwind(AssertUnwindSafe(|| self.op(&op[3])));
                val::with(|l| l.drop_fuse = 0);
                match r {
                    Ok(()) => {}
                    Err(p) if burst(&p) => {
                        // all that was made since is still about
                        self.tr.inp = val::with(|l| l.created.clone());
                        let to = if op[3][0] == "clone" { u(&op[3][2]) } else { o };
                        self.after_boom(op[3][0].as_str().unwrap_or(""), to, true);
                    }
                    Err(p) => std::panic::resume_unwind(p),
                }
            }
            #[cfg(feature = "m_iter")]
            "boominto" => {
                // ["boominto", o, i, front, back, how]: the same while an owning iterator goes
                let n = m!().size();
                let mut it = self.m.remove(&o).expect("slot").into();
                let mut taken = Vec::new();
                for _ in 0..u(&op[3]) {
                    taken.extend(it.next());
                }
                for _ in 0..u(&op[4]) {
                    taken.extend(it.back());
                }
                val::with(|l| l.drop_fuse = u(&op[2]) as u64);
                let how = op[5].as_str().unwrap_or("drop");
                let r = catch_unwind(AssertUnwindSafe(|| match how {
                    "drop" => {
                        it.halt();
                        None
                    }
                    "count" => {
                        it.count();
                        None
                    }
                    "last" => it.last(),
                    "nth" => it.nth(2),
                    _ => it.nth_back(2),
                }));
                val::with(|l| l.drop_fuse = 0);
                let hit = r.is_err();
                match r {
                    Ok(x) => taken.extend(x),
                    Err(p) if burst(&p) => {}
                    Err(p) => std::panic::resume_unwind(p),
                }
                if how.starts_with("nth") {
                    // what is left can still be had
                    taken.extend(it.collect(false, n));
                }
                it.halt();
                self.tr.out = taken.iter().map(|o| val_of(*o)).collect();
                self.after_boom("into", o, hit);
                it.finish();
            }
            "snap" => self.snap(o, "snap"),
            "adopt" => self.snap(o, "adopt"),
            "len" => {
                let r = m!().len();
                self.tr.ev(json!({"e": "len", "o": o, "r": r}));
            }
            "empty" => {
                let r = m!().is_empty();
                self.tr.ev(json!({"e": "empty", "o": o, "r": r}));
            }
            "debug" => {
                let m = &self.m[&o];
                let keys: Vec<String> = (1..=m.size()).map(|k| m.key_debug(k)).collect();
                for alt in [false, true] {
                    let text = m.debug(alt);
                    match parse_debug(&text, &keys, true) {
                        Some(s) => self.tr.ev(json!({"e": "ventries", "o": o, "how": "debug", "s": s})),
                        None => self.tr.ev(json!({"e": "baddebug", "o": o, "text": text})),
                    }
                }
            }
            #[cfg(feature = "m_retain")]
            "retain" => self.retain(o, op),
            #[cfg(feature = "m_entry")]
            "entry" => {
                let k = u(&op[2]);
                let empty: Vec<J> = Vec::new();
                let steps = op[3].as_array().unwrap_or(&empty);
                let (m, tr) = (self.m.get_mut(&o).expect("slot"), &mut self.tr);
                m.entry(k, steps, &mut |ev: Ev| {
                    tr.inp.extend(&ev.input);
                    if own {
                        let displaced = match ev.e {
                            "o_insert" | "o_remove" => true,
                            "o_get_mut" | "e_and_modify" | "r_write" => ev.w != 0,
                            _ => false,
                        };
                        if displaced {
                            tr.out.push(ev.r);
                        }
                    }
                    let e = if ev.panicked { "e_panic" } else { ev.e };
                    tr.ev(json!({"e": e, "at": ev.e, "o": o, "k": k, "how": ev.how, "r": ev.r, "b": ev.b, "v": ev.v,
                        "n": ev.called, "ck": ev.ck, "w": ev.w}));
                });
            }
            #[cfg(feature = "m_build")]
            "from" => {
                if self.m.contains_key(&o) {
                    self.op(&json!(["drop", o]));
                }
                let empty: Vec<J> = Vec::new();
                let list = op[2].as_array().unwrap_or(&empty);
                let proto = (self.t.map)("new");
                let mut src = Src { list, at: 0, panic_at: u(&op[4]), hint: u(&op[3]) };
                let mut made = Vec::new();
                let r = catch_unwind(AssertUnwindSafe(|| proto.from_iter(&mut src, &mut made)));
                let s: Vec<(usize, u64)> = made.iter().enumerate().map(|(i, v)| (list.get(i).map_or(1, |e| u(&e[0])), *v)).collect();
                self.tr.inp = made.clone();
                match r {
                    Ok(m) => {
                        self.m.insert(o, m);
                        self.tr.ev(json!({"e": "from", "o": o, "s": s, "all": list.len()}));
                    }
                    Err(p) if injected(&p) && !burst(&p) => self.tr.ev(json!({"e": "frompanic", "s": s})),
                    Err(p) => std::panic::resume_unwind(p),
                }
            }
            #[cfg(feature = "m_iter")]
            "views" => {
                let kind = op[2].as_str().unwrap_or("ref");
                let n = m!().size();
                if kind == "mut" {
                    let m = m!();
                    let e = m.iter_mut("iter_mut").collect(false, n);
                    let vs = m.iter_mut("values_mut").collect(false, n);
                    let e2 = m.iter_mut("ref_mut").collect(false, n);
                    let ks = keys_of(&e2);
                    let vs: Vec<u64> = vs.iter().map(|o| val_of(*o)).collect();
                    self.tr.ev(json!({"e": "views", "o": o, "how": "mut", "s": obss(&e), "ks": ks, "vs": vs}));
                } else {
                    let m = &self.m[&o];
                    let e = m.iter("iter").collect(false, n);
                    let e2 = m.iter("ref").collect(false, n);
                    let ks = m.iter("keys").collect(false, n);
                    let vs = m.iter("values").collect(false, n);
                    let vs: Vec<u64> = vs.iter().map(|o| val_of(*o)).collect();
                    self.tr.ev(json!({"e": "views", "o": o, "how": "ref", "s": obss(&e), "ks": keys_of(&ks), "vs": vs}));
                    self.tr.ev(json!({"e": "ventries", "o": o, "how": "ref", "s": obss(&e2)}));
                }
            }
            #[cfg(feature = "m_iter")]
            "ord" => {
                // every reading from the front, in order
                let n = m!().size();
                let e = self.m[&o].iter("iter").collect(false, n);
                self.tr.ev(json!({"e": "ordentries", "o": o, "how": "iter", "s": obss(&e)}));
                let ks = self.m[&o].iter("keys").collect(false, n);
                self.tr.ev(json!({"e": "ordkeys", "o": o, "how": "keys", "ks": keys_of(&ks)}));
                let vs = self.m[&o].iter("values").collect(false, n);
                let vs: Vec<u64> = vs.iter().map(|o| val_of(*o)).collect();
                self.tr.ev(json!({"e": "ordvalues", "o": o, "how": "values", "vs": vs}));
                let e = m!().iter_mut("iter_mut").collect(false, n);
                self.tr.ev(json!({"e": "ordentries", "o": o, "how": "iter_mut", "s": obss(&e)}));
                let vs = m!().iter_mut("values_mut").collect(false, n);
                let vs: Vec<u64> = vs.iter().map(|o| val_of(*o)).collect();
                self.tr.ev(json!({"e": "ordvalues", "o": o, "how": "values_mut", "vs": vs}));
            }
            #[cfg(feature = "m_iter")]
            "consume" => {
                // by value; op[2] = 1 checks the order as well
                let n = m!().size();
                let m = self.m.remove(&o).expect("slot");
                let mut it = m.into();
                let e = it.collect(false, n);
                it.finish();
                if own {
                    self.tr.out = e.iter().map(|o| val_of(*o)).collect();
                }
                let name = if u(&op[2]) == 1 { "ordconsume" } else { "consume" };
                self.tr.ev(json!({"e": name, "o": o, "s": obss(&e)}));
            }
            #[cfg(feature = "m_iter")]
            "iter" => self.iter(o, op),
            #[cfg(feature = "m_cmp")]
            "clone" => {
                let o2 = u(&op[2]);
                let fuse = u(&op[3]) as u64;
                let with = u(&op[4]) == 1 && self.m.contains_key(&o2) && o2 != o && fuse == 0;
                if !with && self.m.contains_key(&o2) {
                    self.op(&json!(["drop", o2]));
                    if o == o2 {
                        return;
                    }
                }
                val::with(|l| {
                    l.clone_fuse = fuse;
                    l.created.clear();
                });
                let mut target = if with { self.m.remove(&o2) } else { None };
                let r = catch_unwind(AssertUnwindSafe(|| match &mut target {
                    Some(t) => {
                        t.clone_from(&*self.m[&o]);
                        None
                    }
                    None => Some(self.m[&o].dup()),
                }));
                val::with(|l| l.clone_fuse = 0);
                let r = match r {
                    Err(p) if with => {
                        self.m.insert(o2, target.take().expect("target"));
                        Err(p)
                    }
                    r => r.map(|m| m.or(target).expect("a clone")),
                };
                if own {
                    self.tr.inp = val::with(|l| l.created.clone());
                }
                match r {
                    Ok(mut m) => {
                        let g = if own { look(&mut *m).0 } else { Vec::new() };
                        self.m.insert(o2, m);
                        self.tr.ev(json!({"e": "clone", "o": o, "o2": o2, "g": g}));
                    }
                    Err(p) if injected(&p) && !burst(&p) => self.tr.ev(json!({"e": "clonepanic", "o": o})),
                    Err(p) => std::panic::resume_unwind(p),
                }
            }
            #[cfg(feature = "m_cmp")]
            "eq" => {
                let o2 = u(&op[2]);
                if let Some(b) = self.m.get(&o2) {
                    let (eq, ne) = self.m[&o].eq(&**b);
                    self.tr.ev(json!({"e": "eq", "o": o, "o2": o2, "eq": eq, "ne": ne}));
                }
            }
            #[cfg(feature = "m_cmp")]
            "hash" => {
                let o2 = u(&op[2]);
                if let Some(b) = self.m.get(&o2) {
                    if let (Some(x), Some(y)) = (self.m[&o].hash(), b.hash()) {
                        self.tr.ev(json!({"e": "hash", "o": o, "o2": o2, "same": x == y}));
                    }
                }
            }
            #[cfg(feature = "m_serde")]
            "ser" => {
                let m = &self.m[&o];
                let (n, s, ok) = match m.ser() {
                    Ok(C::Map(n, l)) => {
                        let ks = m.key_contents();
                        let s: Vec<(usize, u64)> = l
                            .iter()
                            .map(|(k, v)| {
                                let k = ks.iter().position(|x| x == k).map_or(0, |i| i + 1);
                                (k, if let C::U(v) = v { *v as u64 } else { 0 })
                            })
                            .collect();
                        (n.map_or(-1, |n| n as i64), s, true)
                    }
                    _ => (-2, Vec::new(), false),
                };
                self.tr.ev(json!({"e": "ser", "o": o, "n": n, "s": s, "ok": ok}));
            }
            #[cfg(feature = "m_serde")]
            "roundtrip" => {
                let o2 = u(&op[2]);
                if let Ok(c) = self.m[&o].ser() {
                    if self.m.contains_key(&o2) && o2 != o {
                        self.op(&json!(["drop", o2]));
                    }
                    match self.m[&o].de(Box::leak(Box::new(c))) {
                        Ok(m) => {
                            self.m.insert(o2, m);
                            self.tr.ev(json!({"e": "roundtrip", "o": o, "o2": o2, "ok": true}));
                        }
                        Err(_) => self.tr.ev(json!({"e": "roundtrip", "o": o, "o2": o2, "ok": false})),
                    }
                } else {
                    self.tr.ev(json!({"e": "ser", "o": o, "n": -2, "s": [], "ok": false}));
                }
            }
            #[cfg(feature = "m_serde")]
            "jtrip" => {
                // through a text format, where the key type allows it
                let o2 = u(&op[2]);
                if let Some(r) = self.m[&o].json_trip() {
                    if self.m.contains_key(&o2) && o2 != o {
                        self.op(&json!(["drop", o2]));
                    }
                    let ok = r.is_ok();
                    if let Ok(m) = r {
                        self.m.insert(o2, m);
                    }
                    self.tr.ev(json!({"e": "roundtrip", "o": o, "o2": o2, "ok": ok}));
                }
            }
            #[cfg(feature = "m_serde")]
            "wtrip" => {
                // through a format that does not describe itself; op[3] per mille of it missing
                let (o2, cut) = (u(&op[2]), u(&op[3]));
                if let Some(r) = self.m[&o].wire_trip(cut) {
                    if self.m.contains_key(&o2) && o2 != o {
                        self.op(&json!(["drop", o2]));
                    }
                    let ok = r.is_ok();
                    if let Ok(m) = r {
                        self.m.insert(o2, m);
                    }
                    self.tr.ev(if cut == 0 {
                        json!({"e": "roundtrip", "o": o, "o2": o2, "ok": ok})
                    } else {
                        json!({"e": "de", "o": o2, "s": [], "mal": true, "ok": ok})
                    });
                }
            }
            #[cfg(feature = "m_serde")]
            "de" => {
                // op[2]: [[k, v]] with k < 0 a malformed key and v = 0 a malformed value;
                // op[3]: announced length (-1: none); op[4]: shape
                if self.m.contains_key(&o) {
                    self.op(&json!(["drop", o]));
                }
                let proto = (self.t.map)("new");
                let ks = proto.key_contents();
                let Some(badk) = proto.bad_key() else { return };
                let empty: Vec<J> = Vec::new();
                let list = op[2].as_array().unwrap_or(&empty);
                let mut l = Vec::new();
                let mut s: Vec<(i64, u64)> = Vec::new();
                let mut bad = false;
                for e in list {
                    let (k, v) = (e[0].as_i64().unwrap_or(-1), u(&e[1]) as u64);
                    bad |= k < 1 || v == 0;
                    s.push((k, v));
                    let kc = if k < 1 { badk.clone() } else { ks[k as usize - 1].clone() };
                    let vc = if v == 0 { C::Str("nonsense".into()) } else { C::U(v.into()) };
                    l.push((kc, vc));
                }
                let ann = usize::try_from(op[3].as_i64().unwrap_or(-1)).ok();
                let shape = op[4].as_str().unwrap_or("map");
                let c = match shape {
                    "map" => C::Map(ann, l),
                    "seq" => C::Seq(ann, l.into_iter().map(|x| x.0).collect()),
                    "bool" => C::Bool(true),
                    "unit" => C::Unit,
                    "str" => C::Str("x".into()),
                    "int" => C::U(1),
                    "bytes" => C::Bytes(vec![1, 2]),
                    "none" => C::None,
                    _ => C::Map(ann, l),
                };
                bad |= shape != "map";
                val::with(|l| l.created.clear());
                let r = proto.de(Box::leak(Box::new(c)));
                let ok = r.is_ok();
                if own {
                    let made = val::with(|l| l.created.clone());
                    for (x, id) in s.iter_mut().zip(&made) {
                        x.1 = *id;
                    }
                    self.tr.inp = made;
                } else {
                    for x in s.iter_mut() {
                        if x.1 != 0 {
                            x.1 = proto.shown(x.1 as u32);
                        }
                    }
                }
                if let Ok(m) = r {
                    self.m.insert(o, m);
                }
                self.tr.ev(json!({"e": "de", "o": o, "s": s, "mal": bad, "ok": ok}));
            }
            _ => {
                // an operation this build does not include
                panic!("plan: unknown operation {name}");
            }
        }
    }

    /// ["retain", o, {key: [keep, write]} or [[keep, write] per call], panic_at]
    #[cfg(feature = "m_retain")]
    fn retain(&mut self, o: usize, op: &J) {
        let own = self.tr.own;
        let dec = &op[2];
        let panic_at = u(&op[3]);
        let n = self.m[&o].size();
        let mut vis: Vec<(usize, u64, u64, u64)> = Vec::new();
        let mut inp = Vec::new();
        let mut out = Vec::new();
        let m = self.m.get_mut(&o).expect("slot");
        let r = catch_unwind(AssertUnwindSafe(|| {
            m.retain(&mut |k, v| {
                let i = vis.len();
                if i > n + 2 {
                    panic!("runaway retain");
                }
                let e = match dec {
                    J::Object(m) => m.get(&k.to_string()).cloned().unwrap_or(json!([0, 0])),
                    _ => dec.get(i).cloned().unwrap_or(json!([0, 0])),
                };
                let (keep, w) = (u(&e[0]) == 1, u(&e[1]) as u32);
                let seen = v.num();
                let mut left = seen;
                if w != 0 {
                    let (old, new) = v.put(w);
                    left = new;
                    out.push(old);
                    inp.push(new);
                }
                vis.push((k, seen, u64::from(keep), left));
                if panic_at != 0 && vis.len() == panic_at {
                    panic!("injected: retain");
                }
                keep
            });
        }));
        if own {
            self.tr.inp = inp;
            self.tr.out = out;
        }
        match r {
            Ok(()) => self.tr.ev(json!({"e": "retain", "o": o, "vis": vis})),
            Err(p) if burst(&p) => {
                self.vis = vis;
                std::panic::resume_unwind(p)
            }
            Err(p) if injected(&p) => {
                let (g, c) = look(&mut **self.m.get_mut(&o).expect("slot"));
                self.tr.ev(json!({"e": "retainpanic", "o": o, "vis": vis, "post": g, "c": c}));
            }
            Err(p) => std::panic::resume_unwind(p),
        }
    }

    #[cfg(feature = "m_iter")]
    fn iter(&mut self, o: usize, op: &J) {
        let kind = op[2].as_str().expect("kind").to_string();
        let empty: Vec<J> = Vec::new();
        let steps = op[3].as_array().unwrap_or(&empty);
        let n = self.m[&o].size();
        let base = self.hid + 1;
        self.hid += 1;
        let abs = match kind.as_str() {
            "ref" => "iter",
            "ref_mut" => "iter_mut",
            k => k,
        };
        let into = kind == "into";
        let start = json!({"e": "it_new", "j": base, "o": o, "kind": abs});
        match kind.as_str() {
            "into" => {
                let it = self.m.remove(&o).expect("slot").into();
                self.tr.ev(start);
                run_steps(&mut self.tr, &mut self.hid, it, base, steps, n, true, &[]);
            }
            "iter_mut" | "ref_mut" | "values_mut" => {
                let it = self.m.get_mut(&o).expect("slot").iter_mut(&kind);
                self.tr.ev(start);
                run_steps(&mut self.tr, &mut self.hid, it, base, steps, n, false, &[]);
            }
            _ => {
                let it = self.m[&o].iter(&kind);
                self.tr.ev(start);
                run_steps(&mut self.tr, &mut self.hid, it, base, steps, n, false, &[]);
            }
        }
    }
}

/// Drive an iterator and its clones.
pub fn run_steps<'a>(
    tr: &mut Tr,
    hid: &mut usize,
    root: Box<dyn ObjIter<'a> + 'a>,
    base: usize,
    steps: &[J],
    n: usize,
    into: bool,
    keys: &[String],
) {
    let mut its: Vec<Option<Box<dyn ObjIter<'a> + 'a>>> = vec![Some(root)];
    let mut ids = vec![base];
    let mut parked = Vec::new();
    let own = tr.own && into;
    for st in steps {
        let name = st[0].as_str().expect("step");
        let i = u(&st[1]);
        let x = u(&st[2]);
        let Some(Some(it)) = its.get_mut(i) else { continue };
        let j = ids[i];
        let mut gone = false;
        match name {
            "next" | "back" | "nth" | "nthb" => {
                if !it.ends() && matches!(name, "back" | "nthb") {
                    continue;
                }
                let r = match name {
                    "next" => it.next(),
                    "back" => it.back(),
                    "nth" => it.nth(x),
                    _ => it.nth_back(x),
                };
                if own {
                    tr.out.extend(r.map(val_of));
                }
                tr.ev(json!({"e": format!("it_{name}"), "j": j, "c": x, "r": item(r)}));
            }
            "find" | "rfind" => {
                if !it.ends() && name == "rfind" {
                    continue;
                }
                let how = u(&st[3]);
                let Some((r, seen, at, kept)) = it.find(x as u64, name == "rfind", how) else { continue };
                if own {
                    if kept {
                        tr.out.extend(seen.iter().map(|o| val_of(*o)));
                    } else {
                        tr.out.extend(r.map(val_of));
                    }
                }
                let how = if name == "rfind" && how == 3 { "rposition" } else { "" };
                tr.ev(json!({"e": format!("it_{name}"), "j": j, "c": x, "s": obss(&seen), "r": item(r), "p": at, "how": how}));
            }
            "hint" => {
                let (lo, hi) = it.hint();
                let lo = lo.min(1 << 30);
                tr.ev(json!({"e": "it_hint", "j": j, "lo": lo, "hi": hi.map_or(-1, |h| h.min(1 << 30) as i64)}));
            }
            "len" => {
                if let Some(r) = it.exact() {
                    tr.ev(json!({"e": "it_len", "j": j, "r": r.min(1 << 30)}));
                }
            }
            "clone" => {
                if let Some(c) = it.dup() {
                    *hid += 1;
                    its.push(Some(c));
                    ids.push(*hid);
                    tr.ev(json!({"e": "it_clone", "j": j, "j2": *hid}));
                }
            }
            "write" => {
                if let Some((old, new)) = it.write(x, u(&st[3]) as u32) {
                    if tr.own {
                        tr.inp.push(new);
                        tr.out.push(old);
                    }
                    tr.ev(json!({"e": "it_write", "j": j, "i": x + 1, "w": new}));
                }
            }
            "fold" | "rfold" => {
                let back = name == "rfold";
                if back && !it.ends() {
                    continue;
                }
                let (items, panicked) = it.drain(back, n, x, u(&st[3]));
                if panicked && !(x != 0 && items.len() == x) {
                    panic!("panic or runaway in {name}");
                }
                if own {
                    tr.out.extend(items.iter().map(|o| val_of(*o)));
                }
                let e = match (back, panicked) {
                    (false, false) => "it_drain",
                    (true, false) => "it_drainb",
                    (false, true) => "it_cut",
                    (true, true) => "it_cutb",
                };
                tr.ev(json!({"e": e, "j": j, "s": obss(&items)}));
                gone = true;
            }
            "collect" | "rcollect" => {
                let back = name == "rcollect";
                if back && !it.ends() {
                    continue;
                }
                let items = it.collect(back, n);
                if own {
                    tr.out.extend(items.iter().map(|o| val_of(*o)));
                }
                tr.ev(json!({"e": if back { "it_drainb" } else { "it_drain" }, "j": j, "s": obss(&items)}));
                gone = true;
            }
            "count" => {
                let r = it.count();
                tr.ev(json!({"e": "it_count", "j": j, "r": r}));
                gone = true;
            }
            "last" => {
                let r = it.last();
                if own {
                    tr.out.extend(r.map(val_of));
                }
                tr.ev(json!({"e": "it_last", "j": j, "r": item(r)}));
                gone = true;
            }
            "peek" => {
                if let Some(text) = it.debug() {
                    let s: Vec<[usize; 1]> = match parse_list(&text, keys) {
                        Some(l) => l.into_iter().map(|k| [k]).collect(),
                        None => vec![[0]],
                    };
                    tr.ev(json!({"e": "it_peek", "j": j, "s": s}));
                }
            }
            "drop" => {
                it.halt();
                tr.ev(json!({"e": "it_drop", "j": j}));
                gone = true;
            }
            _ => panic!("plan: unknown step {name}"),
        }
        if gone {
            parked.push(its[i].take());
        }
    }
    for (i, it) in its.iter_mut().enumerate() {
        if let Some(it) = it {
            it.halt();
            tr.ev(json!({"e": "it_drop", "j": ids[i]}));
        }
    }
    // the items handed out die last
    for it in its.into_iter().chain(parked).flatten() {
        let mut it = it;
        it.finish();
    }
}
