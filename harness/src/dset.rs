//! Executes the operations of a set session.
use super::content::C;
use super::dmap::{hint, injected, obss, parse_debug, run_steps, u};
use super::iters::*;
use super::seto::*;
use super::trace::Tr;
use super::{Ty, J};
use serde_json::json;
use std::collections::BTreeMap;
use std::panic::{catch_unwind, AssertUnwindSafe};

fn keys_of(v: &[Obs]) -> Vec<usize> {
    v.iter().map(|o| if let Obs::K(k) | Obs::Kv(k, _) = o { *k } else { 0 }).collect()
}

fn look(s: &mut dyn SetObj) -> Vec<usize> {
    (1..=s.size()).filter(|k| s.contains(*k)).collect()
}

struct Src<'a> {
    list: &'a [J],
    at: usize,
    panic_at: usize,
    hint: usize,
}
impl Iterator for Src<'_> {
    type Item = usize;
    fn next(&mut self) -> Option<usize> {
        if self.panic_at != 0 && self.at + 1 == self.panic_at {
            panic!("injected: source");
        }
        if self.at >= self.list.len() {
            // whoever asks again after the end gets something that does not belong
            self.at += 1;
            return (self.at == self.list.len() + 2).then_some(1);
        }
        let e = &self.list[self.at];
        self.at += 1;
        Some(u(e))
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        hint(self.hint, self.list.len().saturating_sub(self.at))
    }
}

pub fn session(t: &Ty, ops: &[J]) {
    let mut d = D { t, tr: Tr::default(), m: BTreeMap::new(), hid: 0 };
    for op in ops {
        d.op(op);
    }
}

struct D<'a> {
    t: &'a Ty,
    tr: Tr,
    m: BTreeMap<usize, Box<dyn SetObj>>,
    hid: usize,
}

/// Positions of the one bits.
fn bits(r: u128) -> Vec<u32> {
    (0..128).filter(|b| r >> b & 1 == 1).collect()
}

impl D<'_> {
    fn op(&mut self, op: &J) {
        let name = op[0].as_str().expect("op name");
        if name == "q" {
            // set the stage silently
            self.tr.mute = true;
            for x in &op.as_array().expect("op")[1..] {
                self.op(x);
            }
            self.tr.mute = false;
            return;
        }
        let o = u(&op[1]);
        let need = !matches!(name, "new" | "from" | "array" | "de" | "fromraw");
        if need && !self.m.contains_key(&o) {
            return;
        }
        let empty: Vec<J> = Vec::new();
        macro_rules! m {
            () => {
                self.m.get_mut(&o).expect("slot")
            };
        }
        match name {
            "new" => {
                self.m.insert(o, (self.t.set)(op[2].as_str().unwrap_or("new")));
                self.tr.ev(json!({"e": "new", "o": o}));
            }
            "drop" => {
                self.m.remove(&o);
                self.tr.ev(json!({"e": "drop", "o": o}));
            }
            "insert" => {
                let k = u(&op[2]);
                let r = m!().insert(k);
                self.tr.ev(json!({"e": "insert", "o": o, "k": k, "r": r}));
            }
            "remove" => {
                let k = u(&op[2]);
                let r = m!().remove(k);
                self.tr.ev(json!({"e": "remove", "o": o, "k": k, "r": r}));
            }
            "contains" => {
                let k = u(&op[2]);
                let r = m!().contains(k);
                self.tr.ev(json!({"e": "contains", "o": o, "k": k, "r": r}));
            }
            "clear" => {
                m!().clear();
                self.tr.ev(json!({"e": "clear", "o": o}));
            }
            "snap" | "adopt" => {
                let c = look(&mut **m!());
                self.tr.ev(json!({"e": name, "o": o, "c": c}));
            }
            "len" => {
                let r = m!().len();
                self.tr.ev(json!({"e": "len", "o": o, "r": r}));
            }
            "empty" => {
                let r = m!().is_empty();
                self.tr.ev(json!({"e": "empty", "o": o, "r": r}));
            }
            "debug" => {
                let m = &self.m[&o];
                let keys: Vec<String> = (1..=m.size()).map(|k| m.key_debug(k)).collect();
                for alt in [false, true] {
                    let text = m.debug(alt);
                    match parse_debug(&text, &keys, false) {
                        Some(s) => {
                            let ks: Vec<usize> = s.into_iter().map(|x| x.0).collect();
                            self.tr.ev(json!({"e": "vkeys", "o": o, "how": "debug", "ks": ks}))
                        }
                        None => self.tr.ev(json!({"e": "baddebug", "o": o, "text": text})),
                    }
                }
            }
            #[cfg(feature = "s_retain")]
            "retain" => {
                let dec = &op[2];
                let panic_at = u(&op[3]);
                let n = self.m[&o].size();
                let mut vis: Vec<(usize, u64)> = Vec::new();
                let m = self.m.get_mut(&o).expect("slot");
                let r = catch_unwind(AssertUnwindSafe(|| {
                    m.retain(&mut |k| {
                        let i = vis.len();
                        if i > n + 2 {
                            panic!("runaway retain");
                        }
                        let keep = match dec {
                            J::Object(m) => m.get(&k.to_string()).map_or(0, u) == 1,
                            _ => dec.get(i).map_or(0, u) == 1,
                        };
                        vis.push((k, u64::from(keep)));
                        if panic_at != 0 && vis.len() == panic_at {
                            panic!("injected: retain");
                        }
                        keep
                    });
                }));
                match r {
                    Ok(()) => self.tr.ev(json!({"e": "retain", "o": o, "vis": vis})),
                    Err(p) if injected(&p) => {
                        let c = look(&mut **m!());
                        self.tr.ev(json!({"e": "retainpanic", "o": o, "vis": vis, "post": c}));
                    }
                    Err(p) => std::panic::resume_unwind(p),
                }
            }
            #[cfg(feature = "s_build")]
            "from" => {
                let list = op[2].as_array().unwrap_or(&empty);
                let proto = (self.t.set)("new");
                let mut src = Src { list, at: 0, panic_at: u(&op[4]), hint: u(&op[3]) };
                let r = catch_unwind(AssertUnwindSafe(|| proto.from_iter(&mut src)));
                let mut s: Vec<usize> = list[..src.at.min(list.len())].iter().map(u).collect();
                s.extend((src.at >= list.len() + 2).then_some(1));
                self.m.remove(&o);
                match r {
                    Ok(m) => {
                        self.m.insert(o, m);
                        self.tr.ev(json!({"e": "from", "o": o, "s": s, "all": list.len()}));
                    }
                    Err(p) if injected(&p) => self.tr.ev(json!({"e": "frompanic", "s": s})),
                    Err(p) => std::panic::resume_unwind(p),
                }
            }
            #[cfg(feature = "s_build")]
            "array" => {
                let s: Vec<usize> = op[2].as_array().unwrap_or(&empty).iter().map(u).collect();
                let proto = (self.t.set)("new");
                if let Some(m) = proto.from_array(&s) {
                    self.m.insert(o, m);
                    self.tr.ev(json!({"e": "from", "o": o, "s": s, "all": s.len()}));
                }
            }
            #[cfg(feature = "s_iter")]
            "views" => {
                let n = m!().size();
                let ks = self.m[&o].iter().collect(false, n);
                self.tr.ev(json!({"e": "vkeys", "o": o, "how": "iter", "ks": keys_of(&ks)}));
                let ks = self.m[&o].iter_ref().collect(false, n);
                self.tr.ev(json!({"e": "vkeys", "o": o, "how": "ref", "ks": keys_of(&ks)}));
            }
            #[cfg(feature = "s_iter")]
            "ord" => {
                let n = m!().size();
                let ks = self.m[&o].iter().collect(false, n);
                self.tr.ev(json!({"e": "ordkeys", "o": o, "how": "iter", "ks": keys_of(&ks)}));
                let ks = self.m[&o].iter_ref().collect(false, n);
                self.tr.ev(json!({"e": "ordkeys", "o": o, "how": "ref", "ks": keys_of(&ks)}));
            }
            #[cfg(feature = "s_iter")]
            "consume" => {
                let n = m!().size();
                let m = self.m.remove(&o).expect("slot");
                let ks = m.into().collect(false, n);
                let name = if u(&op[2]) == 1 { "ordconsume" } else { "consume" };
                self.tr.ev(json!({"e": name, "o": o, "ks": keys_of(&ks)}));
            }
            #[cfg(any(feature = "s_iter", feature = "s_inter"))]
            "iter" => {
                let kind = op[2].as_str().expect("kind").to_string();
                let steps = op[3].as_array().unwrap_or(&empty);
                let n = self.m[&o].size();
                self.hid += 1;
                let base = self.hid;
                let abs = if kind == "into" { "into" } else { "iter" };
                let start = json!({"e": "it_new", "j": base, "o": o, "kind": abs});
                if kind == "into" {
                    let it = self.m.remove(&o).expect("slot").into();
                    self.tr.ev(start);
                    run_steps(&mut self.tr, &mut self.hid, it, base, steps, n, false, &[]);
                } else {
                    let it = if kind == "ref" { self.m[&o].iter_ref() } else { self.m[&o].iter() };
                    self.tr.ev(start);
                    run_steps(&mut self.tr, &mut self.hid, it, base, steps, n, false, &[]);
                }
            }
            #[cfg(feature = "s_inter")]
            "inter" => {
                let o2 = u(&op[2]);
                if !self.m.contains_key(&o2) {
                    return;
                }
                let steps = op[3].as_array().unwrap_or(&empty);
                let n = self.m[&o].size();
                self.hid += 1;
                let base = self.hid;
                let keys: Vec<String> = (1..=n).map(|k| self.m[&o].key_debug(k)).collect();
                let root = self.m[&o].inter(&*self.m[&o2]);
                self.tr.ev(json!({"e": "it_inter", "j": base, "o": o, "o2": o2}));
                run_steps(&mut self.tr, &mut self.hid, root, base, steps, n, false, &keys);
            }
            #[cfg(feature = "s_cmp")]
            "clone" => {
                let o2 = u(&op[2]);
                let m = self.m[&o].dup();
                self.m.insert(o2, m);
                self.tr.ev(json!({"e": "clone", "o": o, "o2": o2}));
            }
            #[cfg(feature = "s_cmp")]
            "eq" => {
                let o2 = u(&op[2]);
                if let Some(b) = self.m.get(&o2) {
                    let (eq, ne) = self.m[&o].eq(&**b);
                    self.tr.ev(json!({"e": "eq", "o": o, "o2": o2, "eq": eq, "ne": ne}));
                }
            }
            #[cfg(feature = "s_cmp")]
            "hash" => {
                let o2 = u(&op[2]);
                if let Some(b) = self.m.get(&o2) {
                    if let (Some(x), Some(y)) = (self.m[&o].hash(), b.hash()) {
                        self.tr.ev(json!({"e": "hash", "o": o, "o2": o2, "same": x == y}));
                    }
                }
            }
            #[cfg(feature = "s_raw")]
            "raw" => {
                if let Some(r) = self.m[&o].as_raw() {
                    self.tr.ev(json!({"e": "raw", "o": o, "bits": bits(r)}));
                }
            }
            #[cfg(feature = "s_raw")]
            "fromraw" => {
                // op[2]: positions; those beyond the width of the integer cannot be expressed
                let width = (self.t.sizes)()[3] * 8;
                let l: Vec<usize> =
                    op[2].as_array().unwrap_or(&empty).iter().map(u).filter(|b| *b < width).collect();
                let raw = l.iter().fold(0u128, |r, b| r | 1u128 << b);
                let proto = (self.t.set)("new");
                if let Some(m) = proto.from_raw(raw) {
                    self.m.insert(o, m);
                    self.tr.ev(json!({"e": "fromraw", "o": o, "bits": bits(raw)}));
                }
            }
            #[cfg(feature = "s_serde")]
            "ser" => {
                let m = &self.m[&o];
                let (n, s, ok) = match m.ser() {
                    Ok(C::Seq(n, l)) => {
                        let ks = m.key_contents();
                        let s: Vec<usize> =
                            l.iter().map(|k| ks.iter().position(|x| x == k).map_or(0, |i| i + 1)).collect();
                        (n.map_or(-1, |n| n as i64), s, true)
                    }
                    _ => (-2, Vec::new(), false),
                };
                self.tr.ev(json!({"e": "ser", "o": o, "n": n, "s": s, "ok": ok}));
            }
            #[cfg(feature = "s_serde")]
            "roundtrip" | "jtrip" => {
                let o2 = u(&op[2]);
                let r = if name == "jtrip" {
                    match self.m[&o].json_trip() {
                        Some(r) => r,
                        None => return,
                    }
                } else {
                    self.m[&o].ser().and_then(|c| self.m[&o].de(Box::leak(Box::new(c))))
                };
                let ok = r.is_ok();
                if let Ok(m) = r {
                    self.m.insert(o2, m);
                }
                self.tr.ev(json!({"e": "roundtrip", "o": o, "o2": o2, "ok": ok}));
            }
            #[cfg(feature = "s_serde")]
            "wtrip" => {
                let (o2, cut) = (u(&op[2]), u(&op[3]));
                if let Some(r) = self.m[&o].wire_trip(cut) {
                    let ok = r.is_ok();
                    if let Ok(m) = r {
                        self.m.insert(o2, m);
                    }
                    self.tr.ev(if cut == 0 {
                        json!({"e": "roundtrip", "o": o, "o2": o2, "ok": ok})
                    } else {
                        json!({"e": "de", "o": o2, "s": [], "mal": true, "ok": ok})
                    });
                }
            }
            #[cfg(feature = "s_serde")]
            "de" => {
                self.m.remove(&o);
                let proto = (self.t.set)("new");
                let ks = proto.key_contents();
                let Some(badk) = proto.bad_key() else { return };
                let list = op[2].as_array().unwrap_or(&empty);
                let s: Vec<i64> = list.iter().map(|k| k.as_i64().unwrap_or(-1)).collect();
                let mut bad = s.iter().any(|k| *k < 1);
                let l: Vec<C> =
                    s.iter().map(|k| if *k < 1 { badk.clone() } else { ks[*k as usize - 1].clone() }).collect();
                let ann = usize::try_from(op[3].as_i64().unwrap_or(-1)).ok();
                let shape = op[4].as_str().unwrap_or("seq");
                let c = match shape {
                    "map" => C::Map(ann, l.into_iter().map(|k| (k, C::U(1))).collect()),
                    "bool" => C::Bool(true),
                    "unit" => C::Unit,
                    "str" => C::Str("x".into()),
                    "int" => C::U(1),
                    "none" => C::None,
                    "bytes" => C::Bytes(vec![1, 2]),
                    _ => C::Seq(ann, l),
                };
                bad |= shape != "seq";
                let r = proto.de(Box::leak(Box::new(c)));
                let ok = r.is_ok();
                if let Ok(m) = r {
                    self.m.insert(o, m);
                }
                self.tr.ev(json!({"e": "de", "o": o, "s": s, "mal": bad, "ok": ok}));
            }
            _ => panic!("plan: unknown operation {name}"),
        }
    }
}
