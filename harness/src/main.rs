//! Executes plans (sequences of public calls) on the real library and records what it answers.
#![allow(clippy::all, dead_code, unused_imports, unused_macros, unused_variables)]
use serde_json::json;
use std::sync::atomic::{AtomicBool, Ordering::Relaxed};

pub mod alloc;
pub mod content;
pub mod dmap;
pub mod dset;
pub mod foot;
pub mod iters;
#[macro_use]
pub mod kt;
pub mod mapo;
#[macro_use]
pub mod order;
pub mod seto;
pub mod trace;
pub mod val;
pub mod wire;

pub mod types {
    include!(env!("VERIF_KEYS"));
}

pub type J = serde_json::Value;
/// Payload of `Val::default()`.
pub const DEFAULT_P: u32 = 7;
/// Payload of a value that equals nothing, not even itself.
pub const ODD_P: u32 = 1_000_003;

#[global_allocator]
static A: alloc::Counting = alloc::Counting;

static OWN: AtomicBool = AtomicBool::new(false);
/// Do value numbers stand for identities (ownership runs) or payloads?
pub fn own() -> bool {
    OWN.load(Relaxed)
}

pub struct Ty {
    pub name: &'static str,
    pub map: fn(&str) -> Box<dyn mapo::MapObj>,
    pub set: fn(&str) -> Box<dyn seto::SetObj>,
    pub sizes: fn() -> [usize; 5],
    pub m_order: order::MOrd,
    pub s_order: order::SOrd,
    pub foot: foot::Run,
    pub foot_big: foot::Run,
}

pub fn ty<K: kt::KT>(name: &'static str) -> Ty {
    Ty {
        name,
        map: mapo::make::<K>,
        set: seto::make::<K>,
        sizes: K::sizes,
        m_order: order::m::<K>,
        s_order: order::s::<K>,
        foot: foot::run::<K, u64>,
        foot_big: foot::run::<K, foot::Big>,
    }
}

fn msg(p: &Box<dyn std::any::Any + Send>) -> String {
    p.downcast_ref::<String>().cloned().or_else(|| p.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default()
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let plan = std::fs::read_to_string(&a[1]).expect("plan");
    trace::open(&a[2]);
    std::panic::set_hook(Box::new(|_| {}));
    trace::watchdog(25);
    let reg = types::registry();
    for l in plan.lines().filter(|l| !l.is_empty()) {
        let s: J = serde_json::from_str(l).expect("plan line");
        let name = s["ty"].as_str().expect("ty");
        let t = reg.iter().find(|t| t.name == name).unwrap_or_else(|| panic!("no type {name}"));
        let own = s["own"].as_bool().unwrap_or(false);
        OWN.store(own, Relaxed);
        val::reset();
        trace::line(&json!({"e": "begin", "s": s["s"], "ty": name, "T": s["T"]}));
        trace::flush();
        let empty: Vec<J> = Vec::new();
        let ops = s["ops"].as_array().unwrap_or(&empty);
        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| match s["cont"].as_str() {
            Some("map") => dmap::session(t, own, s["count"].as_bool().unwrap_or(false), ops),
            Some("set") => dset::session(t, ops),
            Some("order") => order::session(t, ops),
            Some("foot") => foot::session(t, ops, s["big"].as_bool().unwrap_or(false)),
            c => panic!("container {c:?}"),
        }));
        if let Err(p) = r {
            trace::line(&json!({"e": "panic", "msg": msg(&p)}));
        } else if own {
            // everything is gone now: no value may be left
            let (live, bad) = val::with(|l| (l.live, l.bad));
            trace::line(&json!({"e": "end", "live": live, "bad": bad}));
        }
    }
    trace::line(&json!({"e": "eof"}));
    trace::flush();
}
