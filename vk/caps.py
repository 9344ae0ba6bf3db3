"""C20: what containers and iterators offer, decided by the compiler and judged by Capability.tla."""
import json
import os
import shutil
import subprocess
from concurrent.futures import ThreadPoolExecutor

from . import gen, keys
from .core import REPO, VERIF, ToolError, cargo_env
from .derive import Compiler
from .props import CHECKS

TRAITS = {
    "Send": "Send", "Sync": "Sync", "Unpin": "Unpin", "UnwindSafe": "std::panic::UnwindSafe", "RefUnwindSafe": "std::panic::RefUnwindSafe",
    "PartialEq": "PartialEq", "Eq": "Eq", "PartialOrd": "PartialOrd", "Ord": "Ord", "Hash": "std::hash::Hash", "Clone": "Clone", "Copy": "Copy",
    "Default": "Default", "Debug": "std::fmt::Debug", "Serialize": "serde::Serialize", "Deserialize": "serde::Deserialize<'static>",
    "Iterator": "Iterator", "DoubleEnded": "DoubleEndedIterator",
    "ExactSize": "ExactSizeIterator",
}
VALUES = ["u8", "f32", "String", "Vec<f32>", "std::rc::Rc<u8>", "std::cell::Cell<u8>", "std::sync::MutexGuard<'static, u8>", "&'static std::cell::Cell<u8>",
          "*const u8", "super::Bare", "fn(u8) -> u8", "std::marker::PhantomPinned", "&'static mut u8", "std::sync::atomic::AtomicU8", "super::OnlyEq", "super::OnlyClone",
          "std::cmp::Reverse<f64>", "Box<dyn Fn() + Send>", "Option<()>"]
ITERS = {"iter": "map::Iter<'static, K, V>", "keys": "map::Keys<'static, K, V>", "values": "map::Values<'static, K, V>", "iter_mut": "map::IterMut<'static, K, V>",
         "values_mut": "map::ValuesMut<'static, K, V>", "into_iter": "map::IntoIter<K, V>",
         "entry": "map::Entry<'static, <K as Key>::MapStorage<V>, K, V>"}
SETS = {"set_iter": "set::Iter<'static, K>", "set_into_iter": "set::IntoIter<K>", "intersection": "set::Intersection<'static, K>"}

HEAD = """#![allow(dead_code, unused)]
use fixed_map::{Key, Map, Set, map, set};
pub struct Bare(u8);
#[derive(PartialEq)] pub struct OnlyEq(u8);
#[derive(Clone)] pub struct OnlyClone(Box<u8>);
"""


def probes():
    """A constant per trait: does the type have it?"""
    s = ""
    for n, t in TRAITS.items():
        s += "pub mod c_%s { pub struct P<T: ?Sized>(core::marker::PhantomData<T>); pub trait No { const V: bool = false; } impl<T: ?Sized> No for P<T> {} impl<T: ?Sized + %s> P<T> { pub const V: bool = true; } }\n" % (n, t)
    s += "pub mod c_Build { pub struct P<A, B>(core::marker::PhantomData<(A, B)>); pub trait No { const V: bool = false; } impl<A, B> No for P<A, B> {} impl<A: core::iter::FromIterator<B>, B> P<A, B> { pub const V: bool = true; } }\n"
    s += "pub mod c_Array { pub struct P<A, B>(core::marker::PhantomData<(A, B)>); pub trait No { const V: bool = false; } impl<A, B> No for P<A, B> {} impl<A: From<[B; 3]> + From<[B; 0]> + From<[B; 200]>, B> P<A, B> { pub const V: bool = true; } }\n"
    s += "#[macro_export] macro_rules! caps { ($t:ty) => {{ let mut v: Vec<&'static str> = Vec::new();\n"
    for n in TRAITS:
        s += "{ use $crate::c_%s::No as _; if <$crate::c_%s::P<$t>>::V { v.push(\"%s\"); } }\n" % (n, n, n)
    s += "v }} }\n"
    s += "#[macro_export] macro_rules! pairs { ($n:ident, $m:ident, $t:ty, $u:ty, $v:expr) => {{ use $crate::$m::No as _; if <$crate::$m::P<$t, $u>>::V { $v.push(stringify!($n)); } }} }\n"
    s += ("#[macro_export] macro_rules! loops { ($t:ty, $i:ty, $r:ty, $v:expr) => {{ fn f<T>() where T: IntoIterator<Item = $i>, for<'x> &'x T: IntoIterator<Item = $r> {} f::<$t>(); $v.push(\"Loop\"); }} }\n")
    s += 'pub fn out(what: &str, vt: &str, vc: &[&str], caps: &[&str]) { println!("{{\\"e\\":\\"caps\\",\\"what\\":\\"{what}\\",\\"v\\":\\"{vt}\\",\\"vc\\":{vc:?},\\"caps\\":{caps:?}}}"); }\n'
    return s


def declare(types, derive):
    return "".join(keys.decl(t).replace("Clone, Copy, PartialEq, Debug, Key, serde::Serialize, serde::Deserialize", derive) for t in keys.closure(types))


def probe_crate(c, types, values):
    """types: [(rust declarations module, name, term, [values])]"""
    d = os.path.join(c.dir, "caps")
    os.makedirs(d + "/src", exist_ok=True)
    with open(d + "/Cargo.toml", "w") as f:
        f.write('[package]\nname = "caps"\nversion = "0.0.0"\nedition = "2021"\n[dependencies]\nfixed-map = { path = "%s", features = ["serde"] }\nserde = { version = "1", features = ["derive"] }\n'
                '[workspace]\n[profile.dev]\ndebug = 0\n' % REPO)
    shutil.copy2(os.path.join(VERIF, "harness", "Cargo.lock"), d + "/Cargo.lock")
    mods = {"full": "Clone, Copy, Debug, Key, serde::Serialize, serde::Deserialize", "bare": "Clone, Copy, Key"}
    shutil.rmtree(d + "/src/bin", ignore_errors=True)
    os.makedirs(d + "/src/bin")
    for j in range(8):
        mine = range(j, len(types), 8)
        s = HEAD + probes()
        for m, der in mods.items():
            s += "pub mod %s { use fixed_map::{Key, Map, Set, map, set};\n%s" % (m, declare([types[i][2] for i in mine if types[i][0] == m], der))
            for i in mine:
                mm, name, t = types[i]
                if mm == m:
                    s += probe(i, name, t, values[i])
            s += "}\n"
        s += "fn main() {\n" + "".join("%s::f%d();\n" % (types[i][0], i) for i in mine) + "}\n"
        with open(d + "/src/bin/p%d.rs" % j, "w") as f:
            f.write(s)
    p = subprocess.run(["cargo", "build", "--offline", "--quiet", "--manifest-path", d + "/Cargo.toml"], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                       env=cargo_env(CARGO_TARGET_DIR=d + "/target"))
    if p.returncode:
        errs = [x for x in p.stdout.split("\n\n") if x.startswith("error[E")]
        if errs and "could not compile `caps`" in p.stdout and "could not compile `fixed-map" not in p.stdout:
            # the probes only name types and traits: something the library offers is gone
            c.violation("a probe of what is offered does not compile: " + errs[0][:300], {"property": "C20", "compiler": errs[:5]}, "caps")
        raise ToolError("the probes do not build:\n" + p.stdout[-3000:])
    out = []
    for j in range(8):
        p = subprocess.run([d + "/target/debug/p%d" % j], stdout=subprocess.PIPE, text=True)
        if p.returncode:
            raise ToolError("the probes do not run")
        out += p.stdout.splitlines()
    return out


def probe(i, name, t, values):
    s = "pub fn f%d() { type K = %s;\n" % (i, t["rust"])
    s += 'println!("{{\\"e\\":\\"begin\\",\\"s\\":%d,\\"ty\\":\\"%s\\",\\"T\\":%s}}"); println!("{{\\"e\\":\\"key\\",\\"caps\\":{:?}}}", caps!(K));\n' % (
        i, name, json.dumps(keys.ast(t)).replace('"', '\\"').replace("{", "{{").replace("}", "}}"))
    s += "{ type C = Set<K>; let mut v = caps!(C); pairs!(Build, c_Build, C, K, v); pairs!(Array, c_Array, C, K, v); v.push(\"Loop\"); super::out(\"set\", \"\", &[], &v); }\n"
    for w, ty in SETS.items():
        s += "{ type I = %s; super::out(\"%s\", \"\", &[], &caps!(I)); }\n" % (ty, w)
    for v in values:
        s += "{ type V = %s; type C = Map<K, V>; let vc = caps!(V); let mut v = caps!(C); pairs!(Build, c_Build, C, (K, V), v); v.push(\"Loop\"); super::out(\"map\", stringify!(%s), &vc, &v);\n" % (v, v)
        for w, ty in ITERS.items():
            s += "{ type I = %s; super::out(\"%s\", stringify!(%s), &vc, &caps!(I)); }\n" % (ty, w, v)
        s += "}\n"
    return s + "}\n"


# P: the container; v/w: a value; k: a key; o: another container
MAP = {
    "get": "P.get(k)", "contains": "P.contains_key(k)", "len": "P.len()", "is_empty": "P.is_empty()", "iter": "P.iter()", "keys": "P.keys()", "values": "P.values()",
    "for_ref": "(&P).into_iter()", "clone": "P.clone()", "eq": "P == o", "get_mut": "P.get_mut(k)", "insert": "P.insert(k, v)", "remove": "P.remove(k)",
    "iter_mut": "P.iter_mut()", "values_mut": "P.values_mut()", "for_mut": "(&mut P).into_iter()", "retain": "P.retain(|_, _| true)", "clear": "P.clear()",
    "entry": "P.entry(k)", "or_insert": "P.entry(k).or_insert(v)", "or_insert_with": "P.entry(k).or_insert_with(|| v)", "and_modify": "P.entry(k).and_modify(|_| ())",
    "key": "P.entry(k).key()", "occupied": "match P.entry(k) { Entry::Occupied(e) => Some(e), _ => None }", "oc_get_mut": "match P.entry(k) { Entry::Occupied(e) => Some(OccupiedEntry::<K, _>::into_mut(e)), _ => None }",
    "vacant": "match P.entry(k) { Entry::Vacant(e) => Some(e), _ => None }", "oc_insert": "match P.entry(k) { Entry::Occupied(mut e) => Some(OccupiedEntry::<K, _>::insert(&mut e, v)), _ => None }",
    "oc_remove": "match P.entry(k) { Entry::Occupied(e) => Some(OccupiedEntry::<K, _>::remove(e)), _ => None }", "move": "{ let x: C = P; x }", "into_iter": "<C as IntoIterator>::into_iter(P)",
}
SET = {
    "contains": "P.contains(k)", "len": "P.len()", "is_empty": "P.is_empty()", "iter": "P.iter()", "for_ref": "(&P).into_iter()", "clone": "P.clone()", "eq": "P == o",
    "insert": "P.insert(k)", "remove": "P.remove(k)", "retain": "P.retain(|_| true)", "clear": "P.clear()", "inter_left": "P.intersection(&o)", "inter_right": "o.intersection(&P)",
    "move": "{ let x: C = P; x }", "into_iter": "<C as IntoIterator>::into_iter(P)",
}
# no library but core, no unsafe code
BARE = "#![no_std]\n#![forbid(unsafe_code)]\n#![allow(dead_code, unused, non_camel_case_types, non_snake_case)]\nuse fixed_map::{Key, Map, Set};\n"
USES = "use fixed_map::{Key, Map, Set}; use fixed_map::map::{Entry, OccupiedEntry, VacantEntry}; fn keep<T>(_: T) {}\n"


def cont(cont):
    return "Map<K, V>" if cont == "map" else "Set<K>"


def snip(text, place, ty, v="v"):
    return text.replace("P", "\0", 1).replace("\0", place).replace(": C", ": " + ty).replace("<C ", "<%s " % ty).replace("(v)", "(%s)" % v).replace(", v)", ", %s)" % v).replace("|| v", "|| " + v) \
        if "into_iter(P)" not in text and "x: C = P" not in text else text.replace("(P)", "(%s)" % place).replace("= P;", "= %s;" % place).replace(": C", ": " + ty).replace("<C ", "<%s " % ty)


def programs(pairs, singles):
    out = []
    for kind, ops in (("map", MAP), ("set", SET)):
        ty = cont(kind)
        gen_ = "<K: Key, V>" if kind == "map" else "<K: Key>"
        where = "where %s: Clone + PartialEq" % ty
        vals = ", v: V, w: V" if kind == "map" else ""
        for p in pairs:
            a, b = p["a"], p["b"]
            if a in ops and b in ops:
                out.append((USES + "fn f%s(mut m: %s, k: K, mut o: %s%s) %s { let a = %s; keep(%s); keep(a); }" % (
                    gen_, ty, ty, vals, where, snip(ops[a], "m", ty), snip(ops[b], "m", ty, "w")), {"e": "pair", "a": a, "b": b, "cont": kind}))
        for s in singles:
            a = s["a"]
            if not s[kind]:
                continue
            if a not in ops:
                raise ToolError("no program for %s" % a)
            out.append((USES + "fn f%s(k: K, o: %s%s) %s { let a = { let mut m = %s::new(); let r = %s; r }; keep(a); }" % (
                gen_, ty, vals, where, "Map::<K, V>" if kind == "map" else "Set::<K>", snip(ops[a], "m", ty)), {"e": "escape", "a": a, "cont": kind}))
            for how, par in (("shared", "m: &%s" % ty), ("own", "m: &mut %s" % ty), ("all", "mut m: %s" % ty)):
                out.append((USES + "fn f%s(%s, k: K, o: %s%s) %s { keep(%s); }" % (
                    gen_, par, ty, vals, where, snip(ops[a], "m" if how == "all" else "(*m)", ty)), {"e": "access", "a": a, "how": how, "cont": kind}))
    return out


def everyday(t):
    """All operations on one key type, with values that offer nothing (and live shortly)."""
    s = USES + declare([t], "Clone, Copy, Key") + "struct B<'a>(&'a mut u8);\ntype K = %s;\n" % t["rust"]
    for i, (n, x) in enumerate(MAP.items()):
        if n not in ("clone", "eq"):
            ty = "Map<K, B<'a>>"
            s += "fn m%d<'a>(mut m: %s, k: K, v: B<'a>) { keep(%s); }\n" % (i, ty, snip(x, "m", ty))
    for i, (n, x) in enumerate(SET.items()):
        s += "fn s%d(mut m: Set<K>, o: Set<K>, k: K) { keep(%s); }\n" % (i, snip(x, "m", "Set<K>"))
    s += "fn l<'a>(mut m: Map<K, B<'a>>, s: Set<K>) { for (k, v) in &mut m { let _: (K, &mut B<'a>) = (k, v); } for (k, v) in &m { let _: (K, &B<'a>) = (k, v); } for (k, v) in m { let _: (K, B<'a>) = (k, v); } for k in &s { let _: K = k; } for k in s { let _: K = k; } }\n"
    s += "fn b<'a>(v: impl Iterator<Item = (K, B<'a>)>, s: impl Iterator<Item = K>) -> (Map<K, B<'a>>, Set<K>) { (v.collect(), s.collect()) }\n"
    # references into a map may live as long as the map is borrowed, and iterators be kept in structures
    s += "struct Holder<'a> { i: fixed_map::map::Iter<'a, K, u8>, k: fixed_map::map::Keys<'a, K, u8>, v: fixed_map::map::Values<'a, K, u8>, s: fixed_map::set::Iter<'a, K> }\n"
    s += "fn h<'a>(m: &'a Map<K, u8>, s: &'a Set<K>) -> Holder<'a> { Holder { i: m.iter(), k: m.keys(), v: m.values(), s: s.iter() } }\n"
    s += "fn r<'a>(m: &'a mut Map<K, u8>, k: K) -> &'a mut u8 { m.entry(k).or_insert(3) }\nfn g<'a>(m: &'a Map<K, u8>, k: K) -> Option<&'a u8> { m.get(k) }\nfn n<'a>(m: &'a Map<K, u8>) -> Option<(K, &'a u8)> { m.iter().next() }\n"
    return s


def configs(c, cat, ev):
    """Every combination of features: what compiles with it."""
    names = ["U3", "B9", "bool", "one", "oobool", "CUBU", "CN", "CDEEP"] + [k for k in cat if k.startswith("k_")] + ["ou32", "CUDU", "CW", "EV", "CD"]
    terms = [(n, cat[n]) for n in names if n in cat]
    feats = ["std", "hashbrown", "serde"]
    subsets = [[f for i, f in enumerate(feats) if m >> i & 1] for m in range(8)]

    def one(on):
        comp = Compiler(c, on)
        progs = []
        for n, t in terms:
            progs.append((everyday(t), {"e": "config", "ty": n, "T": keys.ast(t), "serde": 0, "on": on}))
            if not t.get("decl"):
                # serialization of keys that bring it along
                progs.append(("fn need<T: serde::Serialize + serde::Deserialize<'static>>() {} fn q() { need::<fixed_map::Map<%s, u8>>(); need::<fixed_map::Set<%s>>() }" % (t["rust"], t["rust"]),
                              {"e": "config", "ty": n, "T": keys.ast(t), "serde": 1, "on": on}))
        bad = comp.batch([p[0] for p in progs], "config", BARE)
        return [dict(e, verdict="reject" if i in bad else "accept", why=bad.get(i, "")[:120]) for i, (_, e) in enumerate(progs)]

    with ThreadPoolExecutor(8) as ex:
        res = list(ex.map(one, subsets))
    for r in res:
        ev += [json.dumps(e, separators=(",", ":")) for e in r]
    c.log("%d configurations" % len(res))


def c20(c):
    out = c.model("CapModel", "SPECIFICATION Spec\nCONSTANTS Depth=%d\nINVARIANTS LawParts LawSane LawOrder LawMonotone LawThreads LawPair LawAlias LawKeeps LawMirror LawConfig\nCONSTRAINTS EmitT EmitS\nCHECK_DEADLOCK FALSE\n" % 1,
                  "what storage offers follows from its parts, for every key type of depth 1 and kind of value; borrowing programs", workers=1)
    lines = gen.printed(out)
    pairs = [x for x in lines if "want" in x]
    singles = [x for x in lines if "escape" in x]
    if len(pairs) < 100 or len(singles) < 20:
        raise ToolError("too few programs from the model")
    rng = c.rng
    cat = keys.catalogue()
    big = {k: t for k, t in cat.items() if keys.size(t) > 40}
    for k in big:
        if k not in ("U100", "B128"):
            del cat[k]
    for i in range(60 if c.thorough else 16):
        cat["R%d" % i] = keys.rand_type(rng, "R%d" % i, depth=rng.choice([1, 2, 3]))
    cat["EV"] = keys.everything("EV")
    types, values = [], []
    for j, (name, t) in enumerate(cat.items()):
        for m in ("full", "bare"):
            if m == "bare" and (not t.get("decl")) and rng.random() < 0.5:
                continue
            types.append((m, name, t))
            values.append(VALUES if c.thorough or name in ("U3", "CUBU", "CUDU") else rng.sample(VALUES, 6))
    ev = probe_crate(c, types, values)
    c.log("%d containers and iterators probed for %d capabilities" % (sum('"caps","what"' in x for x in ev), len(TRAITS) + 3))
    comp = Compiler(c)
    progs = programs(pairs, singles)
    use = [(everyday(t), {"e": "use", "ty": name}) for name, t in cat.items()]
    todo = progs + use
    parts = [list(range(j, len(todo), 8)) for j in range(8)]
    with ThreadPoolExecutor(8) as ex:
        res = list(ex.map(lambda j: comp.batch([todo[i][0] for i in parts[j]], "caps%d" % j), range(8)))
    bad = {}
    for j, r in enumerate(res):
        for k, msg in r.items():
            bad[parts[j][k]] = msg
    for i, (src, e) in enumerate(todo):
        ev.append(json.dumps(dict(e, n=i, verdict="reject" if i in bad else "accept"), separators=(",", ":")))
    c.log("%d programs compiled, %d refused" % (len(todo), len(bad)))
    configs(c, cat, ev)
    ev.append('{"e":"eof"}')
    base = os.path.join(c.dir, "caps.trace")
    with open(base, "w") as f:
        f.write("\n".join(ev) + "\n")
    wrong, n, out = c.validate(base, "TraceCap")
    for x in ev:
        k = json.loads(x)["e"]
        c.kinds[k] = c.kinds.get(k, 0) + 1
    c.events += len(ev)
    c.cov["traces_validated_against_impl"] += len(todo) + len(types)
    if wrong is not None:
        e = json.loads(ev[wrong - 1])
        i = wrong - 1
        while i > 0 and '"e":"begin"' not in ev[i]:
            i -= 1
        b = json.loads(ev[i])
        rep = {"property": "C20", "rejected_event": e, "seed": c.seed, "tier": c.tier}
        if e["e"] == "caps":
            rep.update(key_type=b, module=types[b["s"]][0], declaration=declare([types[b["s"]][2]], "Clone, Copy, Key"))
        elif "n" in e:
            rep.update(program=todo[e["n"]][0], compiler=bad.get(e["n"], "compiles"))
        c.violation("%s is not allowed by Capability" % json.dumps(e)[:400], rep, "caps")
    c.cov["samples"].append(json.loads(ev[rng.randrange(len(ev))]))
    c.cov["samples"].append({"program": todo[0][0]})
    c.log("caps: %d events accepted by TraceCap" % len(ev))


CHECKS["C20"] = c20
